// One level of an operation on a hash trie: any node, any key, the recursive call and the helpers that walk whole
// subtrees taken by their contracts.
#pragma once
#include "champ.hpp"

struct result_t
{
    int kind; // 0 nothing, 1 the last element, 2 a tree
    node_t* node;
    E* single;
    bool added, mutated, owned;
};

template <op_t O, bool MUT>
inline result_t call(champ_t* self, node_t* n, u32 s)
{
    result_t r{};
    Fn fn;
    const u64 key = k;
    auto e        = the_edit();
    (void) e;
    r.kind = 2;
    if constexpr (O == ADD && !MUT) {
        auto x  = self->do_add(n, E{k, g_v}, hk, s);
        r.node  = x.node;
        r.added = x.added;
    } else if constexpr (O == ADD) {
        auto x    = self->do_add_mut(e, n, E{k, g_v}, hk, s);
        r.node    = x.node;
        r.added   = x.added;
        r.mutated = x.mutated;
    } else if constexpr (O == UPD && !MUT) {
        auto x  = self->template do_update<Project, Default, Combine>(n, key, fn, hk, s);
        r.node  = x.node;
        r.added = x.added;
    } else if constexpr (O == UPD) {
        auto x    = self->template do_update_mut<Project, Default, Combine>(e, n, key, fn, hk, s);
        r.node    = x.node;
        r.added   = x.added;
        r.mutated = x.mutated;
    } else if constexpr (O == UIE && !MUT) {
        r.node = self->template do_update_if_exists<Project, Combine>(n, key, fn, hk, s);
    } else if constexpr (O == UIE) {
        auto x    = self->template do_update_if_exists_mut<Project, Combine>(e, n, key, fn, hk, s);
        r.node    = x.node;
        r.mutated = x.mutated;
    } else if constexpr (!MUT) {
        auto x = self->do_sub(n, key, hk, s);
        r.kind = (int) x.kind;
        if (r.kind == 1)
            r.single = x.data.singleton;
        else if (r.kind == 2)
            r.node = x.data.tree;
    } else {
        auto x = self->do_sub_mut(e, n, key, hk, s);
        r.kind = (int) x.kind;
        if (r.kind == 1) {
            r.single = x.data.singleton;
            r.owned  = x.owned;
        } else if (r.kind == 2) {
            r.node    = x.data.tree;
            r.mutated = x.mutated;
        }
    }
    if (O == UIE && !r.node)
        r.kind = 0;
    return r;
}

enum level_t
{
    ROOT,
    INNER,
    COLL
};

inline post_t post(const pre_t& p, node_t* n, bool live = true)
{
    return p.coll ? post_collision(n, live) : post_inner(n, p.s, live);
}

template <op_t O, bool MUT>
inline void one_level(level_t level, bool throwing, unsigned colls = 3)
{
    enable_contracts(1);
    if (MUT) {
        // a mutable operation on a shared node is the persistent one on what is below it
        vp_enable("do_add", 2);
        vp_enable("do_update", 2);
        vp_enable("do_update_if_exists", 2);
        vp_enable("do_sub", 2);
    }
    setup_keys();
    pre_t p;
    if (level == COLL) {
        unsigned n = 2 + vp_case(colls, "colliding elements");
        bool can   = MUT && vp_case(2, "ours");
        build_collision(p, n, MUT, can);
    } else {
        unsigned shape = vp_case(SHAPES, "shape");
        u64 at         = vp_case(BR, "slot of k");
        unsigned own   = MUT ? vp_case(3, "ours") : 0; // nothing, the node, the node and its elements
        u32 s = 0;
        if (level == INNER) {
            s = vp_u32("shift");
            vp_assume(vp_and(s % B == 0, vp_and(s >= B, s < MAXS)));
        }
        vp_assume(idx_of(hk, s) == at);
        build_inner(p, s, shape, MUT, own >= 1, own == 2);
        if (p.nv == 0 && own == 2)
            vp_end();
        if (level == INNER)
            vp_assume(p.view.n >= 2);
    }
    auto em = champ_t::empty();
    vp_freeze(&em->impl.d, sizeof(em->impl.d) - sizeof(node_t*), "the empty node");
    freeze_ownee(em);
    auto self   = (champ_t*) vp_raw(sizeof(champ_t), "this");
    g_may_throw = throwing;
    bool threw  = false;
    result_t r{};
    try {
        r = call<O, MUT>(self, p.node, p.s);
    } catch (vp_boom&) {
        threw = true;
    } catch (std::bad_alloc&) {
        threw = true;
    }
    g_may_throw = false;
    vp_cover(threw ? "throws" : r.kind == 0 ? "nothing" : r.kind == 1 ? "single" : r.node == p.node ? "in place" : "new node");
    if (threw) {
        // nothing has happened, except that a node of ours may have lost values to the failed operation
        auto a = post(p, p.node, !p.can);
        vp_assert(vp_and(a.nv == p.nv, a.nc == p.nc), "throw: the node keeps its shape");
        account(p, p.node, true, a, false, "throw: no block is leaked", "throw: no element is leaked");
        return;
    }
    auto b = p.view, w = after(O, b);
    if (O == UPD)
        vp_assert(vp_and(g_calls == 1, g_arg == vp_ite(b.hk, b.vk, default_value())),
                  "view: the function is called once, with the value or the default");
    if (O == UIE)
        vp_assert(vp_and(g_calls == vp_ite(b.hk, 1, 0), vp_implies(b.hk, g_arg == b.vk)),
                  "view: the function is called once with the value if there is one");
    if (O == UIE)
        vp_assert(vp_iff(r.kind == 2, b.hk), "view: there is a result exactly if the key is present");
    if (O == SUB)
        vp_assert(vp_iff(r.kind != 0, b.hk), "view: there is a result exactly if the key is present");
    if (r.kind == 0) {
        auto a = post(p, p.node);
        vp_assert(vp_and(vp_iff(a.hq, b.hq), vp_and(vp_implies(a.hq, a.vq == b.vq), a.n == b.n)),
                  "view: nothing changes when there is nothing to do");
        vp_assert(!r.mutated, "contract: a node that is returned to nobody is not consumed");
        account(p, p.node, true, a, false, "rc: nothing is allocated when there is nothing to do",
                "life: no element is made when there is nothing to do");
        vp_assert(g_allocs == p.allocs, "share: nothing is allocated when there is nothing to do");
        return;
    }
    if (r.kind == 1) {
        vp_assert(level != ROOT, "wf: the root holds any number of elements");
        vp_assert(w.n == 1, "wf: an element is handed up exactly when it is the last");
        vp_assert(r.single->st == ST_LIVE, "life: the element handed up is live");
        vp_assert(r.single->k != k, "view: the element handed up is the other one");
        vp_assert(vp_iff(w.hq, r.single->k == q), "view: the element handed up is the one that stays");
        vp_assert(vp_implies(w.hq, r.single->v == w.vq), "view: the element handed up has its value");
        vp_assert(prefix_agrees(vp_uf1("hash", r.single->k), hk, p.s), "wf: the element handed up is on the path of the hash");
        if (r.owned) {
            vp_assert(p.can, "frame: only an element of ours may be moved from");
            if (!p.coll && p.nv && vp_same_object(r.single, p.vals))
                vp_assert(p.vcan, "frame: only an element of ours may be moved from");
            r.single->st = ST_MOVED; // its caller may, if it is not shared
            r.single->st = ST_LIVE;
        }
        auto a = post(p, p.node);
        account(p, p.node, true, a, false, "rc: nothing is allocated to hand an element up",
                "life: no element is made to hand one up");
        return;
    }
    bool is_static = r.node == em;
    if (!MUT || r.node == p.node)
        vp_assert((r.node == p.node) == r.mutated, "frame: a shared node is not the result");
    if (r.mutated)
        vp_assert(p.can, "frame: only a node of ours is consumed");
    auto a = post(p, r.node);
    vp_assert(vp_iff(a.hq, w.hq), "view: exactly the bindings that should be are there");
    vp_assert(vp_implies(w.hq, a.vq == w.vq), "view: exactly the value that should be is bound");
    vp_assert(a.n == w.n, "view: the number of elements is right");
    if (O == ADD || O == UPD)
        vp_assert(vp_iff(r.added, vp_not(b.hk)), "view: added tells whether the key was absent");
    if (level != ROOT)
        vp_assert(a.n >= 2, "wf: a node other than the root holds at least two elements");
    account(p, r.node, !r.mutated || r.node == p.node, a, is_static, "rc: every block is either released or part of the result",
            "life: every element is either destroyed or part of the result");
    if (!MUT && !p.coll) {
        unsigned fresh = 0;
        for (unsigned j = 0; j < a.nc; ++j) {
            bool old = false;
            for (unsigned i = 0; i < p.nc; ++i)
                old |= p.child[i] == r.node->children()[j];
            fresh += !old;
        }
        vp_assert(fresh <= 1, "share: at most one subtree is not shared with the source");
    }
    vp_assert(g_allocs - p.allocs <= 2, "share: at most two blocks are allocated per level");
}

#define LEVELS(OP, MUT, NAME)                                                  \
    VP_HARNESS(NAME##_root) { one_level<OP, MUT>(ROOT, false); }               \
    VP_HARNESS(NAME##_inner) { one_level<OP, MUT>(INNER, false); }             \
    VP_HARNESS(NAME##_coll) { one_level<OP, MUT>(COLL, false); }               \
    VP_HARNESS(NAME##_root_throw) { one_level<OP, MUT>(ROOT, true); }          \
    VP_HARNESS(NAME##_inner_throw) { one_level<OP, MUT>(INNER, true); }        \
    VP_HARNESS(NAME##_coll_throw) { one_level<OP, MUT>(COLL, true); }
