// Specification of the hash-trie engine (detail/hamts/champ.hpp, node.hpp): abstract view of a subtree,
// representation invariant, most general pre-state, contracts of the recursive functions.
#pragma once
#include "elem.hpp"
#include <immer/heap/heap_policy.hpp>
#include <immer/memory_policy.hpp>
#include <immer/detail/hamts/champ.hpp>
#include <immer/detail/hamts/champ_iterator.hpp>

#ifndef VP_B
#define VP_B 2
#endif

struct H
{
    size_t operator()(const E& e) const
    {
        LIFETIME(vp_assert(e.st == ST_LIVE, "life: only a live element is hashed");)
        return vp_uf1("hash", e.k);
    }
    size_t operator()(u64 k) const { return vp_uf1("hash", k); }
};
struct Q
{
    bool operator()(const E& a, const E& b) const
    {
        LIFETIME(vp_assert(vp_and(a.st == ST_LIVE, b.st == ST_LIVE), "life: only live elements are compared");)
        return a.k == b.k;
    }
    bool operator()(const E& a, u64 b) const
    {
        LIFETIME(vp_assert(a.st == ST_LIVE, "life: only live elements are compared");)
        return a.k == b;
    }
};

#ifdef VP_GC
using MP = immer::memory_policy<immer::heap_policy<vp_heap>,
                                immer::no_refcount_policy,
                                immer::default_lock_policy,
                                immer::gc_transience_policy,
                                false,
                                false>;
#else
using MP = immer::memory_policy<immer::heap_policy<vp_heap>,
                                immer::refcount_policy,
                                immer::default_lock_policy,
                                immer::no_transience_policy,
                                false,
                                true>;
#endif

constexpr unsigned B  = VP_B;
constexpr unsigned BR = 1u << B;
using champ_t  = immer::detail::hamts::champ<E, H, Q, MP, B>;
using node_t   = champ_t::node_t;
using values_t = node_t::values_t;
using edit_t   = champ_t::edit_t;
using bitmap_t = node_t::bitmap_t;
constexpr unsigned MAXS = immer::detail::hamts::max_shift<B>;

#ifdef VP_GC
constexpr bool GC = true;
#else
constexpr bool GC = false;
#endif

// ---- ghost fields of an abstracted (opaque) subtree
enum slot
{
    HAS_Q, // bool: the arbitrary key q is in it
    VAL_Q,
    HAS_K, // bool: the operation's key k is in it
    VAL_K,
    COUNT, // number of elements
    SHIFT, // shift of its level
    IDX,   // its position in its parent, which all hashes in it agree with
    OWNED, // bool: GC policy, the subtree's root is owned by the edit
    SING   // where its last element is, when the operation leaves it with one
};

// ---- the operations on a map from keys to values, at the key k
enum op_t
{
    ADD, // binds k to the given value
    UPD, // binds k to fn(old value or default)
    UIE, // the same if k is bound
    SUB  // unbinds k
};

static u64 q, k; // the arbitrary key and the operation's key
static u64 hq, hk;
static u64 g_v;            // ADD: the value
static u64 g_calls, g_arg; // UPD, UIE: calls of the function, and its argument
static int g_token, g_other_token;

inline u64 default_value() { return vp_uf1("default", 0); }

struct Project
{
    u64 operator()(const E& e) const
    {
        vp_assert(e.st == ST_LIVE, "life: only a live element is read");
        return e.v;
    }
    u64 operator()(E&& e) const
    {
        vp_assert(e.st == ST_LIVE, "life: only a live element is moved from");
        u64 v = e.v;
        e.st  = ST_MOVED;
        return v;
    }
};
struct Default
{
    u64 operator()() const { return default_value(); }
};
struct Combine
{
    E operator()(u64 k_, u64 v_) const
    {
        maybe_throw();
        return E{k_, v_};
    }
};
struct Fn
{
    u64 operator()(u64 x) const
    {
        maybe_throw();
        ++g_calls;
        g_arg = x;
        return vp_uf1("fn", x);
    }
};

inline void setup_keys()
{
    q       = vp_u64("q");
    k       = vp_u64("k");
    hq      = vp_uf1("hash", q);
    hk      = vp_uf1("hash", k);
    g_v     = vp_u64("v");
    g_calls = g_arg = 0;
}

inline edit_t the_edit()
{
#ifdef VP_GC
    return edit_t{&g_token};
#else
    return edit_t{};
#endif
}
template <typename T>
inline void set_owned(T* n, bool o)
{
#ifdef VP_GC
    node_t::ownee(n) = edit_t{o ? &g_token : &g_other_token};
#endif
}
template <typename T>
inline bool is_owned(T* n)
{
#ifdef VP_GC
    return node_t::ownee((const T*) n).can_mutate(the_edit());
#else
    return false;
#endif
}
template <typename T>
inline void freeze_ownee(T* n)
{
#ifdef VP_GC
    vp_freeze(&node_t::ownee(n), sizeof(void*), "who owns a shared block");
#endif
}
template <typename T>
inline void set_rc(const T* n, int rc)
{
#ifndef VP_GC
    *(int*) &node_t::refs(n) = rc;
#endif
}
template <typename T>
inline int get_rc(const T* n)
{
#ifndef VP_GC
    return *(int*) &node_t::refs(n);
#else
    return 1;
#endif
}

// the most general reference count of a block somebody else may share
inline int any_rc(const char* nm, u32 least = 1)
{
    u32 r = vp_u32(nm);
    vp_assume(vp_and(r >= least, r < 0x40000000));
    return (int) r;
}

inline u64 idx_of(u64 h, u32 s) { return (h & (u64{BR - 1} << s)) >> s; }

inline bool prefix_agrees(u64 h1, u64 h2, u32 s)
{
    if (s >= 64)
        return h1 == h2;
    return ((h1 ^ h2) & ((u64{1} << s) - 1)) == 0;
}

// ---- subtrees known by their abstract view only
struct gv_t
{
    bool hq;
    u64 vq;
    bool hk;
    u64 vk;
    u64 n;
};

inline node_t* opaque_node(const char* nm)
{
    auto m = vp_alloc(node_t::sizeof_inner_n(1), nm);
    auto n = new (m) node_t;
    vp_opaque(&n->impl.d, sizeof(n->impl.d));
    return n;
}
inline void set_view(node_t* n, gv_t g)
{
    vp_gsetb(n, HAS_Q, g.hq);
    vp_gset(n, VAL_Q, g.vq);
    vp_gsetb(n, HAS_K, g.hk);
    vp_gset(n, VAL_K, g.vk);
    vp_gset(n, COUNT, g.n);
}
inline gv_t get_view(const node_t* n)
{
    return {vp_ggetb(n, HAS_Q), vp_gget(n, VAL_Q), vp_ggetb(n, HAS_K), vp_gget(n, VAL_K), vp_gget(n, COUNT)};
}
inline node_t* new_subtree(u32 s, u64 idx, gv_t g, const char* nm = "result of a callee")
{
    auto n = opaque_node(nm);
    set_view(n, g);
    vp_gset(n, SHIFT, s);
    vp_gset(n, IDX, idx);
    vp_gsetb(n, OWNED, false);
    return n;
}
inline gv_t any_view(u64 least)
{
    gv_t g{vp_bool("sub.has_q"), vp_u64("sub.val_q"), vp_bool("sub.has_k"), vp_u64("sub.val_k"), vp_u64("sub.count")};
    vp_assume(vp_and(g.n >= least, g.n < (u64{1} << 40)));
    vp_assume(vp_implies(q == k, vp_and(vp_iff(g.hq, g.hk), g.vq == g.vk)));
    vp_assume(vp_implies(vp_or(g.hq, g.hk), g.n >= 1));
    vp_assume(vp_implies(vp_and(vp_and(g.hq, g.hk), q != k), g.n >= 2));
    return g;
}
// an arbitrary well-formed subtree below slot idx of a node at shift s: at least two elements, the hashes of all
// of them lead through slot idx, and the two views are one when q == k
inline node_t* any_subtree(u32 s, u64 idx, int rc, bool parent_owned)
{
    auto g = any_view(2);
    vp_assume(vp_implies(g.hq, vp_and(idx_of(hq, s) == idx, prefix_agrees(hq, hk, s))));
    vp_assume(vp_implies(g.hk, idx_of(hk, s) == idx));
    auto n = new_subtree(s + B, idx, g, "subtree");
    vp_gsetb(n, OWNED, GC && parent_owned ? vp_bool("sub.owned") : false);
    set_rc(n, rc);
    return n;
}

// what the operation makes of a tree with view g
inline u64 stored(op_t o, gv_t g)
{
    return o == ADD ? g_v : vp_uf1("fn", o == UPD ? vp_ite(g.hk, g.vk, default_value()) : g.vk);
}
inline gv_t after(op_t o, gv_t g)
{
    bool isq = q == k;
    if (o == SUB)
        return {vp_and(g.hq, vp_not(isq)), g.vq, false, g.vk, g.n - vp_ite(g.hk, 1, 0)};
    u64 nv = stored(o, g);
    if (o == UIE)
        return {g.hq, vp_ite(vp_and(isq, g.hk), nv, g.vq), g.hk, vp_ite(g.hk, nv, g.vk), g.n};
    return {vp_or(g.hq, isq), vp_ite(isq, nv, g.vq), true, nv, g.n + vp_ite(g.hk, 0, 1)};
}

// ---- contract: delete_deep / delete_deep_shift: releases a subtree nobody refers to any more
inline void release(node_t* p)
{
    if (vp_ghas(p, SING)) {
        vp_unfreeze(vp_ggetp(p, SING));
        vp_kill(vp_ggetp(p, SING));
    }
    vp_free_any(p);
}
inline void c_release(node_t* p, u32 s)
{
    vp_assert(vp_is_opaque(p), "contract delete_deep: called on a subtree");
    vp_assert(vp_gget(p, SHIFT) == s, "contract delete_deep: called with the depth of the subtree");
    release(p);
}
inline void c_delete_deep_shift(node_t* p, u32 s) { c_release(p, s); }
inline void c_delete_deep(node_t* p, u32 d) { c_release(p, d * B); }
VP_CONTRACT(delete_deep_shift, "hamts::node<.*>::delete_deep_shift\\(", c_delete_deep_shift)
VP_CONTRACT(delete_deep, "hamts::node<.*>::delete_deep\\(", c_delete_deep)

// ---- contract: make_merged(shift, v1, hash1, v2, hash2): a subtree of exactly the two elements
inline node_t* c_make_merged(u32 s, E* v1, u64 h1, E* v2, u64 h2)
{
    vp_assert(s <= MAXS, "contract make_merged: shift at most the maximal one");
    vp_assert(vp_and(v1->st == ST_LIVE, v2->st == ST_LIVE), "life: the elements merged are live");
    vp_assert(vp_and(h1 == vp_uf1("hash", v1->k), h2 == vp_uf1("hash", v2->k)),
              "contract make_merged: the hashes are those of the elements");
    vp_assert(v1->k != v2->k, "contract make_merged: the keys differ");
    vp_assert(prefix_agrees(h1, h2, s), "contract make_merged: the hashes agree below the shift");
    if (g_may_throw)
        if (vp_bool("make_merged.throws"))
            throw vp_boom{2};
    bool q1 = v1->k == q, q2 = v2->k == q;
    bool k1 = v1->k == k, k2 = v2->k == k;
    return new_subtree(s, idx_of(h1, s - B),
                       {vp_or(q1, q2), vp_ite(q1, v1->v, v2->v), vp_or(k1, k2), vp_ite(k1, v1->v, v2->v), 2});
}
inline node_t* c_make_merged_e(edit_t, u32 s, E* v1, u64 h1, E* v2, u64 h2)
{
    auto n = c_make_merged(s, v1, h1, v2, h2);
    vp_gsetb(n, OWNED, GC);
    return n;
}
VP_CONTRACT(make_merged, "hamts::node<.*>::make_merged\\(", c_make_merged)
VP_CONTRACT(make_merged_e, "hamts::node<.*>::make_merged_e\\(", c_make_merged_e)

// ---- contracts: the operation on a subtree
inline gv_t enter(node_t* n, u64 hash, u32 s)
{
    vp_assert(vp_is_opaque(n), "contract: the operation is applied to a subtree");
    vp_assert(vp_gget(n, SHIFT) == s, "contract: the operation gets the shift of the subtree");
    vp_assert(hash == hk, "contract: the operation gets the hash of its key");
    if (s != 0)
        vp_assert(idx_of(hk, s - B) == vp_gget(n, IDX), "contract: the subtree is on the path of the hash");
    return get_view(n);
}
inline void callee_throws()
{
    if (g_may_throw)
        if (vp_bool("callee.throws"))
            throw vp_boom{3};
}
// persistent: a new tree, the old one as it was
inline node_t* copied(op_t o, node_t* n, u32 s, gv_t g)
{
    return new_subtree(s, vp_gget(n, IDX), after(o, g));
}
// mutable: the same, unless the subtree is exclusively ours, which may then be changed, or replaced and released
inline bool can_mutate(node_t* n) { return GC ? vp_ggetb(n, OWNED) : get_rc(n) == 1; }
inline node_t* maybe_mutated(op_t o, node_t* n, u32 s, gv_t g, bool& mutated)
{
    mutated = can_mutate(n) && vp_bool("mutated");
    if (mutated && vp_bool("in place")) {
        set_view(n, after(o, g));
        return n;
    }
    auto r = copied(o, n, s, g);
    vp_gsetb(r, OWNED, GC);
    if (mutated)
        release(n);
    return r;
}
inline void call_fn(op_t o, gv_t g)
{
    ++g_calls;
    g_arg = o == UPD ? vp_ite(g.hk, g.vk, default_value()) : g.vk;
}
inline void check_elem(const E* v)
{
    vp_assert(v->st == ST_LIVE, "life: the element inserted is live");
    vp_assert(vp_and(v->k == k, v->v == g_v), "contract do_add: the element is the one inserted");
}

inline champ_t::add_result c_do_add(const champ_t*, node_t* n, E* v, u64 hash, u32 s)
{
    auto g = enter(n, hash, s);
    check_elem(v);
    callee_throws();
    return {copied(ADD, n, s, g), vp_not(g.hk)};
}
inline champ_t::add_mut_result c_do_add_mut(const champ_t*, edit_t, node_t* n, E* v, u64 hash, u32 s)
{
    auto g = enter(n, hash, s);
    check_elem(v);
    callee_throws();
    bool m;
    auto r = maybe_mutated(ADD, n, s, g, m);
    return {r, vp_not(g.hk), m};
}
inline champ_t::add_result c_do_update(const champ_t*, node_t* n, const u64* k_, const Fn*, u64 hash, u32 s)
{
    auto g = enter(n, hash, s);
    vp_assert(*k_ == k, "contract do_update: the key is the operation's");
    callee_throws();
    call_fn(UPD, g);
    return {copied(UPD, n, s, g), vp_not(g.hk)};
}
inline champ_t::add_mut_result c_do_update_mut(const champ_t*, edit_t, node_t* n, const u64* k_, const Fn*, u64 hash, u32 s)
{
    auto g = enter(n, hash, s);
    vp_assert(*k_ == k, "contract do_update: the key is the operation's");
    callee_throws();
    call_fn(UPD, g);
    bool m;
    auto r = maybe_mutated(UPD, n, s, g, m);
    return {r, vp_not(g.hk), m};
}
inline node_t* c_do_update_if_exists(const champ_t*, node_t* n, const u64* k_, const Fn*, u64 hash, u32 s)
{
    auto g = enter(n, hash, s);
    vp_assert(*k_ == k, "contract do_update: the key is the operation's");
    if (!g.hk)
        return nullptr;
    callee_throws();
    call_fn(UIE, g);
    return copied(UIE, n, s, g);
}
inline champ_t::update_if_exists_mut_result
c_do_update_if_exists_mut(const champ_t*, edit_t, node_t* n, const u64* k_, const Fn*, u64 hash, u32 s)
{
    auto g = enter(n, hash, s);
    vp_assert(*k_ == k, "contract do_update: the key is the operation's");
    if (!g.hk)
        return {nullptr, false};
    callee_throws();
    call_fn(UIE, g);
    bool m;
    auto r = maybe_mutated(UIE, n, s, g, m);
    return {r, m};
}
// the other of the two elements of a subtree: it stays in the subtree until that is released
inline E* other_element(node_t* n, u32 s, gv_t g, bool owned)
{
    auto e = (E*) vp_raw(sizeof(E), "the last element of a subtree");
    e->k   = vp_u64("single.k");
    e->v   = vp_u64("single.v");
    e->st  = ST_LIVE;
    u64 h  = vp_uf1("hash", e->k);
    vp_assume(e->k != k);
    vp_assume(prefix_agrees(h, hk, s));
    vp_assume(vp_iff(vp_and(g.hq, q != k), e->k == q));
    vp_assume(vp_implies(e->k == q, e->v == g.vq));
    if (!owned)
        vp_freeze(e, sizeof(E), "the elements of a shared node");
    vp_gsetp(n, SING, e);
    return e;
}
inline champ_t::sub_result c_do_sub(const champ_t*, node_t* n, const u64* k_, u64 hash, u32 s)
{
    auto g = enter(n, hash, s);
    vp_assert(*k_ == k, "contract do_sub: the key is the operation's");
    callee_throws();
    if (!g.hk)
        return {};
    if (s != 0 && g.n == 2)
        return {other_element(n, s, g, false)};
    return {copied(SUB, n, s, g)};
}
inline champ_t::sub_result_mut c_do_sub_mut(const champ_t*, edit_t, node_t* n, const u64* k_, u64 hash, u32 s)
{
    auto g = enter(n, hash, s);
    vp_assert(*k_ == k, "contract do_sub: the key is the operation's");
    callee_throws();
    if (!g.hk)
        return {};
    if (s != 0 && g.n == 2) {
        bool owned = can_mutate(n) && vp_bool("single.owned");
        return {other_element(n, s, g, owned), owned, false};
    }
    bool m;
    auto r = maybe_mutated(SUB, n, s, g, m);
    return {r, m};
}
VP_CONTRACT(do_add, "champ<.*>::do_add\\(", c_do_add)
VP_CONTRACT(do_add_mut, "champ<.*>::do_add_mut\\(", c_do_add_mut)
VP_CONTRACT(do_update, "champ<.*>::do_update<", c_do_update)
VP_CONTRACT(do_update_mut, "champ<.*>::do_update_mut<", c_do_update_mut)
VP_CONTRACT(do_update_if_exists, "champ<.*>::do_update_if_exists<", c_do_update_if_exists)
VP_CONTRACT(do_update_if_exists_mut, "champ<.*>::do_update_if_exists_mut<", c_do_update_if_exists_mut)
VP_CONTRACT(do_sub, "champ<.*>::do_sub<", c_do_sub)
VP_CONTRACT(do_sub_mut, "champ<.*>::do_sub_mut<", c_do_sub_mut)

inline void enable_contracts(unsigned mode)
{
    vp_enable("delete_deep", 2);
    vp_enable("delete_deep_shift", 2);
    vp_enable("make_merged", 2);
    vp_enable("make_merged_e", 2);
    vp_enable("do_add", mode);
    vp_enable("do_add_mut", mode);
    vp_enable("do_update", mode);
    vp_enable("do_update_mut", mode);
    vp_enable("do_update_if_exists", mode);
    vp_enable("do_update_if_exists_mut", mode);
    vp_enable("do_sub", mode);
    vp_enable("do_sub_mut", mode);
}

// ---- a node, all of it symbolic except its shape
struct pre_t
{
    node_t* node;
    values_t* vals;
    u32 s;
    bool coll; // a collision node: its nv elements are in the node
    unsigned nodemap, datamap, nc, nv;
    node_t* child[BR];
    unsigned cidx[BR];
    int crc[BR];
    u64 dk[BR + 1], dv[BR + 1];
    unsigned didx[BR];
    int rc, vrc;
    bool can, vcan; // node, its elements: exclusively ours
    gv_t view;
    u64 blocks, elems, allocs;
};

constexpr unsigned SHAPES = BR == 4 ? 81 : BR == 2 ? 9 : 0;

inline void new_elem(pre_t& p, E* at, unsigned j)
{
    p.dk[j] = vp_u64("elem.k");
    p.dv[j] = vp_u64("elem.v");
    new (at) E{p.dk[j], p.dv[j]};
    bool fq = p.dk[j] == q, fk = p.dk[j] == k;
    p.view.hq = vp_or(p.view.hq, fq);
    p.view.vq = vp_ite(fq, p.dv[j], p.view.vq);
    p.view.hk = vp_or(p.view.hk, fk);
    p.view.vk = vp_ite(fk, p.dv[j], p.view.vk);
    p.view.n += 1;
}
inline void built(pre_t& p)
{
    p.blocks = vp_live();
    p.elems  = g_elems;
    p.allocs = g_allocs;
}

// An inner node.  Each slot is empty, holds an element or a subtree: one ternary digit of shape per slot.
// mut: the operation finds out from the counts what is ours
inline void build_inner(pre_t& p, u32 s, unsigned shape, bool mut, bool can, bool vcan)
{
    p.s    = s;
    p.coll = false;
    p.can  = can;
    p.vcan = vcan;
    p.view = {};
    p.nodemap = p.datamap = p.nc = p.nv = 0;
    for (unsigned i = 0; i < BR; ++i) {
        auto d = shape % 3;
        shape /= 3;
        if (d == 1) {
            p.didx[p.nv++] = i;
            p.datamap |= 1u << i;
        } else if (d == 2) {
            p.cidx[p.nc++] = i;
            p.nodemap |= 1u << i;
        }
    }
    auto n = node_t::make_inner_n(p.nc, p.nv);
    n->impl.d.data.inner.nodemap = p.nodemap;
    n->impl.d.data.inner.datamap = p.datamap;
    p.node = n;
    p.vals = n->impl.d.data.inner.values;
    for (unsigned j = 0; j < p.nv; ++j) {
        new_elem(p, n->values() + j, j);
        u64 h = vp_uf1("hash", p.dk[j]);
        vp_assume(idx_of(h, s) == p.didx[j]);
        vp_assume(prefix_agrees(h, hk, s));
    }
    for (unsigned j = 0; j < p.nc; ++j) {
        p.crc[j]   = any_rc("sub.rc");
        p.child[j] = any_subtree(s, p.cidx[j], p.crc[j], can);
        n->children()[j] = p.child[j];
        auto g    = get_view(p.child[j]);
        p.view.vq = vp_ite(g.hq, g.vq, p.view.vq);
        p.view.hq = vp_or(p.view.hq, g.hq);
        p.view.vk = vp_ite(g.hk, g.vk, p.view.vk);
        p.view.hk = vp_or(p.view.hk, g.hk);
        p.view.n += g.n;
    }
    p.rc = can ? 1 : any_rc("rc", mut ? 2 : 1);
    set_rc(n, p.rc);
    set_owned(n, can);
    if (p.nv) {
        p.vrc = can && vcan ? 1 : any_rc("vrc", can ? 2 : 1);
        set_rc(p.vals, p.vrc);
        set_owned(p.vals, can && vcan);
    }
    built(p);
    if (!can) {
        vp_freeze(&n->impl.d, node_t::sizeof_inner_n(p.nc) - ((char*) &n->impl.d - (char*) n), "a shared node");
        freeze_ownee(n);
    }
    if (p.nv && !(can && vcan)) {
        vp_freeze(&p.vals->d, sizeof(E) * p.nv, "the elements of a shared node");
        freeze_ownee(p.vals);
    }
}

// A collision node: n elements with the whole hash of k, keys all different
inline void build_collision(pre_t& p, unsigned n, bool mut, bool can)
{
    p.s    = MAXS;
    p.coll = true;
    p.can = p.vcan = can;
    p.view         = {};
    p.nc = p.nodemap = p.datamap = 0;
    p.nv   = n;
    p.vals = nullptr;
    p.node = node_t::make_collision_n(n);
    for (unsigned j = 0; j < n; ++j) {
        new_elem(p, p.node->collisions() + j, j);
        vp_assume(vp_uf1("hash", p.dk[j]) == hk);
        for (unsigned i = 0; i < j; ++i)
            vp_assume(p.dk[i] != p.dk[j]);
    }
    p.rc = can ? 1 : any_rc("rc", mut ? 2 : 1);
    set_rc(p.node, p.rc);
    set_owned(p.node, can);
    built(p);
    if (!can) {
        vp_freeze(&p.node->impl.d, node_t::sizeof_collision_n(n) - ((char*) &p.node->impl.d - (char*) p.node), "a shared node");
        freeze_ownee(p.node);
    }
}

// ---- view and invariant of a node: what get() would find in it, and well-formedness
struct post_t
{
    bool hq;
    u64 vq, n;
    unsigned nc, nv;
};

inline void one_elem(post_t& r, const E& e, bool live)
{
    if (live)
        vp_assert(e.st == ST_LIVE, "life: a stored element is live");
    else
        vp_assert(vp_or(e.st == ST_LIVE, e.st == ST_MOVED), "life: a stored element is constructed");
    bool f = e.k == q;
    r.vq   = vp_ite(f, e.v, r.vq);
    r.hq   = vp_or(r.hq, f);
    r.n += 1;
}

inline post_t post_inner(node_t* n, u32 s, bool live = true)
{
    post_t r{};
    unsigned bits_n = n->nodemap(), bits_d = n->datamap();
    vp_assert((bits_n & bits_d) == 0, "wf: a slot holds an element or a subtree, not both");
    vp_assert((bits_n | bits_d) < (1u << BR), "wf: the bitmaps have no slot beyond the branching factor");
    r.nc = __builtin_popcount(bits_n);
    r.nv = __builtin_popcount(bits_d);
    u64 i = idx_of(hq, s);
    auto nvals = n->impl.d.data.inner.values;
    if (r.nv == 0)
        vp_assert(nvals == nullptr, "wf: a node without elements has no element block");
    else
        vp_assert(vp_is_alive(nvals), "mem: the element block of a node is live");
    for (unsigned j = 0; j < r.nv; ++j) {
        unsigned at = __builtin_ctz(bits_d);
        bits_d &= bits_d - 1;
        auto& e = n->values()[j];
        one_elem(r, e, live);
        u64 h = vp_uf1("hash", e.k);
        vp_assert(idx_of(h, s) == at, "wf: an element sits in the slot of its hash");
        vp_assert(prefix_agrees(h, hk, s), "wf: an element sits on the path of its hash");
    }
    for (unsigned j = 0; j < r.nc; ++j) {
        unsigned at = __builtin_ctz(bits_n);
        bits_n &= bits_n - 1;
        auto c = n->children()[j];
        vp_assert(vp_is_alive(c), "mem: a child of a node is a live block");
        vp_assert(vp_gget(c, SHIFT) == s + B, "wf: a subtree is one level below its parent");
        vp_assert(vp_gget(c, IDX) == at, "wf: a subtree sits in the slot of its hashes");
        vp_assert(vp_gget(c, COUNT) >= 2, "wf: a subtree holds at least two elements");
        bool f = vp_and(i == at, vp_ggetb(c, HAS_Q));
        r.hq   = vp_or(r.hq, f);
        r.vq   = vp_ite(f, vp_gget(c, VAL_Q), r.vq);
        r.n += vp_gget(c, COUNT);
    }
    return r;
}

inline post_t post_collision(node_t* n, bool live = true)
{
    post_t r{};
    r.nv = n->collision_count();
    for (unsigned j = 0; j < r.nv; ++j) {
        auto& e = n->collisions()[j];
        one_elem(r, e, live);
        vp_assert(vp_uf1("hash", e.k) == hk, "wf: colliding elements have the same hash");
        for (unsigned i = 0; i < j; ++i)
            vp_assert(n->collisions()[i].k != e.k, "wf: a key is stored once");
    }
    return r;
}

// ---- accounting of blocks, elements and reference counts, the parent having given up its reference to the source
// for one to res; src_alive: the source is not consumed
inline unsigned times_in(node_t* n, node_t* c)
{
    unsigned t = 0;
    for (unsigned j = 0, e = __builtin_popcount(n->nodemap()); j < e; ++j)
        t += n->children()[j] == c;
    return t;
}

template <typename T>
inline bool check_rc(const char* alive_msg, const char* rc_msg, T* x, int rc)
{
    if (!vp_is_alive(x)) {
        vp_assert(rc == 0, alive_msg);
        return false;
    }
    if (!GC)
        vp_assert(vp_and(get_rc(x) == rc, rc != 0), rc_msg);
    return true;
}

inline void account(pre_t& p, node_t* res, bool src_alive, const post_t& a, bool is_static, const char* leak_b, const char* leak_e)
{
    u64 dead = 0, fresh = 0, elems = p.elems;
    bool copied = src_alive && res != p.node;
    if (src_alive) {
        vp_assert(vp_is_alive(p.node), "rc: the source is not released while it is referred to");
        if (!GC)
            vp_assert(get_rc(p.node) == p.rc, "rc: the source keeps its owners");
    } else if (!GC) {
        vp_assert(!vp_is_alive(p.node), "rc: a replaced node is released");
        ++dead;
    }
    if (res && res != p.node && !is_static) {
        ++fresh;
        if (!GC)
            vp_assert(get_rc(res) == 1, "rc: a new node has one owner");
    }
    if (p.coll) {
        if (!src_alive)
            elems -= p.nv;
        if (res && res != p.node)
            elems += a.nv;
    } else {
        auto rv = res && !is_static ? res->impl.d.data.inner.values : nullptr;
        if (p.nv) {
            int vrc = p.vrc - 1 + (copied ? 1 : 0) + (rv == p.vals ? 1 : 0);
            if (GC) {
                if (copied || rv == p.vals)
                    vp_assert(vp_is_alive(p.vals), "rc: the elements are not released while they are referred to");
            } else if (!check_rc("rc: the elements are not released while they are referred to",
                                 "rc: the elements have as many owners as nodes refer to them", p.vals, vrc)) {
                ++dead;
                elems -= p.nv;
            }
        }
        if (rv && rv != p.vals) {
            ++fresh;
            elems += a.nv;
            if (!GC)
                vp_assert(get_rc(rv) == 1, "rc: a new element block has one owner");
        }
        for (unsigned j = 0; j < p.nc; ++j) {
            int t = (copied ? 1 : 0) + (res && !is_static ? times_in(res, p.child[j]) : 0);
            if (GC) {
                if (t)
                    vp_assert(vp_is_alive(p.child[j]), "rc: a subtree is not released while it is referred to");
            } else if (!check_rc("rc: a subtree is not released while it is referred to",
                                 "rc: a subtree has as many owners as nodes refer to it", p.child[j], p.crc[j] - 1 + t))
                ++dead;
        }
        for (unsigned j = 0; j < a.nc; ++j) {
            auto c   = res->children()[j];
            bool old = false;
            for (unsigned i = 0; i < p.nc; ++i)
                old |= p.child[i] == c;
            if (!old) {
                ++fresh;
                if (!GC)
                    vp_assert(get_rc(c) == 1, "rc: a new subtree has one owner");
            }
        }
    }
    if (!GC) {
        vp_assert(vp_live() == p.blocks - dead + fresh, leak_b);
        vp_assert(g_elems == elems, leak_e);
    }
}
