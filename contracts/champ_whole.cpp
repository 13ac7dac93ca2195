// The rest of the hash trie: construction of merged subtrees, release of a subtree, look-up, the wrappers that the
// containers call, traversal, equality and difference.
#include "champ_ops.hpp"

// ---- make_merged
static void merged(bool mut, bool throwing)
{
    vp_enable("make_merged", 1);
    vp_enable("make_merged_e", 1);
    vp_enable("delete_deep", 2);
    vp_enable("delete_deep_shift", 2);
    setup_keys();
    u32 s = vp_u32("shift");
    vp_assume(vp_and(s % B == 0, vp_and(s >= B, s <= MAXS)));
    u64 k1 = vp_u64("k1"), k2 = vp_u64("k2"), v1 = vp_u64("v1"), v2 = vp_u64("v2");
    u64 h1 = vp_uf1("hash", k1), h2 = vp_uf1("hash", k2);
    vp_assume(k1 != k2);
    vp_assume(hk == h1);
    if (s == MAXS)
        vp_assume(h1 == h2);
    else
        vp_assume(prefix_agrees(h1, h2, s));
    u64 blocks = vp_live(), elems = g_elems, allocs = g_allocs;
    node_t* n   = nullptr;
    bool threw  = false;
    g_may_throw = throwing;
    try {
        n = mut ? node_t::make_merged_e(the_edit(), s, E{k1, v1}, h1, E{k2, v2}, h2)
                : node_t::make_merged(s, E{k1, v1}, h1, E{k2, v2}, h2);
    } catch (vp_boom&) {
        threw = true;
    } catch (std::bad_alloc&) {
        threw = true;
    }
    g_may_throw = false;
    vp_cover(threw ? "throws" : "returns");
    if (threw) {
        vp_assert(vp_live() == blocks, "throw: no block is leaked");
        vp_assert(g_elems == elems, "throw: no element is leaked");
        return;
    }
    bool coll = s == MAXS;
    auto a    = coll ? post_collision(n) : post_inner(n, s);
    bool f1 = k1 == q, f2 = k2 == q;
    vp_assert(vp_iff(a.hq, vp_or(f1, f2)), "view: exactly the two elements are in the new subtree");
    vp_assert(vp_implies(a.hq, a.vq == vp_ite(f1, v1, v2)), "view: the elements keep their values");
    vp_assert(a.n == 2, "view: the new subtree has two elements");
    vp_assert(get_rc(n) == 1, "rc: a new node has one owner");
    if (a.nv && !coll)
        vp_assert(get_rc(n->impl.d.data.inner.values) == 1, "rc: a new element block has one owner");
    for (unsigned j = 0; j < a.nc; ++j)
        vp_assert(get_rc(n->children()[j]) == 1, "rc: a new subtree has one owner");
    vp_assert(vp_live() == blocks + 1 + (a.nv && !coll ? 1 : 0) + a.nc, "rc: every block is part of the result");
    vp_assert(g_elems == elems + a.nv, "life: every element is either destroyed or part of the result");
    vp_assert(g_allocs - allocs <= 2, "share: at most two blocks are allocated per level");
}
VP_HARNESS(make_merged) { merged(false, false); }
VP_HARNESS(make_merged_throw) { merged(false, true); }
VP_HARNESS(make_merged_e) { merged(true, false); }
VP_HARNESS(make_merged_e_throw) { merged(true, true); }

#ifndef VP_GC
// ---- delete_deep: a node whose last reference is gone
static void delete_deep(bool by_shift, level_t level)
{
    vp_enable("delete_deep", 1);
    vp_enable("delete_deep_shift", 1);
    setup_keys();
    pre_t p;
    if (level == COLL) {
        build_collision(p, 2 + vp_case(3, "colliding elements"), true, true);
    } else {
        unsigned shape = vp_case(SHAPES, "shape");
        u32 s          = 0;
        if (level == INNER) {
            s = vp_u32("shift");
            vp_assume(vp_and(s % B == 0, vp_and(s >= B, s < MAXS)));
        }
        bool vs = vp_case(2, "elements shared");
        build_inner(p, s, shape, true, true, !vs);
    }
    set_rc(p.node, 0);
    if (by_shift)
        node_t::delete_deep_shift(p.node, p.s);
    else
        node_t::delete_deep(p.node, p.s / B);
    vp_cover("returns");
    post_t a{};
    account(p, nullptr, false, a, false, "rc: exactly the blocks nobody refers to any more are released",
            "life: exactly the elements nobody refers to any more are destroyed");
}
VP_HARNESS(delete_deep_root) { delete_deep(false, ROOT); }
VP_HARNESS(delete_deep_inner) { delete_deep(false, INNER); }
VP_HARNESS(delete_deep_coll) { delete_deep(false, COLL); }
VP_HARNESS(delete_deep_shift_inner) { delete_deep(true, INNER); }
VP_HARNESS(delete_deep_shift_coll) { delete_deep(true, COLL); }
#endif

// ---- get: every depth at which the search can end
struct Pointer
{
    const E* operator()(const E& e) const { return &e; }
};
struct Nothing
{
    const E* operator()() const { return nullptr; }
};

static champ_t* champ_at(node_t* root, u64 size)
{
    auto c  = (champ_t*) vp_raw(sizeof(champ_t), "champ");
    c->root = root;
    c->size = size;
    return c;
}

static void get_ends_at(unsigned depth, unsigned shaped)
{
    setup_keys();
    pre_t p;
    node_t* root  = nullptr;
    node_t** link = &root;
    for (unsigned d = 0; d < depth; ++d) {
        // the path: a node with a subtree in k's slot
        node_t* n;
        if (d < shaped) {
            unsigned at = vp_case(BR, "slot of k"), shape = vp_case(SHAPES, "shape");
            pre_t t;
            vp_assume(idx_of(hk, d * B) == at);
            build_inner(t, d * B, shape, false, true, true);
            if (!((t.nodemap >> at) & 1))
                vp_end();
            n     = t.node;
            *link = n;
            link  = &n->children()[__builtin_popcount(t.nodemap & ((1u << at) - 1))];
        } else {
            n = node_t::make_inner_n(1);
            n->impl.d.data.inner.nodemap = 1u << (unsigned) idx_of(hk, d * B);
            *link                        = n;
            link                         = &n->children()[0];
        }
    }
    if (depth == MAXS / B)
        build_collision(p, 2 + vp_case(3, "colliding elements"), false, false);
    else {
        unsigned at = vp_case(BR, "slot of k"), shape;
        if (depth <= shaped)
            shape = vp_case(SHAPES, "shape");
        else { // an element in that slot, or none
            shape = vp_case(2, "present");
            for (unsigned i = 0; i < at; ++i)
                shape *= 3;
        }
        vp_assume(idx_of(hk, depth * B) == at);
        build_inner(p, depth * B, shape, false, false, false);
        if ((p.nodemap >> at) & 1)
            vp_end();
    }
    *link  = p.node;
    auto r = champ_at(root, 7)->get<Pointer, Nothing>(k);
    vp_cover(r ? "found" : "not found");
    vp_assert(vp_iff(r != nullptr, p.view.hk), "view: an element is found exactly if the key is present");
    if (r) {
        vp_assert(r->k == k, "view: the element found is the one with the key");
        vp_assert(r->v == p.view.vk, "view: the element found has the value bound to the key");
        vp_assert(vp_same_object(r, p.coll ? (void*) p.node : (void*) p.vals), "view: the element found is the stored one");
    }
}
VP_HARNESS(get_depth_0) { get_ends_at(0, 0); }
VP_HARNESS(get_depth_1) { get_ends_at(1, 0); }
VP_HARNESS(get_below) { get_ends_at(1, 1); }
VP_HARNESS(get_deep)
{
    static const unsigned ds[] = {2, 3, MAXS / B - 1, MAXS / B};
    get_ends_at(ds[vp_case(4, "depth")], 0);
}
VP_HARNESS(get_any_depth) { get_ends_at(vp_case(MAXS / B + 1, "depth"), 0); }

// ---- what the containers call: the root by its view
struct whole_t
{
    node_t* root;
    champ_t* c;
    gv_t view;
    int rc;
    u64 blocks, elems, allocs;
};
static void whole(whole_t& w, bool mut)
{
    enable_contracts(2);
    setup_keys();
    auto g = any_view(0);
    w.root = new_subtree(0, 0, g, "root");
    bool ours = mut && vp_case(2, "ours");
    w.rc      = ours ? 1 : any_rc("rc", mut ? 2 : 1);
    set_rc(w.root, w.rc);
    vp_gsetb(w.root, OWNED, GC && ours);
    w.view = g;
    w.c    = champ_at(w.root, g.n);
    w.blocks = vp_live();
    w.elems  = g_elems;
}
static void check_champ(champ_t& c, gv_t g)
{
    vp_assert(vp_is_alive(c.root), "mem: the root is a live block");
    vp_assert(vp_gget(c.root, SHIFT) == 0, "wf: the root is at the first level");
    auto h = get_view(c.root);
    vp_assert(vp_iff(h.hq, g.hq), "view: exactly the bindings that should be are there");
    vp_assert(vp_implies(g.hq, h.vq == g.vq), "view: exactly the value that should be is bound");
    vp_assert(vp_and(h.n == g.n, c.size == g.n), "view: the size is the number of elements");
}
static void same_root(whole_t& w, int rc)
{
    if (!GC)
        vp_assert(get_rc(w.root) == rc, "rc: the root has as many owners as handles");
}
template <op_t O>
static champ_t persistent(champ_t& c, Fn& fn)
{
    const u64 key = k;
    if constexpr (O == ADD)
        return c.add(E{k, g_v});
    else if constexpr (O == UPD)
        return c.update<Project, Default, Combine>(key, fn);
    else if constexpr (O == UIE)
        return c.update_if_exists<Project, Combine>(key, fn);
    else
        return c.sub(key);
}
template <op_t O>
static void wrap(bool throwing)
{
    whole_t w;
    whole(w, false);
    Fn fn;
    bool threw  = false;
    g_may_throw = throwing;
    try {
        champ_t r   = persistent<O>(*w.c, fn);
        g_may_throw = false;
        vp_cover(r.root == w.root ? "same" : "new");
        check_champ(*w.c, w.view);
        check_champ(r, after(O, w.view));
        if (r.root == w.root)
            same_root(w, w.rc + 1);
        else {
            same_root(w, w.rc);
            if (!GC)
                vp_assert(vp_and(get_rc(r.root) == 1, vp_live() == w.blocks + 1), "rc: a new root has one owner");
        }
        if (O == UIE || O == SUB)
            vp_assert(vp_iff(r.root == w.root, vp_not(w.view.hk)), "share: the whole value is shared when nothing changes");
    } catch (vp_boom&) {
        threw = true;
    } catch (std::bad_alloc&) {
        threw = true;
    }
    g_may_throw = false;
    if (threw)
        vp_cover("throws");
    check_champ(*w.c, w.view);
    same_root(w, w.rc); // r is gone
    vp_assert(GC || vp_live() == w.blocks, "throw: no block is leaked");
    vp_assert(g_elems == w.elems, "throw: no element is leaked");
}
template <op_t O>
static void wrap_mut(bool throwing)
{
    whole_t w;
    whole(w, true);
    Fn fn;
    bool threw    = false;
    const u64 key = k;
    auto e        = the_edit();
    auto& c       = *w.c;
    g_may_throw   = throwing;
    try {
        if constexpr (O == ADD)
            c.add_mut(e, E{k, g_v});
        else if constexpr (O == UPD)
            c.update_mut<Project, Default, Combine>(e, key, fn);
        else if constexpr (O == UIE)
            c.update_if_exists_mut<Project, Combine>(e, key, fn);
        else
            c.sub_mut(e, key);
    } catch (vp_boom&) {
        threw = true;
    } catch (std::bad_alloc&) {
        threw = true;
    }
    g_may_throw = false;
    vp_cover(threw ? "throws" : c.root == w.root ? "same" : "new");
    vp_assert(g_elems == w.elems, "life: no element is leaked");
    if (threw) {
        vp_assert(vp_and(c.root == w.root, c.size == w.view.n), "throw: the tree stays as it is");
        same_root(w, w.rc);
        vp_assert(GC || vp_live() == w.blocks, "throw: no block is leaked");
        return;
    }
    check_champ(c, after(O, w.view));
    if (c.root == w.root) {
        same_root(w, w.rc);
        vp_assert(GC || vp_live() == w.blocks, "rc: no block is leaked");
        vp_assert(w.rc == 1 || GC || !vp_known(after(O, w.view).hk == w.view.hk) || O == UIE || O == SUB, "frame: a shared root is not changed");
    } else {
        if (!GC) {
            vp_assert(get_rc(c.root) == 1, "rc: a new root has one owner");
            if (vp_is_alive(w.root)) {
                vp_assert(get_rc(w.root) == w.rc - 1, "rc: the old root loses an owner");
                vp_assert(w.rc > 1, "rc: the old root is released with its last owner");
                vp_assert(vp_live() == w.blocks + 1, "rc: no block is leaked");
            } else {
                vp_assert(w.rc == 1, "rc: the old root is not released while it has owners");
                vp_assert(vp_live() == w.blocks, "rc: no block is leaked");
            }
        }
    }
    if (vp_is_alive(w.root) && c.root != w.root) {
        auto h = get_view(w.root);
        vp_assert(vp_and(vp_iff(h.hq, w.view.hq), vp_and(h.vq == w.view.vq, h.n == w.view.n)), "frame: the old tree is as it was");
    }
}
VP_HARNESS(whole_add) { wrap<ADD>(false); }
VP_HARNESS(whole_update) { wrap<UPD>(false); }
VP_HARNESS(whole_update_if_exists) { wrap<UIE>(false); }
VP_HARNESS(whole_erase) { wrap<SUB>(false); }
VP_HARNESS(whole_add_mut) { wrap_mut<ADD>(false); }
VP_HARNESS(whole_update_mut) { wrap_mut<UPD>(false); }
VP_HARNESS(whole_update_if_exists_mut) { wrap_mut<UIE>(false); }
VP_HARNESS(whole_erase_mut) { wrap_mut<SUB>(false); }
VP_HARNESS(whole_add_throw) { wrap<ADD>(true); }
VP_HARNESS(whole_update_throw) { wrap<UPD>(true); }
VP_HARNESS(whole_update_if_exists_throw) { wrap<UIE>(true); }
VP_HARNESS(whole_erase_throw) { wrap<SUB>(true); }
VP_HARNESS(whole_add_mut_throw) { wrap_mut<ADD>(true); }
VP_HARNESS(whole_update_mut_throw) { wrap_mut<UPD>(true); }
VP_HARNESS(whole_update_if_exists_mut_throw) { wrap_mut<UIE>(true); }
VP_HARNESS(whole_erase_mut_throw) { wrap_mut<SUB>(true); }

#ifndef VP_GC
// copies, moves, assignment, destruction of a tree handle
VP_HARNESS(whole_handles)
{
    whole_t w;
    whole(w, false);
    auto em = champ_t::empty();
    int er  = get_rc(em);
    {
        champ_t x = *w.c;
        check_champ(x, w.view);
        same_root(w, w.rc + 1);
        champ_t y = std::move(x);
        check_champ(y, w.view);
        same_root(w, w.rc + 1);
        vp_assert(vp_and(x.root == em, x.size == 0), "view: a tree that is moved from is empty");
        vp_assert(get_rc(em) == er + 1, "rc: the empty node has as many owners as handles");
        x = y;
        check_champ(x, w.view);
        check_champ(y, w.view);
        same_root(w, w.rc + 2);
        vp_assert(get_rc(em) == er, "rc: the empty node has as many owners as handles");
        x = x;
        check_champ(x, w.view);
        same_root(w, w.rc + 2);
        auto o  = new_subtree(0, 0, any_view(0), "other root");
        int orc = any_rc("other rc");
        set_rc(o, orc);
        auto og = get_view(o);
        champ_t z{o, og.n};
        swap(x, z);
        check_champ(x, og);
        check_champ(z, w.view);
        z = std::move(x);
        check_champ(z, og);
        z = y;
        check_champ(z, w.view);
        x = y;
        same_root(w, w.rc + 3);
        if (vp_is_alive(o))
            vp_assert(vp_and(get_rc(o) == orc - 1, orc > 1), "rc: a root loses an owner with a handle");
        else
            vp_assert(orc == 1, "rc: a root is not released while it has owners");
        vp_cover(vp_is_alive(o) ? "shared" : "released");
    }
    same_root(w, w.rc);
    w.c->~champ_t();
    if (vp_is_alive(w.root))
        vp_assert(vp_and(get_rc(w.root) == w.rc - 1, w.rc > 1), "rc: a root loses an owner with a handle");
    else
        vp_assert(w.rc == 1, "rc: a root is not released while it has owners");
}
#endif

// ---- traversal: every element once
static u64 t_q, t_qv, t_n; // times q was seen, its value, elements seen
static bool t_bad;
struct Record
{
    void operator()(const E* f, const E* l) const
    {
        vp_assert(f != l, "iter: a chunk is not empty");
        for (; f != l; ++f) {
            vp_assert(f->st == ST_LIVE, "life: a stored element is live");
            bool is = f->k == q;
            t_q += vp_ite(is, 1, 0);
            t_qv = vp_ite(is, f->v, t_qv);
            t_n += 1;
        }
    }
};
static void c_traverse(const champ_t*, const node_t* n, u32 depth, Record&)
{
    vp_assert(vp_is_opaque(n), "contract traversal: called on a subtree");
    vp_assert(vp_gget(n, SHIFT) == depth * B, "contract traversal: called with the depth of the subtree");
    bool h = vp_ggetb(n, HAS_Q);
    t_q += vp_ite(h, 1, 0);
    t_qv = vp_ite(h, vp_gget(n, VAL_Q), t_qv);
    t_n += vp_gget(n, COUNT);
}
VP_CONTRACT(traverse, "champ<.*>::for_each_chunk_traversal<Record", c_traverse)

static void any_level(pre_t& p, level_t level)
{
    if (level == COLL)
        build_collision(p, 2 + vp_case(3, "colliding elements"), false, false);
    else {
        unsigned shape = vp_case(SHAPES, "shape");
        u32 s          = 0;
        if (level == INNER) {
            s = vp_u32("shift");
            vp_assume(vp_and(s % B == 0, vp_and(s >= B, s < MAXS)));
        }
        build_inner(p, s, shape, false, false, false);
    }
}
static void traverse(level_t level)
{
    setup_keys();
    vp_enable("traverse", 1);
    pre_t p;
    any_level(p, level);
    t_q = t_qv = t_n = 0;
    Record rec;
    auto c = champ_at(p.node, p.view.n);
    if (level == ROOT)
        c->for_each_chunk(rec);
    else
        c->for_each_chunk_traversal(p.node, p.s / B, rec);
    vp_cover("returns");
    vp_assert(t_q == vp_ite(p.view.hq, 1, 0), "iter: every element is visited once and nothing else");
    vp_assert(vp_implies(p.view.hq, t_qv == p.view.vq), "iter: the elements visited are the stored ones");
    vp_assert(t_n == p.view.n, "iter: as many elements are visited as there are");
}
VP_HARNESS(traverse_root) { traverse(ROOT); }
VP_HARNESS(traverse_inner) { traverse(INNER); }
VP_HARNESS(traverse_coll) { traverse(COLL); }

// ---- equality.  Two subtrees in the same slot are either equal, and then agree on every key, or not.
static bool e_differ; // some pair of subtrees compared is different
struct EqAll
{
    bool operator()(const E& a, const E& b) const { return a == b; }
};
static bool c_equals(const node_t* a, const node_t* b, u32 depth)
{
    vp_assert(vp_and(vp_is_opaque(a), vp_is_opaque(b)), "contract equals: called on subtrees");
    vp_assert(vp_and(vp_gget(a, SHIFT) == depth * B, vp_gget(b, SHIFT) == depth * B),
              "contract equals: called with the depth of the subtrees");
    vp_assert(vp_gget(a, IDX) == vp_gget(b, IDX), "contract equals: the subtrees are in the same slot");
    if (a == b)
        return true;
    auto g = get_view(a), h = get_view(b);
    bool r = vp_bool("subtrees equal");
    vp_assume(vp_implies(r, vp_and(vp_and(vp_iff(g.hq, h.hq), vp_implies(g.hq, g.vq == h.vq)), g.n == h.n)));
    e_differ = vp_or(e_differ, vp_not(r));
    return r;
}
VP_CONTRACT(equals, "champ<.*>::equals_tree<EqAll", c_equals)

static void equals(level_t level)
{
    setup_keys();
    vp_enable("equals", 1);
    e_differ = false;
    pre_t a, b;
    a.s = b.s = 0;
    bool differ = false; // the contents differ
    if (level == COLL) {
        unsigned na = 2 + vp_case(2, "colliding elements"), nb = 2 + vp_case(2, "colliding elements");
        build_collision(a, na, false, false);
        build_collision(b, nb, false, false);
        differ = na != nb;
        for (unsigned i = 0; i < na; ++i) {
            bool in = false;
            for (unsigned j = 0; j < nb; ++j)
                in = vp_or(in, vp_and(a.dk[i] == b.dk[j], a.dv[i] == b.dv[j]));
            differ = vp_or(differ, vp_not(in));
        }
    } else {
        unsigned sa = vp_case(SHAPES, "shape");
        u32 s       = 0;
        if (level == INNER) {
            s = vp_u32("shift");
            vp_assume(vp_and(s % B == 0, vp_and(s >= B, s < MAXS)));
        }
        // the other shape: the same, or different in the slot where it first differs
        unsigned how = vp_case(1 + 2 * BR, "other shape"), sb = sa;
        if (how) {
            unsigned pw = 1;
            for (unsigned i = 0; i < (how - 1) / 2; ++i)
                pw *= 3;
            unsigned d = sa / pw % 3, e = (d + 1 + (how - 1) % 2) % 3;
            sb     = sa - d * pw + e * pw;
            differ = true; // different numbers of elements (none, one, more) lead through that slot
        }
        build_inner(a, s, sa, false, false, false);
        build_inner(b, s, sb, false, false, false);
        if (!how) {
            for (unsigned j = 0; j < a.nv; ++j)
                differ = vp_or(differ, vp_not(vp_and(a.dk[j] == b.dk[j], a.dv[j] == b.dv[j])));
            // a subtree may be shared
            if (a.nc && vp_bool("shared subtree")) {
                unsigned j            = vp_case(a.nc, "which");
                vp_unfreeze(b.node);
                b.node->children()[j] = a.child[j];
                auto g = get_view(a.child[j]);
                b.view.hq = vp_ite(idx_of(hq, s) == a.cidx[j], g.hq, b.view.hq);
                b.view.vq = vp_ite(idx_of(hq, s) == a.cidx[j], g.vq, b.view.vq);
                b.view.n += g.n - vp_gget(b.child[j], COUNT);
            }
        }
    }
    bool r;
    if (level == ROOT)
        r = champ_at(a.node, a.view.n)->equals<EqAll>(*champ_at(b.node, b.view.n));
    else
        r = champ_t::equals_tree<EqAll>(a.node, b.node, a.s / B);
    differ = vp_or(differ, vp_or(e_differ, a.view.n != b.view.n));
    vp_cover(r ? "equal" : "not equal");
    if (r) {
        vp_assert(vp_iff(a.view.hq, b.view.hq), "eq: equal trees have the same elements");
        vp_assert(vp_implies(a.view.hq, a.view.vq == b.view.vq), "eq: equal trees have the same values");
        vp_assert(!differ, "eq: trees with different contents are not equal");
    } else
        vp_assert(differ, "eq: trees with the same contents are equal");
    vp_assert(champ_t::equals_tree<EqAll>(a.node, a.node, a.s / B), "eq: a tree equals itself");
}
VP_HARNESS(equals_root) { equals(ROOT); }
VP_HARNESS(equals_inner) { equals(INNER); }
VP_HARNESS(equals_coll) { equals(COLL); }

// ---- difference: for the arbitrary key q, what is reported and with which elements
static u64 d_added, d_removed, d_changed; // times
static u64 d_av, d_rv, d_cov, d_cnv;      // the value of the element passed last
struct Diff
{
    void operator()() const;
    void added(const E& e) const
    {
        vp_assert(e.st == ST_LIVE, "life: a stored element is live");
        bool is = e.k == q;
        d_added += vp_ite(is, 1, 0);
        d_av = vp_ite(is, e.v, d_av);
    }
    void removed(const E& e) const
    {
        vp_assert(e.st == ST_LIVE, "life: a stored element is live");
        bool is = e.k == q;
        d_removed += vp_ite(is, 1, 0);
        d_rv = vp_ite(is, e.v, d_rv);
    }
    void changed(const E& o, const E& n) const
    {
        vp_assert(vp_and(o.st == ST_LIVE, n.st == ST_LIVE), "life: a stored element is live");
        vp_assert(o.k == n.k, "diff: a change is of one key");
        bool is = o.k == q;
        d_changed += vp_ite(is, 1, 0);
        d_cov = vp_ite(is, o.v, d_cov);
        d_cnv = vp_ite(is, n.v, d_cnv);
    }
};
static void c_diff(const champ_t*, const node_t* a, const node_t* b, u32 depth, Diff&)
{
    vp_assert(vp_and(vp_ghas(a, SHIFT), vp_ghas(b, SHIFT)), "contract diff: called on subtrees");
    vp_assert(vp_and(vp_gget(a, SHIFT) == depth * B, vp_gget(b, SHIFT) == depth * B),
              "contract diff: called with the depth of the subtrees");
    vp_assert(vp_gget(a, IDX) == vp_gget(b, IDX), "contract diff: the subtrees are in the same slot");
    if (a == b)
        return;
    auto g = get_view(a), h = get_view(b);
    bool ad = vp_and(h.hq, vp_not(g.hq)), re = vp_and(g.hq, vp_not(h.hq));
    bool ch = vp_and(vp_and(g.hq, h.hq), g.vq != h.vq);
    d_added += vp_ite(ad, 1, 0);
    d_av = vp_ite(ad, h.vq, d_av);
    d_removed += vp_ite(re, 1, 0);
    d_rv = vp_ite(re, g.vq, d_rv);
    d_changed += vp_ite(ch, 1, 0);
    d_cov = vp_ite(ch, g.vq, d_cov);
    d_cnv = vp_ite(ch, h.vq, d_cnv);
}
VP_CONTRACT(diff, "champ<.*>::diff<EqAll, Diff.*>\\(.*hamts::node", c_diff)

// a subtree with elements of its own, for the real traversal to walk: one level, m elements
static node_t* walked_subtree(u32 s, unsigned idx, unsigned m)
{
    bool coll = s + B == MAXS;
    auto n    = coll ? node_t::make_collision_n(m) : node_t::make_inner_n(0, m);
    if (!coll) {
        n->impl.d.data.inner.nodemap = 0;
        n->impl.d.data.inner.datamap = (1u << m) - 1;
    }
    gv_t g{};
    u64 ks[3];
    for (unsigned j = 0; j < m; ++j) {
        auto at = (coll ? n->collisions() : n->values()) + j;
        ks[j]   = vp_u64("sub.k");
        u64 v   = vp_u64("sub.v");
        new (at) E{ks[j], v};
        u64 h = vp_uf1("hash", ks[j]);
        vp_assume(vp_and(idx_of(h, s) == idx, prefix_agrees(h, hk, s)));
        for (unsigned i = 0; i < j; ++i)
            vp_assume(ks[i] != ks[j]);
        bool f = ks[j] == q;
        g.hq   = vp_or(g.hq, f);
        g.vq   = vp_ite(f, v, g.vq);
        g.n += 1;
    }
    set_view(n, g);
    vp_gset(n, SHIFT, s + B);
    vp_gset(n, IDX, idx);
    return n;
}
static node_t* walked_node(u32 s, const unsigned* kinds, pre_t& p)
{
    p      = {};
    p.s    = s;
    for (unsigned i = 0; i < BR; ++i)
        if (kinds[i] == 1) {
            p.didx[p.nv++] = i;
            p.datamap |= 1u << i;
        } else if (kinds[i] == 2) {
            p.cidx[p.nc++] = i;
            p.nodemap |= 1u << i;
        }
    auto n = node_t::make_inner_n(p.nc, p.nv);
    n->impl.d.data.inner.nodemap = p.nodemap;
    n->impl.d.data.inner.datamap = p.datamap;
    p.node = n;
    for (unsigned j = 0; j < p.nv; ++j) {
        new_elem(p, n->values() + j, j);
        u64 h = vp_uf1("hash", p.dk[j]);
        vp_assume(vp_and(idx_of(h, s) == p.didx[j], prefix_agrees(h, hk, s)));
    }
    for (unsigned j = 0; j < p.nc; ++j) {
        p.child[j] = n->children()[j] = walked_subtree(s, p.cidx[j], 2 + (j & 1));
        auto g    = get_view(p.child[j]);
        p.view.hq = vp_or(p.view.hq, g.hq);
        p.view.vq = vp_ite(g.hq, g.vq, p.view.vq);
        p.view.n += g.n;
    }
    return n;
}
static void check_diff(gv_t a, gv_t b, bool same)
{
    vp_assert(d_added == vp_ite(vp_and(b.hq, vp_not(a.hq)), 1, 0), "diff: exactly what is only in the second is added, once");
    vp_assert(d_removed == vp_ite(vp_and(a.hq, vp_not(b.hq)), 1, 0), "diff: exactly what is only in the first is removed, once");
    vp_assert(d_changed == vp_ite(vp_and(vp_and(a.hq, b.hq), a.vq != b.vq), 1, 0),
              "diff: exactly what is in both with different values is changed, once");
    vp_assert(vp_implies(d_added == 1, d_av == b.vq), "diff: what is added is the element of the second");
    vp_assert(vp_implies(d_removed == 1, d_rv == a.vq), "diff: what is removed is the element of the first");
    vp_assert(vp_implies(d_changed == 1, vp_and(d_cov == a.vq, d_cnv == b.vq)), "diff: what is changed is passed as old, new");
    if (same)
        vp_assert(vp_and(d_added == 0, vp_and(d_removed == 0, d_changed == 0)), "diff: nothing is reported for a value and itself");
}
static void diff_start()
{
    setup_keys();
    vp_enable("diff", 1);
    vp_assume(prefix_agrees(hq, hk, 0));
    d_added = d_removed = d_changed = d_av = d_rv = d_cov = d_cnv = 0;
}
enum where_t { AT_ROOT, BETWEEN, LAST };
constexpr unsigned SOME = BR == 4 ? 81 : 9;
static void diff(where_t where, unsigned rot, bool mixed)
{
    diff_start();
    u32 s = where == LAST ? MAXS - B : 0;
    if (where == BETWEEN) {
        s = vp_u32("shift");
        vp_assume(vp_and(s % B == 0, vp_and(s >= B, s < MAXS - B)));
    }
    // per slot: what the first has and what the second has there; two of the slots in every combination, and the
    // others in those that need no comparison of elements (rot), or in some of all of them
    unsigned c = vp_case(SOME, "slots"), per[BR], ka[BR], kb[BR];
    static const unsigned plain[] = {0, 8, 1, 6, 2, 3, 8};
    for (unsigned i = 0; i < BR; ++i) {
        unsigned at = (i + (mixed ? 0 : rot)) % BR;
        if (i < 2) {
            per[at] = c % 9;
            c /= 9;
        } else if (mixed)
            per[at] = i == 2 ? (per[0] + rot * per[1]) % 9 : (per[0] + (rot + 1) * per[1] + 4) % 9;
        else
            per[at] = plain[(per[rot % BR] + i * per[(rot + 1) % BR]) % 7];
    }
    for (unsigned i = 0; i < BR; ++i) {
        ka[i] = per[i] % 3;
        kb[i] = per[i] / 3;
    }
    pre_t a, b;
    auto x = walked_node(s, ka, a), y = walked_node(s, kb, b);
    // subtrees in the same slot may be one
    bool shared = rot == 2;
    for (unsigned i = 0; i < a.nc; ++i)
        for (unsigned j = 0; j < b.nc; ++j)
            if (a.cidx[i] == b.cidx[j] && shared) {
                auto g = get_view(a.child[i]), h = get_view(b.child[j]);
                y->children()[j] = a.child[i];
                b.view.hq        = vp_ite(h.hq, g.hq, vp_or(b.view.hq, g.hq));
                b.view.vq        = vp_ite(g.hq, g.vq, b.view.vq);
            }
    Diff d;
    auto self = champ_at(x, a.view.n);
    if (where == AT_ROOT)
        self->diff<EqAll>(*champ_at(y, b.view.n), d);
    else
        self->diff<EqAll>((const node_t*) x, (const node_t*) y, s / B, d);
    vp_cover("returns");
    check_diff(a.view, b.view, false);
}
VP_HARNESS(diff_root) { diff(AT_ROOT, 0, false); }
VP_HARNESS(diff_inner) { diff(BETWEEN, 2, false); }
VP_HARNESS(diff_last) { diff(LAST, 1, false); }
VP_HARNESS(diff_mixed_root) { diff(AT_ROOT, 1, true); }
VP_HARNESS(diff_mixed_inner) { diff(BETWEEN, 2, true); }
VP_HARNESS(diff_mixed_last) { diff(LAST, 4, true); }
VP_HARNESS(diff_coll)
{
    diff_start();
    pre_t a, b;
    build_collision(a, 2 + vp_case(2, "colliding elements"), false, false);
    build_collision(b, 2 + vp_case(2, "colliding elements"), false, false);
    Diff d;
    champ_at(a.node, a.view.n)->diff<EqAll>((const node_t*) a.node, (const node_t*) b.node, MAXS / B, d);
    vp_cover("returns");
    check_diff(a.view, b.view, false);
}
VP_HARNESS(diff_same)
{
    diff_start();
    vp_enable("diff", 2);
    vp_disable("diff");
    auto g  = any_view(0);
    auto n  = new_subtree(0, 0, g, "root");
    Diff d;
    champ_at(n, g.n)->diff<EqAll>(*champ_at(n, g.n), d); // an access to the node would be reported
    vp_cover("returns");
    check_diff(g, g, true);
}
