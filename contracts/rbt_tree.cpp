// Whole radix balanced trees (vector, flex_vector and their transients' operations): a root of any kind and any
// number of elements by its abstract view, and the tail with its elements.  The operations on the root come by the
// contracts which rbt_persist.cpp, rbt_mut.cpp and rbt_read.cpp discharge.
#include "rbt.hpp"
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>

#undef VP_HARNESS
#define VP_HARNESS(NAME) static inline __attribute__((unused)) void unused_##NAME()
#undef VP_PFX
#define VP_PFX p_
namespace pers {
#include "rbt_persist.cpp"
}
#undef C_PUSH
#undef C_PUSH_TS
#undef C_RIGHT
#undef C_LEFT
#undef RX_RIGHT
#undef RX_LEFT
#undef VP_PFX
#define VP_PFX m_
namespace mut {
#include "rbt_mut.cpp"
}
#undef C_RIGHT
#undef C_LEFT
#undef VP_PFX
#define VP_PFX r_
namespace rd {
#include "rbt_read.cpp"
}
#undef VP_PFX
#define VP_PFX t_
#undef VP_HARNESS
#define VP_HARNESS(NAME) extern "C" __attribute__((used)) void vp_h_##NAME()

// ---- contracts only needed at the root
// whether an opaque subtree is regular can be read from its node
static relaxed_t* c_relaxed(node_t* n)
{
    if (!vp_is_opaque(n))
        vp_decline();
    vp_assert(vp_is_alive(n), "mem: a subtree visited is live");
    auto v = view(n);
    if (v.reg)
        return nullptr;
    auto r        = (relaxed_t*) vp_raw(sizeof(relaxed_t) + sizeof(size_t) * BR, "sizes of a subtree");
    r->d.count    = 1;
    r->d.sizes[0] = v.size;
    return r;
}
VP_CONTRACT(relaxed, "node<.*>::relaxed\\(\\)", c_relaxed)

// only asserted about
static bool c_check(node_t* n, shift_t shift, size_t size)
{
    if (!vp_is_opaque(n))
        vp_decline();
    auto v = view(n);
    return vp_and(v.shift == shift, v.size == size);
}
VP_CONTRACT(check, "node<.*>::check\\(", c_check)

namespace pers {
static node_t* c_push_root(rbts::relaxed_pos<node_t>& p, node_t* tail, count_t ts)
{
    if (!vp_is_opaque(p.node_))
        vp_decline();
    auto v = view(p.node_);
    vp_assert(vp_is_alive(p.node_), "mem: a subtree visited is live");
    vp_assert(vp_and(p.shift_ == v.shift, vp_not(v.reg)), "contract: a subtree is visited with its shift");
    vp_assert(ts == leaf_view(tail).size, "contract push_tail: the leaf has the given size");
    return pushed(v, tail);
}
}
VP_CONTRACT(push_root, VP_VISIT_RX("push_tail_visitor<.*>", "relaxed_pos"), pers::c_push_root)
namespace mut {
static node_t* c_push_root(rbts::relaxed_pos<node_t>& p, edit_t e, node_t* tail, count_t ts)
{
    if (!vp_is_opaque(p.node_))
        vp_decline();
    auto v = view(p.node_);
    vp_assert(vp_is_alive(p.node_), "mem: a subtree visited is live");
    vp_assert(vp_and(p.shift_ == v.shift, vp_not(v.reg)), "contract: a subtree is visited with its shift");
    vp_assert(ts == leaf_view(tail).size, "contract push_tail: the leaf has the given size");
    return pushed(p.node_, v, tail, true);
}
}
VP_CONTRACT(push_root_mut, VP_VISIT_RX("push_tail_mut_visitor<.*, 2u, 2u>, true>", "relaxed_pos"), mut::c_push_root)

static E g_found;
static view_t descend(node_t* n, shift_t shift)
{
    if (!vp_ghas(n, SHIFT))
        vp_decline();
    vp_assert(vp_is_alive(n), "mem: a subtree visited is live");
    auto v = view(n);
    vp_assert(v.shift == shift, "contract: a subtree is visited with its shift");
    return v;
}
static const E& c_get_any(node_t* n, shift_t shift, rbts::get_visitor<E>, size_t idx)
{
    auto v = descend(n, shift);
    vp_assert(v.start + exact(v, idx) == U, "contract look-up: the path leads to the requested element");
    return g_found;
}
VP_CONTRACT(get_any, "\\bvisit_maybe_relaxed_descent<.*get_visitor<E>", c_get_any)
VP_CONTRACT(get_regular, "\\bvisit_regular_descent<.*get_visitor<E>", c_get_any)

// ---- contract (assumed): concatenation of two trees with a leaf between them.  The result is a new tree, not
// necessarily regular, at most one level deeper than the deeper one
static rbts::relaxed_pos<node_t> concatenated(u32 shift, u64 start, u64 size)
{
    callee_throws();
    u32 s = vp_u32("callee.shift");
    vp_assume(vp_and(vp_or(s == shift, s == shift + B), size <= u64{BR} << s));
    return {fresh_any(s, start, size, false, true), (shift_t) s, nullptr};
}
static u64 leaf_between(node_t* leaf, u64 count)
{
    vp_assert(vp_and(vp_is_alive(leaf), !vp_is_opaque(leaf)), "mem: the leaf added is live");
    vp_assert(vp_and(count >= 1, count <= LEAF), "contract concat: the leaf in between is not empty");
    return leaf->leaf()[0].k;
}
static view_t whole(node_t* n, shift_t shift, size_t size)
{
    vp_assert(vp_and(vp_is_alive(n), vp_is_opaque(n)), "mem: a subtree visited is live");
    auto v = view(n);
    vp_assert(vp_and(shift == v.shift, size == v.size), "contract: a subtree is visited with its shift and size");
    return v;
}
static rbts::relaxed_pos<node_t> c_concat(node_t* l, shift_t ls, size_t lsize, node_t* t, count_t tc, node_t* r, shift_t rs, size_t rsize)
{
    auto lv = whole(l, ls, lsize), rv = whole(r, rs, rsize);
    vp_assert(leaf_between(t, tc) == lv.start + lv.size, "contract concat: the elements in their order");
    vp_assert(rv.start == lv.start + lv.size + tc, "contract concat: the elements in their order");
    return concatenated((u32) vp_ite(lv.shift < rv.shift, rv.shift, lv.shift), lv.start, lv.size + tc + rv.size);
}
static rbts::relaxed_pos<node_t> c_concat_leaf(node_t* t, count_t tc, node_t* r, shift_t rs, size_t rsize)
{
    auto rv   = whole(r, rs, rsize);
    u64 start = leaf_between(t, tc);
    vp_assert(rv.start == start + tc, "contract concat: the elements in their order");
    return concatenated(rv.shift, start, tc + rv.size);
}
#ifdef VP_GC
// what is exclusively ours may be taken apart
static void taken(node_t* n, bool ours)
{
    if (!ours)
        return;
    if (vp_ghas(n, SHARED))
        vp_assert(vp_not(vp_ggetb(n, SHARED)), "frame: what others refer to is not updated in place");
    if (vp_is_opaque(n)) // asserted about afterwards
        vp_gset(n, START, vp_u64("taken apart"));
    else
        vp_kill(n);
}
static bool is_ours(node_t* n, edit_t e) { return e == the_edit() && (vp_ghas(n, OWNED) ? vp_ggetb(n, OWNED) : is_owned(n)); }
static rbts::relaxed_pos<node_t> c_concat_mut(edit_t ec, edit_t el, node_t* l, shift_t ls, size_t lsize, node_t* t, count_t tc, edit_t er, node_t* r, shift_t rs, size_t rsize)
{
    vp_assert(ec == the_edit(), "frame: the new nodes are owned by the edit");
    bool lo = is_ours(l, el), to = is_ours(t, el), ro = is_ours(r, er);
    auto p  = c_concat(l, ls, lsize, t, tc, r, rs, rsize);
    taken(l, lo);
    taken(t, to);
    taken(r, ro);
    return p;
}
static rbts::relaxed_pos<node_t> c_concat_leaf_mut(edit_t ec, edit_t el, node_t* t, count_t tc, edit_t er, node_t* r, shift_t rs, size_t rsize)
{
    vp_assert(ec == the_edit(), "frame: the new nodes are owned by the edit");
    bool to = is_ours(t, el), ro = is_ours(r, er);
    auto p  = c_concat_leaf(t, tc, r, rs, rsize);
    taken(t, to);
    taken(r, ro);
    return p;
}
VP_CONTRACT(concat_mut, "\\bconcat_trees_mut<", c_concat_mut)
VP_CONTRACT(concat_leaf_mut, "\\bconcat_trees_mut<", c_concat_leaf_mut)
#endif
VP_CONTRACT(concat, "\\bconcat_trees<", c_concat)
VP_CONTRACT(concat_leaf, "\\bconcat_trees<", c_concat_leaf)

static void enable_tree()
{
    for (auto k : {"t_*", "compute_shift", "dec_*", "p_update*", "p_make_path*", "p_push*", "p_right_*", "p_left_*", "m_get_mut*", "m_make_path*",
                   "m_push*", "m_right*", "m_left*", "r_all_*", "r_left_*", "r_right_*", "r_range_*", "r_region*"})
        vp_enable(k, 2);
}

// ---- a tree of any kind and size
enum root_t
{
    NONE, // no elements but those of the tail
    REG_ROOT,
    REL_ROOT
};
template <typename T>
struct tree_t
{
    T* t;
    node_t* root; // opaque, or null if it is the empty one
    int rc;
    leaf_t tail; // n == 0: the empty one
    u64 start, size, off;
    u32 shift;
    bool can, tcan;
};
struct known_t
{
    node_t* n;
    int rc;
    unsigned elems;
    bool leaf;
};
static known_t g_known[6];
static unsigned g_nknown;
static node_t *g_er, *g_et; // the empty ones
static int g_er_rc, g_et_rc;
static u64 g_blocks0, g_elems0, g_allocs0;

static u32 tree_shift() // any depth
{
#ifdef VP_ANY_SHIFT
    u32 s = vp_u32("shift");
    vp_assume(vp_and(vp_and(s >= BL, s <= 56), ((s - BL) & 1) == 0));
    return s;
#else
    return pick_shift();
#endif
}
template <typename T>
static void build_tree(tree_t<T>& x, u64 start, bool mut, bool small = false)
{
    constexpr bool rrb = std::is_same<T, rrb_t>::value;
    x.t                = new (vp_raw(sizeof(T), "tree")) T{};
    g_er               = x.t->root;
    g_et               = x.t->tail;
    unsigned kind      = vp_case(rrb ? 3 : 2, "root");
    unsigned n         = kind == NONE ? vp_case(LEAF + 1, "tail") : small ? 1 : 1 + vp_case(LEAF, "tail");
    x.start            = start;
    x.off              = 0;
    x.root             = nullptr;
    x.can              = false;
    x.shift            = BL;
    if (kind != NONE) {
        x.shift = small ? BL + B : tree_shift();
        x.off   = vp_u64("tree.size");
        vp_assume(vp_and(x.off >= 1, x.off <= u64{BR} << x.shift));
        if (kind == REG_ROOT)
            vp_assume((x.off & (LEAF - 1)) == 0);
        x.can  = mut && vp_case(2, "exclusively ours");
        x.root = opaque(x.shift, start, x.off, kind == REG_ROOT, false, "root");
        x.rc   = x.can ? 1 : any_rc("root.rc", mut ? 2 : 1);
        set_rc(x.root, x.rc);
        vp_gsetb(x.root, OWNED, GC && x.can);
        vp_gsetb(x.root, SHARED, mut && !x.can);
        set_rc(g_er, get_rc(g_er) - 1);
        x.t->root             = x.root;
        x.t->shift            = x.shift;
        g_known[g_nknown++] = {x.root, x.rc, 0, false};
    }
    x.tcan   = n && mut && vp_case(2, "tail exclusively ours");
    x.tail.n = n;
    if (n) {
        build_leaf(x.tail, start + x.off, n, mut, x.tcan);
        set_rc(g_et, get_rc(g_et) - 1);
        x.t->tail             = x.tail.node;
        g_known[g_nknown++] = {x.tail.node, x.tail.rc, n, true};
    }
    x.size = x.t->size = x.off + n;
}
// once all of the trees are there
static void ready(unsigned trees_er, unsigned trees_et)
{
    g_er_rc   = get_rc(g_er) - trees_er;
    g_et_rc   = get_rc(g_et) - trees_et;
    g_blocks0 = vp_live();
    g_allocs0 = g_allocs;
    g_elems0  = g_elems;
    for (unsigned i = 0; i < g_nknown; ++i)
        g_elems0 -= g_known[i].elems;
}
template <typename T>
static unsigned er_of(tree_t<T>& x) { return x.root == nullptr; }
template <typename T>
static unsigned et_of(tree_t<T>& x) { return x.tail.n == 0; }

// ---- what a tree holds
static unsigned g_ers, g_ets;
template <typename T>
static void walk_tree(T* t, u64 start, u64 size, bool upd)
{
    constexpr bool rrb = std::is_same<T, rrb_t>::value;
    vp_assert(t->size == size, "view: the size of the result");
    auto root = t->root;
    u64 off   = 0;
    if (root == g_er) {
        ++g_ers;
        vp_assert(t->shift == BL, "wf: the depth of an empty tree");
    } else {
        bool reg = false;
        u64 rsz  = 0;
        vp_assert(vp_is_alive(root), "mem: the nodes of the result are live");
        if (vp_is_opaque(root)) {
            reg = view(root).reg;
            rsz = view(root).size;
        } else {
            auto r = root->relaxed();
            reg    = !r;
            if (r)
                rsz = r->d.sizes[r->d.count - 1];
        }
        vp_assert(size != 0, "wf: a tree without elements has the empty root");
        off = vp_ite(reg, (size - 1) & ~u64{LEAF - 1}, rsz);
        vp_assert(off != 0, "wf: a tree without elements has the empty root");
        walk(root, t->shift, start, off, upd, !rrb);
    }
    vp_assert(vp_and(off <= size, size - off <= LEAF), "wf: the tail has no more elements than fit");
    u64 ts = vp_conc(size - off);
    if (t->tail == g_et) {
        ++g_ets;
        vp_assert(ts == 0, "wf: a tail with elements is not the empty one");
    } else {
        vp_assert(ts != 0, "wf: a tail without elements is the empty one");
        if (t->tail && ts)
            walk(t->tail, 0, start + off, ts, upd, false);
    }
}
// a tree which has been moved from: valid, its elements in any state
template <typename T>
static void see_tree(T* t)
{
    if (t->root == g_er)
        ++g_ers;
    else
        see(t->root);
    if (t->tail == g_et)
        ++g_ets;
    else
        see(t->tail);
}
static void start_trees()
{
    start_walk();
    g_ers = g_ets = 0;
}
// the objects walked are all there are
static void account_trees()
{
    g_dead = g_fresh = 0;
    node_t* old[6];
    u64 elems = g_leaf_elems;
    for (unsigned i = 0; i < g_nknown; ++i) {
        auto& k = g_known[i];
        old[i]  = k.n;
        account_old(k.n, k.rc - 1, k.leaf ? "rc: the tail is not released while it is referred to" : "rc: the root is not released while it is referred to",
                    k.leaf ? "rc: the tail has as many owners as refer to it" : "rc: the root has as many owners as refer to it");
        if (k.leaf && vp_is_alive(k.n) && !walked(k.n))
            elems += k.elems;
    }
    account_new(old, g_nknown);
    if (GC)
        return;
    if (!EMBED) // tables of sizes, in blocks of their own; those of new nodes are new
        for (unsigned i = 0; i < g_nwalked; ++i)
            if (g_walked[i]->kind() == node_t::kind_t::inner)
                if (auto r = g_walked[i]->relaxed()) {
                    vp_assert(get_rrc(r) == 1, "rc: a table of sizes has as many owners as refer to it");
                    ++g_fresh;
                }
    vp_assert(get_rc(g_er) == g_er_rc + (int) g_ers, "rc: the empty root has as many owners as refer to it");
    vp_assert(get_rc(g_et) == g_et_rc + (int) g_ets, "rc: the empty tail has as many owners as refer to it");
    vp_assert(vp_live() == g_blocks0 - g_dead + g_fresh, "rc: exactly the blocks nobody refers to any more are released");
    vp_assert(g_elems == g_elems0 + elems, "life: every element is either destroyed or part of a result");
}
// other threads may release what they share with us, at any time
template <typename T>
static tree_t<T>* g_meanwhile;
template <typename T>
static void others_leave()
{
    if (!vp_bool("others release theirs"))
        return;
    g_on_alloc = nullptr;
    for (unsigned i = 0; i < g_nknown; ++i)
        if (vp_is_alive(g_known[i].n)) {
            g_known[i].rc = 1;
            set_rc(g_known[i].n, 1);
        }
}
template <typename F>
static bool throws(int mode, F f)
{
    return may_throw(mode == THROWS ? THROWS : PLAIN, f);
}

template <typename T>
struct api;
template <>
struct api<rrb_t>
{
    using type = immer::flex_vector<E, MP, B, BL>;
};
template <>
struct api<rb_t>
{
    using type = immer::vector<E, MP, B, BL>;
};
template <typename T>
using api_t = typename api<T>::type;
template <typename T>
static const api_t<T>& constant(T* t) { return *(const api_t<T>*) t; }
template <typename T>
static api_t<T>&& rvalue(T* t) { return std::move(*(api_t<T>*) t); }

enum op_t
{
    PUSH,
    SET,
    UPDATE,
    TAKE,
    DROP
};

// what the operation makes of the value at U
static void written(bool threw, bool expected)
{
    if (expected)
        vp_assert(vp_and(mut::g_elem.k == U, vp_and(mut::g_elem.st == ST_LIVE, mut::g_elem.v == (threw ? S(U) : after(S(U))))),
                  "view: the element replaced");
}

template <typename T>
static void persistent(op_t op, int mode)
{
    enable_tree();
    tree_t<T> x;
    build_tree(x, any_start(), false);
    auto res  = (T*) vp_raw(sizeof(T), "result");
    u64 arg   = vp_u64("argument");
    u64 from = x.start, size = x.size;
    bool upd = false;
    U        = x.start + arg;
    E val{op == PUSH ? x.start + x.size : U, op == PUSH ? S(x.start + x.size) : after(S(U))};
    ready(er_of(x), et_of(x));
    auto& v    = constant(x.t);
    Fn fn;
    bool threw = false;
    using V    = api_t<T>;
    switch (op) {
    case PUSH:
        threw = throws(mode, [&] { new (res) V(v.push_back(val)); });
        ++size;
        break;
    case SET:
        vp_assume(arg < x.size);
        threw = throws(mode, [&] { new (res) V(v.set(arg, val)); });
        upd   = true;
        break;
    case UPDATE:
        vp_assume(arg < x.size);
        threw = throws(mode, [&] { new (res) V(v.update(arg, fn)); });
        upd   = true;
        break;
    case TAKE:
        threw = throws(mode, [&] { new (res) V(v.take(arg)); });
        size  = vp_ite(arg < size, arg, size);
        break;
    case DROP:
        if constexpr (std::is_same<T, rrb_t>::value)
            threw = throws(mode, [&] { new (res) V(v.drop(arg)); });
        from = from + vp_ite(arg < size, arg, size);
        size = size - vp_ite(arg < size, arg, size);
        break;
    }
    start_trees();
    walk_tree(x.t, x.start, x.size, false);
    if (!threw) {
        walk_tree(res, from, size, upd);
        vp_assert(g_allocs - g_allocs0 <= 3, "share: only the path to the place is copied");
    }
    account_trees();
}

template <typename T>
static void in_place(op_t op, int mode)
{
    enable_tree();
    tree_t<T> x;
    build_tree(x, any_start(), true);
    u64 arg  = vp_u64("argument");
    u64 from = x.start, size = x.size;
    U        = x.start + arg;
    bool upd = false;
    E val{op == PUSH ? x.start + x.size : U, op == PUSH ? S(x.start + x.size) : after(S(U))};
    mut::g_elem.k = U, mut::g_elem.v = S(U), mut::g_elem.st = ST_LIVE;
    ready(er_of(x), et_of(x));
    auto e     = the_edit();
    auto& t    = *x.t;
    Fn fn;
    bool threw = false;
    if (mode == MEANWHILE)
        g_on_alloc = others_leave<T>;
#ifdef VP_GC
#define IN_PLACE(PUBLIC, IMPL) threw = throws(mode, [&] { t.IMPL; })
#else
#define IN_PLACE(PUBLIC, IMPL) threw = throws(mode, [&] { rvalue(x.t).PUBLIC; })
#endif
    switch (op) {
    case PUSH:
        IN_PLACE(push_back(val), push_back_mut(e, val));
        ++size;
        break;
    case SET:
        vp_assume(arg < x.size);
        IN_PLACE(set(arg, val), assoc_mut(e, arg, val));
        upd = true;
        break;
    case UPDATE:
        vp_assume(arg < x.size);
        IN_PLACE(update(arg, fn), update_mut(e, arg, fn));
        upd = true;
        break;
    case TAKE:
        IN_PLACE(take(arg), take_mut(e, arg));
        size = vp_ite(arg < size, arg, size);
        break;
    case DROP:
        if constexpr (std::is_same<T, rrb_t>::value)
            IN_PLACE(drop(arg), drop_mut(e, arg));
        from = from + vp_ite(arg < size, arg, size);
        size = size - vp_ite(arg < size, arg, size);
        break;
    }
    g_on_alloc = nullptr;
    start_trees();
    if (upd) {
        // an element of the tree proper has been written to by reference
        bool in_root = arg < x.off;
        bool handed  = in_root && vp_ghas(x.t->root, ELEM);
        if (handed)
            written(threw, true);
        walk_tree(x.t, x.start, x.size, in_root ? handed : !threw);
    } else
        walk_tree(x.t, threw ? x.start : from, threw ? x.size : size, false);
    account_trees();
}

#define OPS(T, NAME)                                                                                                   \
    VP_HARNESS(NAME##_push_back) { persistent<T>(PUSH, PLAIN); }                                                       \
    VP_HARNESS(NAME##_push_back_throw) { persistent<T>(PUSH, THROWS); }                                                \
    VP_HARNESS(NAME##_set) { persistent<T>(SET, PLAIN); }                                                              \
    VP_HARNESS(NAME##_set_throw) { persistent<T>(SET, THROWS); }                                                       \
    VP_HARNESS(NAME##_update) { persistent<T>(UPDATE, PLAIN); }                                                        \
    VP_HARNESS(NAME##_update_throw) { persistent<T>(UPDATE, THROWS); }                                                 \
    VP_HARNESS(NAME##_take) { persistent<T>(TAKE, PLAIN); }                                                            \
    VP_HARNESS(NAME##_take_throw) { persistent<T>(TAKE, THROWS); }                                                     \
    VP_HARNESS(NAME##_push_back_mut) { in_place<T>(PUSH, PLAIN); }                                                     \
    VP_HARNESS(NAME##_push_back_mut_throw) { in_place<T>(PUSH, THROWS); }                                              \
    VP_HARNESS(NAME##_push_back_mut_meanwhile) { in_place<T>(PUSH, MEANWHILE); }                                       \
    VP_HARNESS(NAME##_set_mut) { in_place<T>(SET, PLAIN); }                                                            \
    VP_HARNESS(NAME##_set_mut_throw) { in_place<T>(SET, THROWS); }                                                     \
    VP_HARNESS(NAME##_update_mut) { in_place<T>(UPDATE, PLAIN); }                                                      \
    VP_HARNESS(NAME##_update_mut_throw) { in_place<T>(UPDATE, THROWS); }                                               \
    VP_HARNESS(NAME##_take_mut) { in_place<T>(TAKE, PLAIN); }                                                          \
    VP_HARNESS(NAME##_take_mut_throw) { in_place<T>(TAKE, THROWS); }                                                   \
    VP_HARNESS(NAME##_take_mut_meanwhile) { in_place<T>(TAKE, MEANWHILE); }
OPS(rb_t, vec)
OPS(rrb_t, flex)
VP_HARNESS(flex_drop) { persistent<rrb_t>(DROP, PLAIN); }
VP_HARNESS(flex_drop_throw) { persistent<rrb_t>(DROP, THROWS); }
VP_HARNESS(flex_drop_mut) { in_place<rrb_t>(DROP, PLAIN); }
VP_HARNESS(flex_drop_mut_throw) { in_place<rrb_t>(DROP, THROWS); }
VP_HARNESS(flex_drop_mut_meanwhile) { in_place<rrb_t>(DROP, MEANWHILE); }

// ---- copies, moves, destruction
template <typename T>
static void copies(int mode)
{
    enable_tree();
    using V = api_t<T>;
    unsigned what = vp_case(8, "operation");
    bool two      = what >= 5;
    tree_t<T> x, y;
    build_tree(x, any_start(), true, two && vp_case(2, "which one is of any kind"));
    if (two)
        build_tree(y, any_start(), true, true);
    ready(er_of(x) + (two ? er_of(y) : 0), et_of(x) + (two ? et_of(y) : 0));
    auto res = (T*) vp_raw(sizeof(T), "result");
    auto& v  = *(V*) x.t;
    auto& w  = *(V*) y.t;
    bool x_there = true, res_there = false;
    u64 xs = x.size, rs = x.size;
    bool threw = throws(mode, [&] {
        switch (what) {
        case 0:
            v.~V();
            x_there = false;
            break;
        case 1:
            new (res) V(constant(x.t));
            res_there = true;
            break;
        case 2:
            new (res) V(std::move(v));
            res_there = true;
            break;
        case 3: v = constant(x.t); break;
        case 4: {
            new (res) V(constant(x.t).transient().persistent());
            res_there = true;
            break;
        }
        case 5: w = constant(x.t); break;
        case 6: w = std::move(v); break;
        default: {
            using std::swap;
            swap(v, w);
        }
        }
    });
    vp_assert(!threw || (GC && what == 4), "throw: copies and moves do not throw"); // a transient allocates its identity
    if (threw)
        res_there = false;
    start_trees();
    if (what == 2)
        walk_tree(x.t, x.start, x.t->size, false);
    else if (what == 6) {
        if (x.t->size == y.size)
            walk_tree(x.t, y.start, y.size, false); // what the other one held
        else
            walk_tree(x.t, x.start, 0, false);
    } else if (what == 7)
        walk_tree(x.t, y.start, y.size, false);
    else if (x_there)
        walk_tree(x.t, x.start, x.size, false);
    if (res_there)
        walk_tree(res, x.start, x.size, false);
    if (two)
        walk_tree(y.t, x.start, x.size, false);
    account_trees();
}

// ---- look-up
template <typename T>
static void look_up_tree(bool check)
{
    enable_tree();
    using V = api_t<T>;
    tree_t<T> x;
    build_tree(x, any_start(), false);
    u64 arg = vp_u64("argument");
    U       = x.start + arg;
    g_found.k = U, g_found.v = S(U);
    auto& v   = constant(x.t);
    ready(er_of(x), et_of(x));
    bool threw = false;
    const E* r = nullptr;
    if (check)
        try {
            r = &v.at(arg);
        } catch (std::out_of_range&) {
            threw = true;
        }
    else {
        vp_assume(arg < x.size);
        unsigned how = vp_case(3, "how");
        if (how == 1)
            vp_assume(arg == 0);
        if (how == 2)
            vp_assume(arg == x.size - 1);
        r = how == 0 ? &v[arg] : how == 1 ? &v.front() : &v.back();
    }
    vp_assert(threw == (arg >= x.size), "view: a position which does not exist is refused");
    if (!threw)
        vp_assert(vp_and(r->k == U, r->v == S(U)), "view: the element at a position");
    start_trees();
    walk_tree(x.t, x.start, x.size, false);
    account_trees();
}
static void region_tree()
{
    enable_tree();
    tree_t<rrb_t> x;
    build_tree(x, any_start(), false);
    u64 arg = vp_u64("argument");
    vp_assume(arg < x.size);
    U      = x.start + arg;
    auto r = ((const rrb_t*) x.t)->region_for(arg);
    if (arg < x.off) {
        vp_assert(std::get<0>(r) == &rd::g_elem, "iter: the leaf of the requested element");
        vp_assert(vp_and(std::get<1>(r) == arg - rd::g_at, std::get<2>(r) == arg - rd::g_at + rd::g_n), "iter: the place in the leaf of the requested element");
    } else {
        vp_assert(std::get<0>(r) == x.tail.node->leaf(), "iter: the leaf of the requested element");
        vp_assert(vp_and(std::get<1>(r) == x.off, std::get<2>(r) == x.size), "iter: the place in the leaf of the requested element");
    }
}
template <typename T>
static void chunks_tree()
{
    enable_tree();
    unsigned what = vp_case(4, "operation");
    tree_t<T> x;
    build_tree(x, any_start(), false);
    ready(er_of(x), et_of(x));
    const T* t = x.t;
    u64 from = 0, to = x.size;
    if (what & 1) {
        from = vp_u64("from"), to = vp_u64("to");
        vp_assume(vp_and(from < to, to <= x.size));
    }
    rd::g_empty = x.root == nullptr && x.tail.n == 0;
    rd::Show s;
    rd::Ask a;
    rd::traverse(x.start, from, to, [&](bool& pred) {
        pred = what >= 2;
        switch (what) {
        case 0: return t->for_each_chunk(s), true;
        case 1: return t->for_each_chunk(from, to, s), true;
        case 2: return t->for_each_chunk_p(a);
        default: return t->for_each_chunk_p(from, to, a);
        }
    });
    start_trees();
    walk_tree(x.t, x.start, x.size, false);
    account_trees();
}
#define READ_OPS(T, NAME)                                                                                              \
    VP_HARNESS(NAME##_copies) { copies<T>(PLAIN); }                                                                    \
    VP_HARNESS(NAME##_copies_throw) { copies<T>(THROWS); }                                                             \
    VP_HARNESS(NAME##_look_up) { look_up_tree<T>(false); }                                                             \
    VP_HARNESS(NAME##_at) { look_up_tree<T>(true); }                                                                   \
    VP_HARNESS(NAME##_chunks) { chunks_tree<T>(); }
READ_OPS(rb_t, vec)
READ_OPS(rrb_t, flex)
VP_HARNESS(flex_region) { region_tree(); }

// ---- concatenation
template <typename T>
static T* address(api_t<T>&& v)
{
    return (T*) &v;
}
enum concat_t
{
    CONST_CONST,
    MOVE_CONST,
    CONST_MOVE,
    MOVE_MOVE,
    MOVE_MOVE_R
};
static void concat_trees(concat_t op, int mode)
{
    enable_tree();
    using T = rrb_t;
    tree_t<T> x, y;
    build_tree(x, any_start(), op == MOVE_CONST || op >= MOVE_MOVE);
    build_tree(y, x.start + x.size, op == CONST_MOVE || op >= MOVE_MOVE, true);
    ready(er_of(x) + er_of(y), et_of(x) + et_of(y));
    auto res = (T*) vp_raw(sizeof(T), "result");
    T* r     = nullptr;
    if (mode == MEANWHILE)
        g_on_alloc = others_leave<T>;
    auto e     = the_edit();
    bool threw = throws(mode, [&] {
#ifdef VP_GC
        switch (op) {
        case CONST_CONST: new (res) T(x.t->concat(*y.t)), r = res; break;
        case MOVE_CONST: concat_mut_l(*x.t, e, *y.t), r = x.t; break;
        case CONST_MOVE: concat_mut_r(*x.t, *y.t, e), r = y.t; break;
        case MOVE_MOVE: concat_mut_lr_l(*x.t, e, *y.t, e), r = x.t; break;
        case MOVE_MOVE_R: concat_mut_lr_r(*x.t, e, *y.t, e), r = y.t; break;
        }
#else
        switch (op) {
        case CONST_CONST: new (res) api_t<T>(constant(x.t) + constant(y.t)), r = res; break;
        case MOVE_CONST: r = address<T>(rvalue(x.t) + constant(y.t)); break;
        case CONST_MOVE: r = address<T>(constant(x.t) + rvalue(y.t)); break;
        case MOVE_MOVE: r = address<T>(rvalue(x.t) + rvalue(y.t)); break;
        case MOVE_MOVE_R: concat_mut_lr_r(*x.t, e, *y.t, e), r = y.t; break;
        }
#endif
    });
    g_on_alloc = nullptr;
    start_trees();
    // an operand given away may have lost its elements
    bool x_keeps = threw || op == CONST_CONST || op == CONST_MOVE;
    bool y_keeps = (threw && op < MOVE_MOVE) || op == CONST_CONST || op == MOVE_CONST;
    if (r)
        walk_tree(r, x.start, x.size + y.size, false);
    if (x_keeps)
        walk_tree(x.t, x.start, x.size, false);
    else if (r != x.t)
        see_tree(x.t);
    if (y_keeps)
        walk_tree(y.t, y.start, y.size, false);
    else if (r != y.t)
        see_tree(y.t);
    account_trees();
}
#define CONCAT(NAME, OP)                                                                                               \
    VP_HARNESS(flex_##NAME) { concat_trees(OP, PLAIN); }                                                               \
    VP_HARNESS(flex_##NAME##_throw) { concat_trees(OP, THROWS); }
CONCAT(concat, CONST_CONST)
CONCAT(concat_mut_l, MOVE_CONST)
CONCAT(concat_mut_r, CONST_MOVE)
CONCAT(concat_mut_lr_l, MOVE_MOVE)
CONCAT(concat_mut_lr_r, MOVE_MOVE_R)
VP_HARNESS(flex_concat_mut_l_meanwhile) { concat_trees(MOVE_CONST, MEANWHILE); }
VP_HARNESS(flex_concat_mut_lr_l_meanwhile) { concat_trees(MOVE_MOVE, MEANWHILE); }
