// Reading radix balanced trees: traversal of everything or of a range, in chunks, with and without early exit; look-up.
// One node of any kind, depth and size, its subtrees by contract.
#include "rbt.hpp"

// ---- traversal: the position up to which everything has been shown
static u64 g_cur;
static bool g_stopped;
static bool g_empty; // no elements at all: the function is called with an empty chunk
struct Show // the user's function
{
    void operator()(const E* f, const E* e)
    {
        u64 n = e - f;
        vp_assert(vp_and(n >= (g_empty ? 0 : 1), n <= LEAF), "iter: a chunk is not empty and part of one leaf");
        for (u64 i = 0; i < n; ++i) {
            vp_assert(f[i].st == ST_LIVE, "life: only live elements are shown");
            vp_assert(vp_and(f[i].k == g_cur + i, f[i].v == S(g_cur + i)), "iter: the elements are shown in order, each once");
        }
        g_cur += n;
    }
};
struct Ask : Show // the same, may say stop
{
    bool operator()(const E* f, const E* e)
    {
        vp_assert(!g_stopped, "iter: nothing is shown after the function has said stop");
        Show::operator()(f, e);
        if (vp_bool("stop"))
            g_stopped = true;
        return !g_stopped;
    }
};
inline void shown(view_t v, u64 from, u64 to) // [from, to) of the subtree
{
    vp_assert(g_cur == v.start + from, "contract traversal: the elements are shown in order, each once");
    vp_assert(vp_and(from < to, to <= v.size), "contract traversal: the range is part of the subtree");
    g_cur = v.start + to;
}
inline bool asked(view_t v, u64 from, u64 to)
{
    vp_assert(!g_stopped, "iter: nothing is shown after the function has said stop");
    shown(v, from, to);
    if (vp_bool("callee.stop"))
        g_stopped = true;
    return !g_stopped;
}
template <typename Pos>
static void c_all(Pos& p, Show& fn)
{
    auto v = enter(p);
    shown(v, 0, v.size);
}
static void c_all_sub(node_t* n, shift_t shift, size_t size, Show& fn) { shown(enter(n, shift, size), 0, size); }
template <typename Pos>
static bool c_all_p(Pos& p, Ask& fn)
{
    auto v = enter(p);
    return asked(v, 0, v.size);
}
static bool c_all_p_sub(node_t* n, shift_t shift, size_t size, Ask& fn) { return asked(enter(n, shift, size), 0, size); }
template <typename Pos>
static void c_left(Pos& p, size_t last, Show& fn)
{
    auto v = enter(p);
    shown(v, 0, local(v, last) + 1);
}
static void c_left_sub(node_t* n, shift_t shift, size_t size, size_t& last, Show& fn)
{
    auto v = enter(n, shift, size);
    shown(v, 0, exact(v, last) + 1);
}
template <typename Pos>
static bool c_left_p(Pos& p, size_t last, Ask& fn)
{
    auto v = enter(p);
    return asked(v, 0, local(v, last) + 1);
}
static bool c_left_p_sub(node_t* n, shift_t shift, size_t size, size_t& last, Ask& fn)
{
    auto v = enter(n, shift, size);
    return asked(v, 0, exact(v, last) + 1);
}
template <typename Pos>
static void c_right(Pos& p, size_t first, Show& fn)
{
    auto v = enter(p);
    shown(v, local(v, first), v.size);
}
static void c_right_sub(node_t* n, shift_t shift, size_t size, size_t& first, Show& fn)
{
    auto v = enter(n, shift, size);
    shown(v, exact(v, first), v.size);
}
template <typename Pos>
static bool c_right_p(Pos& p, size_t first, Ask& fn)
{
    auto v = enter(p);
    return asked(v, local(v, first), v.size);
}
static bool c_right_p_sub(node_t* n, shift_t shift, size_t size, size_t& first, Ask& fn)
{
    auto v = enter(n, shift, size);
    return asked(v, exact(v, first), v.size);
}
template <typename Pos>
static void c_range(Pos& p, size_t first, size_t last, Show& fn)
{
    auto v = enter(p);
    if (first < last)
        shown(v, local(v, first), local(v, last - 1) + 1);
}
static void c_range_sub(node_t* n, shift_t shift, size_t size, size_t& first, size_t&& last, Show& fn)
{
    auto v = enter(n, shift, size);
    if (first < last)
        shown(v, exact(v, first), exact(v, last - 1) + 1);
}
template <typename Pos>
static bool c_range_p(Pos& p, size_t first, size_t last, Ask& fn)
{
    auto v = enter(p);
    return first < last ? asked(v, local(v, first), local(v, last - 1) + 1) : true;
}
static bool c_range_p_sub(node_t* n, shift_t shift, size_t size, size_t& first, size_t&& last, Ask& fn)
{
    auto v = enter(n, shift, size);
    return first < last ? asked(v, exact(v, first), exact(v, last - 1) + 1) : true;
}
#define CHUNK_CONTRACTS(KEY, V, C, SUB)                                                                                \
    VP_LEAF_CONTRACTS(KEY, V, C)                                                                                       \
    VP_INNER_CONTRACTS(KEY, V, C)                                                                                      \
    VP_SUB_CONTRACT(KEY, V, SUB)
#define C_ALL(P) c_all<P>
#define C_ALL_P(P) c_all_p<P>
#define C_LEFT(P) c_left<P>
#define C_LEFT_P(P) c_left_p<P>
#define C_RIGHT(P) c_right<P>
#define C_RIGHT_P(P) c_right_p<P>
#define C_RANGE(P) c_range<P>
#define C_RANGE_P(P) c_range_p<P>
CHUNK_CONTRACTS(all, "for_each_chunk_visitor", C_ALL, c_all_sub)
CHUNK_CONTRACTS(all_p, "for_each_chunk_p_visitor", C_ALL_P, c_all_p_sub)
CHUNK_CONTRACTS(left, "for_each_chunk_left_visitor", C_LEFT, c_left_sub)
CHUNK_CONTRACTS(left_p, "for_each_chunk_p_left_visitor", C_LEFT_P, c_left_p_sub)
CHUNK_CONTRACTS(right, "for_each_chunk_right_visitor", C_RIGHT, c_right_sub)
CHUNK_CONTRACTS(right_p, "for_each_chunk_p_right_visitor", C_RIGHT_P, c_right_p_sub)
CHUNK_CONTRACTS(range, "for_each_chunk_i_visitor", C_RANGE, c_range_sub)
CHUNK_CONTRACTS(range_p, "for_each_chunk_p_i_visitor", C_RANGE_P, c_range_p_sub)

static void enable_all()
{
    for (auto k : {"all_*", "left_*", "right_*", "range_*"})
        vp_enable(k, 2);
}
// the elements [from, to) of the node have been shown, or those up to where the function said stop
static void check_shown(u64 start, u64 from, u64 to, bool pred, bool r)
{
    if (pred)
        vp_assert(r == !g_stopped, "iter: the result tells whether everything has been shown");
    if (!g_stopped)
        vp_assert(g_cur == start + to, "iter: all of the elements are shown");
}
template <typename F>
static void traverse(u64 start, u64 from, u64 to, F f)
{
    g_cur       = start + from;
    g_stopped   = false;
    bool pred   = false;
    bool r      = f(pred);
    check_shown(start, from, to, pred, r);
}
static u64 some_position(u64 size)
{
    u64 at = vp_u64("position");
    vp_assume(at < size);
    return at;
}
VP_HARNESS(rbt_for_each_chunk)
{
    enable_all();
    place_t t;
    any_node(t, false);
    auto& p = t.p;
    Show fn;
    traverse(p.start, 0, p.size, [&](bool& pred) { return visit(t, rbts::for_each_chunk_visitor{}, fn), true; });
    account(p, 0);
}
VP_HARNESS(rbt_for_each_chunk_p)
{
    enable_all();
    place_t t;
    any_node(t, false);
    auto& p = t.p;
    Ask fn;
    traverse(p.start, 0, p.size, [&](bool& pred) { return pred = true, visit(t, rbts::for_each_chunk_p_visitor{}, fn); });
}
VP_HARNESS(rbt_for_each_chunk_left)
{
    enable_all();
    place_t t;
    any_node(t, false);
    auto& p = t.p;
    u64 at  = some_position(p.size);
    Show fn;
    traverse(p.start, 0, at + 1, [&](bool& pred) { return visit(t, rbts::for_each_chunk_left_visitor{}, t.over + at, fn), true; });
}
VP_HARNESS(rbt_for_each_chunk_p_left)
{
    enable_all();
    place_t t;
    any_node(t, false);
    auto& p = t.p;
    u64 at  = some_position(p.size);
    Ask fn;
    traverse(p.start, 0, at + 1, [&](bool& pred) { return pred = true, visit(t, rbts::for_each_chunk_p_left_visitor{}, t.over + at, fn); });
}
VP_HARNESS(rbt_for_each_chunk_right)
{
    enable_all();
    place_t t;
    any_node(t, false);
    auto& p = t.p;
    u64 at  = some_position(p.size);
    Show fn;
    traverse(p.start, at, p.size, [&](bool& pred) { return visit(t, rbts::for_each_chunk_right_visitor{}, t.over + at, fn), true; });
}
VP_HARNESS(rbt_for_each_chunk_p_right)
{
    enable_all();
    place_t t;
    any_node(t, false);
    auto& p = t.p;
    u64 at  = some_position(p.size);
    Ask fn;
    traverse(p.start, at, p.size, [&](bool& pred) { return pred = true, visit(t, rbts::for_each_chunk_p_right_visitor{}, t.over + at, fn); });
}
static u64 some_end(u64 size, u64 at)
{
    u64 end = vp_u64("end");
    vp_assume(vp_and(end >= at, end <= size));
    return end;
}
VP_HARNESS(rbt_for_each_chunk_i)
{
    enable_all();
    place_t t;
    any_node(t, false);
    auto& p = t.p;
    u64 at  = some_position(p.size), end = some_end(p.size, at);
    Show fn;
    traverse(p.start, at, end, [&](bool& pred) { return visit(t, rbts::for_each_chunk_i_visitor{}, t.over + at, t.over + end, fn), true; });
}
VP_HARNESS(rbt_for_each_chunk_p_i)
{
    enable_all();
    place_t t;
    any_node(t, false);
    auto& p = t.p;
    u64 at  = some_position(p.size), end = some_end(p.size, at);
    Ask fn;
    traverse(p.start, at, end, [&](bool& pred) { return pred = true, visit(t, rbts::for_each_chunk_p_i_visitor{}, t.over + at, t.over + end, fn); });
}
VP_HARNESS(rbt_chunk_leaf)
{
    leaf_t l;
    unsigned n = 1 + vp_case(LEAF, "elements"), how = leaf_how(n), what = vp_case(8, "traversal");
    build_leaf(l, any_start(), n, false, false);
    u64 over = vp_u64("positions above"), at = some_position(n), end = some_end(n, at);
    vp_assume(over < (u64{1} << 60));
    u64 base = how == 0 ? 0 : over << BL;
    if (what == 0 || what == 1)
        at = 0;
    if (what == 2 || what == 3)
        end = at + 1, at = 0;
    if (what == 0 || what == 1 || what == 4 || what == 5)
        end = n;
    Show s;
    Ask a;
    traverse(l.start, at, end, [&](bool& pred) {
        pred = what & 1;
        switch (what) {
        case 0: return visit_leaf(l, how, over, rbts::for_each_chunk_visitor{}, s), true;
        case 1: return visit_leaf(l, how, over, rbts::for_each_chunk_p_visitor{}, a);
        case 2: return visit_leaf(l, how, over, rbts::for_each_chunk_left_visitor{}, base + end - 1, s), true;
        case 3: return visit_leaf(l, how, over, rbts::for_each_chunk_p_left_visitor{}, base + end - 1, a);
        case 4: return visit_leaf(l, how, over, rbts::for_each_chunk_right_visitor{}, base + at, s), true;
        case 5: return visit_leaf(l, how, over, rbts::for_each_chunk_p_right_visitor{}, base + at, a);
        case 6: return visit_leaf(l, how, over, rbts::for_each_chunk_i_visitor{}, base + at, base + end, s), true;
        default: return visit_leaf(l, how, over, rbts::for_each_chunk_p_i_visitor{}, base + at, base + end, a);
        }
    });
    start_walk();
    account_leaf(l, 0);
}

// ---- the leaf of a position, with the position in it and its size
static E g_elem;
using region_t = std::tuple<E*, size_t, size_t>;
static u64 g_at, g_n;
static region_t region(view_t v, u64 at)
{
    vp_assert(v.start + at == U, "contract look-up: the path leads to the requested element");
    g_at = vp_u64("callee.at");
    g_n  = vp_u64("callee.n");
    return region_t{&g_elem, g_at, g_n};
}
template <typename Pos>
static region_t c_region(Pos& p, size_t idx)
{
    auto v = enter(p);
    return region(v, local(v, idx));
}
static region_t c_region_sub(node_t* n, shift_t shift, size_t size, size_t& idx)
{
    auto v = enter(n, shift, size);
    return region(v, exact(v, idx));
}
#define C_REGION(P) c_region<P>
VP_LEAF_CONTRACTS(region, "region_for_visitor<E>", C_REGION)
VP_INNER_CONTRACTS(region, "region_for_visitor<E>", C_REGION)
VP_SUB_CONTRACT(region, "region_for_visitor<E>", c_region_sub)
VP_HARNESS(rbt_region_for)
{
    vp_enable("region_*", 2);
    place_t t;
    any_node(t, false);
    auto& p    = t.p;
    u64 at     = some_position(p.size);
    U          = p.start + at;
    size_t idx = t.over + at;
    auto r     = visit(t, rbts::region_for_visitor<E>{}, idx);
    vp_assert(std::get<0>(r) == &g_elem, "iter: the leaf of the requested element");
    vp_assert(vp_and(std::get<1>(r) == g_at, std::get<2>(r) == g_n), "iter: the place in the leaf of the requested element");
}
VP_HARNESS(rbt_region_for_leaf)
{
    leaf_t l;
    unsigned n = 1 + vp_case(LEAF, "elements"), how = leaf_how(n);
    build_leaf(l, any_start(), n, false, false);
    u64 over = vp_u64("positions above"), at = some_position(n);
    vp_assume(over < (u64{1} << 60));
    size_t idx = how == 0 ? at : (over << BL) + at;
    auto r     = visit_leaf(l, how, over, rbts::region_for_visitor<E>{}, idx);
    vp_assert(std::get<0>(r) == l.node->leaf(), "iter: the leaf of the requested element");
    vp_assert(vp_and(std::get<1>(r) == at, std::get<2>(r) == n), "iter: the place in the leaf of the requested element");
}

// ---- look-up: the descent is unrolled over the depths
template <unsigned Shift>
static view_t descend(node_t* n)
{
    if (!vp_ghas(n, SHIFT))
        vp_decline();
    vp_assert(vp_is_alive(n), "mem: a subtree visited is live");
    auto v = view(n);
    vp_assert(v.shift == Shift, "contract: a subtree is visited with its shift");
    return v;
}
template <unsigned Shift>
static const E& c_get(node_t*& p, size_t idx)
{
    auto v = descend<Shift>(p);
    vp_assert(v.start + local(v, idx) == U, "contract look-up: the path leads to the requested element");
    return g_elem;
}
template <unsigned Shift>
static E* c_array_for(node_t*& p, size_t idx)
{
    auto v = descend<Shift>(p);
    vp_assert(v.start + local(v, idx) == U, "contract look-up: the path leads to the requested element");
    return &g_elem;
}
#define DESCENT(S)                                                                                                     \
    VP_CONTRACT_T(get_regular_##S, "(?<!visitor_base<immer::detail::rbts::)\\bget_visitor<E>::visit_\\w+<immer::detail::rbts::regular_descent_pos<.*, " #S "u, 2u, 2u>", c_get<S>) \
    VP_CONTRACT_T(get_relaxed_##S, "(?<!visitor_base<immer::detail::rbts::)\\bget_visitor<E>::visit_\\w+<immer::detail::rbts::relaxed_descent_pos<.*, " #S "u, 2u, 2u>", c_get<S>) \
    VP_CONTRACT_T(arr_regular_##S, "(?<!visitor_base<immer::detail::rbts::)\\barray_for_visitor<E>::visit_\\w+<immer::detail::rbts::regular_descent_pos<.*, " #S "u, 2u, 2u>", c_array_for<S>) \
    VP_CONTRACT_T(arr_relaxed_##S, "(?<!visitor_base<immer::detail::rbts::)\\barray_for_visitor<E>::visit_\\w+<immer::detail::rbts::relaxed_descent_pos<.*, " #S "u, 2u, 2u>", c_array_for<S>)
DESCENT(2)
DESCENT(4)
DESCENT(6)
DESCENT(8)
DESCENT(10)
VP_CONTRACT_T(get_leaf, "(?<!visitor_base<immer::detail::rbts::)\\bget_visitor<E>::visit_\\w+<immer::detail::rbts::leaf_descent_pos<", c_get<0>)
VP_CONTRACT_T(arr_leaf, "(?<!visitor_base<immer::detail::rbts::)\\barray_for_visitor<E>::visit_\\w+<immer::detail::rbts::leaf_descent_pos<", c_array_for<0>)
template <typename V>
static void look_up(bool relaxed)
{
    vp_enable("get_*", 2);
    vp_enable("arr_*", 2);
    unsigned c = vp_case(6, "depth");
    u32 shift  = BL + c * B;
    auto kind  = relaxed ? RELAXED : REGULAR;
    unsigned n = 1 + vp_case(BR, "children");
    bool reg   = kind == REGULAR || vp_case(2, "subtrees relaxed") == 0;
    pre_t p;
    build(p, kind, shift, any_start(), n, false, false);
    relaxed_t dummy;
    for (unsigned i = 0; i < n; ++i) {
        vp_assume(vp_implies(shift != BL, reg ? vp_ggetb(p.child[i], REG) : vp_not(vp_ggetb(p.child[i], REG))));
        if (shift != BL) {
            // whether a subtree is regular can be read from its node
            vp_transparent(&p.child[i]->impl.d.data);
            p.child[i]->impl.d.data.inner.relaxed = reg ? nullptr : &dummy;
        }
    }
    u64 at = some_position(p.size);
    U      = p.start + at;
    u64 over = 0;
    if (kind == REGULAR)
        over = vp_u64("positions above") << (shift + B);
    const E* r = nullptr;
    if constexpr (std::is_same<V, rbts::get_visitor<E>>::value)
        r = kind == RELAXED ? &rbts::visit_maybe_relaxed_descent(p.node, shift, V{}, at + over)
                            : &rbts::visit_regular_descent(p.node, shift, V{}, at + over);
    else
        r = rbts::visit_regular_descent(p.node, shift, V{}, at + over);
    vp_assert(r == &g_elem, "view: the element at a position is the one the path leads to");
}
VP_HARNESS(rbt_get) { look_up<rbts::get_visitor<E>>(false); }
VP_HARNESS(rbt_get_relaxed) { look_up<rbts::get_visitor<E>>(true); }
VP_HARNESS(rbt_array_for) { look_up<rbts::array_for_visitor<E>>(false); }
VP_HARNESS(rbt_get_leaf)
{
    leaf_t l;
    unsigned n = 1 + vp_case(LEAF, "elements");
    build_leaf(l, any_start(), n, false, false);
    u64 over = vp_u64("positions above"), at = some_position(n);
    u64 idx = (over << BL) + at;
    auto& r = rbts::make_leaf_descent_pos(l.node).visit(rbts::get_visitor<E>{}, idx);
    vp_assert(vp_and(r.k == l.start + at, r.v == S(l.start + at)), "view: the element at a position");
    vp_assert(rbts::make_leaf_descent_pos(l.node).visit(rbts::array_for_visitor<E>{}, idx) == l.node->leaf(), "view: the leaf of a position");
}
