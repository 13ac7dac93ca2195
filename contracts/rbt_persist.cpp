// Persistent operations on radix balanced trees: one node of any kind, depth and size, its subtrees by contract.
#include "rbt.hpp"

// ---- update
template <typename Pos>
inline node_t* c_update(Pos& p, size_t idx, Fn& fn)
{
    auto v = enter(p);
    vp_assert(v.start + local(v, idx) == U, "contract update: the path leads to the requested element");
    callee_throws();
    ++g_calls;
    return fresh(v.shift, v.start, v.size, v.reg, true, false);
}
inline node_t* c_update_sub(node_t* n, shift_t shift, size_t size, size_t& idx, Fn& fn)
{
    auto v = enter(n, shift, size);
    vp_assert(v.start + exact(v, idx) == U, "contract update: the path leads to the requested element");
    callee_throws();
    ++g_calls;
    return fresh(v.shift, v.start, v.size, v.reg, true, false);
}
#define C_UPDATE(POS) c_update<POS>
VP_LEAF_CONTRACTS(update, "update_visitor<.*>", C_UPDATE)
VP_INNER_CONTRACTS(update, "update_visitor<.*>", C_UPDATE)
VP_SUB_CONTRACT(update, "update_visitor<.*>", c_update_sub)

static void update(bool throwing)
{
    vp_enable("update_*", 2);
    place_t t;
    any_node(t, false);
    auto& p = t.p;
    u64 at  = vp_u64("position");
    vp_assume(at < p.size);
    U          = p.start + at;
    size_t idx = t.over + at;
    Fn fn;
    node_t* r = nullptr;
    bool threw = may_throw(throwing, [&] { r = visit(t, rbts::update_visitor<node_t>{}, idx, fn); });
    start_walk();
    if (!threw) {
        vp_assert(r != p.node, "frame: the result is a new node");
        walk(r, p.shift, p.start, p.size, true, p.kind != RELAXED);
        vp_assert(g_calls == 1, "view: the function is called exactly once");
        vp_assert(g_allocs - p.allocs <= (EMBED ? 1 : 2), "share: one node is allocated per level");
    }
    account(p, 0);
}
VP_HARNESS(rbt_update) { update(false); }
VP_HARNESS(rbt_update_throw) { update(true); }

static void update_leaf(bool throwing)
{
    leaf_t l;
    unsigned n = 1 + vp_case(LEAF, "elements"), how = leaf_how(n);
    build_leaf(l, any_start(), n, false, false);
    u64 over = vp_u64("positions above"), at = vp_u64("position");
    vp_assume(over < (u64{1} << 60));
    vp_assume(at < n);
    U          = l.start + at;
    size_t idx = how == 0 ? at : (over << BL) + at;
    Fn fn;
    node_t* r  = nullptr;
    bool threw = may_throw(throwing, [&] { r = visit_leaf(l, how, over, rbts::update_visitor<node_t>{}, idx, fn); });
    start_walk();
    if (!threw) {
        vp_assert(r != l.node, "frame: the result is a new node");
        walk(r, 0, l.start, n, true, false);
        vp_assert(g_calls == 1, "view: the function is called exactly once");
    }
    account_leaf(l, 0);
}
VP_HARNESS(rbt_update_leaf) { update_leaf(false); }
VP_HARNESS(rbt_update_leaf_throw) { update_leaf(true); }

// ---- a chain of nodes down to a leaf
static node_t* c_make_path(shift_t shift, node_t* leaf)
{
    vp_assert(vp_is_alive(leaf), "mem: the leaf added is live");
    if (shift == 0)
        return leaf;
    callee_throws();
    auto v = leaf_view(leaf);
    auto n = fresh(shift, v.start, v.size, true, false, false);
    vp_gsetp(n, ABSORBED, leaf);
    return n;
}
VP_CONTRACT(make_path, "::make_path\\(", c_make_path)

struct tail_t
{
    node_t* leaf;
    int rc;
};
static tail_t any_tail(u64 start)
{
    tail_t t;
    t.leaf = opaque(0, start, LEAF, true, false, "leaf to add");
    t.rc   = any_rc("tail.rc");
    set_rc(t.leaf, t.rc);
    return t;
}
static void make_path(bool throwing)
{
    vp_enable("make_path", 1);
    pre_t p;
    u32 shift  = pick_shift();
    u64 start  = any_start();
    auto tail  = any_tail(start);
    p.n        = 0;
    u64 blocks = vp_live(), allocs = g_allocs;
    node_t* r  = nullptr;
    bool threw = may_throw(throwing, [&] { r = node_t::make_path(shift, tail.leaf); });
    start_walk();
    g_dead = g_fresh = 0;
    if (!threw) {
        walk(r, shift, start, LEAF, false, true);
        vp_assert(g_allocs - allocs == 1, "share: one node is allocated per level");
    }
    // the reference to the leaf is handed over with success
    account_old(tail.leaf, tail.rc - (threw ? 0 : 1), "rc: the leaf is not released while it is referred to",
                "rc: the leaf has as many owners as refer to it");
    account_new(&tail.leaf, 1);
    if (!GC)
        vp_assert(vp_live() == blocks - g_dead + g_fresh, "rc: exactly the blocks nobody refers to any more are released");
}
VP_HARNESS(rbt_make_path) { make_path(false); }
VP_HARNESS(rbt_make_path_throw) { make_path(true); }

// ---- push_tail: a full leaf is added at the end, or null is returned if a relaxed subtree has no place for it
static node_t* pushed(view_t v, node_t* tail)
{
    vp_assert(vp_is_alive(tail), "mem: the leaf added is live");
    auto l = leaf_view(tail);
    vp_assert(vp_and(l.shift == 0, l.start == v.start + v.size), "contract push_tail: the leaf belongs after the subtree");
    vp_assert(v.shift >= BL, "contract push_tail: a leaf is added to an inner node");
    vp_assert(vp_implies(v.reg, v.size < u64{BR} << v.shift), "contract push_tail: a regular subtree has place for the leaf");
    callee_throws();
    if (!v.reg) {
        if (vp_bool("callee.full"))
            return nullptr;
        vp_assume(v.size + l.size <= u64{BR} << v.shift);
    }
    auto n = fresh(v.shift, v.start, v.size + l.size, v.reg, false, false);
    vp_gsetp(n, ABSORBED, tail);
    return n;
}
template <typename Pos>
static node_t* c_push(Pos& p, node_t* tail)
{
    return pushed(enter(p), tail);
}
template <typename Pos>
static node_t* c_push_ts(Pos& p, node_t* tail, count_t& ts)
{
    auto v = enter(p);
    vp_assert(ts == leaf_view(tail).size, "contract push_tail: the leaf has the given size");
    return pushed(v, tail);
}
static node_t* c_push_sub(node_t* n, shift_t shift, size_t size, node_t*& tail, count_t& ts)
{
    auto v = enter(n, shift, size);
    vp_assert(ts == leaf_view(tail).size, "contract push_tail: the leaf has the given size");
    return pushed(v, tail);
}
#define C_PUSH(POS) c_push<POS>
#define C_PUSH_TS(POS) c_push_ts<POS>
VP_INNER_CONTRACTS(push, "push_tail_visitor<.*>", C_PUSH)
VP_INNER_CONTRACTS(push_ts, "push_tail_visitor<.*>", C_PUSH_TS)
VP_SUB_CONTRACT(push, "push_tail_visitor<.*>", c_push_sub)

static void push_tail(bool throwing)
{
    vp_enable("push_*", 2);
    vp_enable("make_path", 2);
    vp_enable("dec_*", 2);
    place_t t;
    any_node(t, false);
    auto& p = t.p;
    vp_assume(vp_implies(p.kind != RELAXED, p.size < u64{BR} << p.shift));
    auto tail = any_tail(p.start + p.size);
    built(p);
    auto leaf  = tail.leaf;
    count_t ts = LEAF;
    node_t* r  = nullptr;
    bool threw = may_throw(throwing, [&] {
        if (p.kind == RELAXED)
            r = rbts::make_relaxed_pos(p.node, p.shift, p.rel).visit(rbts::push_tail_visitor<node_t>{}, leaf, ts);
        else if (t.how == BY_REGULAR)
            r = rbts::make_regular_pos(p.node, p.shift, t.over + p.size).visit(rbts::push_tail_visitor<node_t>{}, leaf);
        else
            r = rbts::make_regular_sub_pos(p.node, p.shift, p.size).visit(rbts::push_tail_visitor<node_t>{}, leaf);
    });
    start_walk();
    if (!threw && r) {
        walk(r, p.shift, p.start, p.size + LEAF, false, p.kind != RELAXED);
        vp_assert(g_allocs - p.allocs <= (EMBED ? 1 : 2) + 1, "share: one node is allocated per level");
    }
    if (!threw && !r)
        vp_assert(p.kind == RELAXED, "wf: a regular node takes the leaf");
    account(p, 0, leaf, tail.rc - (!threw && r ? 1 : 0));
}
VP_HARNESS(rbt_push_tail) { push_tail(false); }
VP_HARNESS(rbt_push_tail_throw) { push_tail(true); }

// ---- slice_right: the elements up to one are kept, the last leaf of them is taken out
using right_t = std::tuple<shift_t, node_t*, count_t, node_t*>;
static right_t sliced_right(view_t v, u64 last, bool collapse)
{
    callee_throws();
    if (v.shift == 0) {
        auto n = fresh(0, v.start, last + 1, true, false, false);
        return right_t{0, nullptr, (count_t) (last + 1), n};
    }
    u64 ts = vp_u32("callee.last leaf");
    vp_assume(vp_and(vp_and(ts >= 1, ts <= LEAF), ts <= last + 1));
    if (v.reg)
        vp_assume(ts == (last & (LEAF - 1)) + 1);
    auto tail = fresh(0, v.start + last + 1 - ts, ts, true, false, false);
    if (ts == last + 1)
        return right_t{v.shift, nullptr, (count_t) ts, tail};
    u64 shift = v.shift;
    bool reg  = v.reg;
    if (collapse) {
        shift = vp_u32("callee.shift");
        vp_assume(vp_and(vp_and(shift >= BL, shift <= v.shift), (shift - BL) % B == 0));
        if (!reg)
            reg = vp_bool("callee.regular");
        vp_assume(vp_implies(reg, (last + 1 - ts & (LEAF - 1)) == 0));
        vp_assume(last + 1 - ts <= u64{BR} << shift);
    }
    return right_t{(shift_t) shift, fresh_any(shift, v.start, last + 1 - ts, reg, false), (count_t) ts, tail};
}
template <typename Pos, bool Collapse>
static right_t c_right(Pos& p, size_t last)
{
    auto v = enter(p);
    return sliced_right(v, local(v, last), Collapse);
}
template <bool Collapse>
static right_t c_right_sub(node_t* n, shift_t shift, size_t size, size_t& last)
{
    auto v = enter(n, shift, size);
    return sliced_right(v, exact(v, last), Collapse);
}
#define C_RIGHT(POS) c_right<POS, true>
#define C_RIGHT_NC(POS) c_right<POS, false>
#define RX_RIGHT "slice_right_visitor<.*, 2u, 2u>, true>"
#define RX_RIGHT_NC "slice_right_visitor<.*, 2u, 2u>, false>"
VP_LEAF_CONTRACTS(right, RX_RIGHT, C_RIGHT)
VP_INNER_CONTRACTS(right, RX_RIGHT, C_RIGHT)
VP_SUB_CONTRACT(right, RX_RIGHT, c_right_sub<true>)
VP_LEAF_CONTRACTS(right_nc, RX_RIGHT_NC, C_RIGHT_NC)
VP_INNER_CONTRACTS(right_nc, RX_RIGHT_NC, C_RIGHT_NC)
VP_SUB_CONTRACT(right_nc, RX_RIGHT_NC, c_right_sub<false>)

template <bool Collapse>
static void slice_right(bool throwing)
{
    vp_enable("right_*", 2);
    vp_enable("dec_*", 2);
    place_t t;
    any_node(t, false);
    auto& p = t.p;
    u64 at  = vp_u64("position");
    vp_assume(at < p.size);
    size_t last = t.over + at;
    right_t r;
    bool threw = may_throw(throwing, [&] { r = visit(t, rbts::slice_right_visitor<node_t, Collapse>{}, last); });
    start_walk();
    if (!threw) {
        auto shift = std::get<0>(r);
        auto node  = std::get<1>(r);
        u64 ts     = std::get<2>(r);
        auto tail  = std::get<3>(r);
        vp_assert(vp_and(vp_and(ts >= 1, ts <= LEAF), ts <= at + 1), "wf: the last leaf is not empty and no longer than what is kept");
        u64 left = at + 1 - ts;
        if (node) {
            vp_assert(left != 0, "wf: a tree without elements is null");
            if (Collapse)
                vp_assert(vp_and(vp_and(shift >= BL, shift <= p.shift), (shift - BL) % B == 0), "wf: the depth of the result");
            else
                vp_assert(shift == p.shift, "wf: the depth of the result");
            walk(node, shift, p.start, left, false, p.kind != RELAXED);
        } else
            vp_assert(left == 0, "view: no element is lost");
        walk(tail, 0, p.start + left, ts, false, false);
        vp_assert(g_allocs - p.allocs <= (EMBED ? 1 : 2), "share: one node is allocated per level");
    }
    account(p, 0);
}
VP_HARNESS(rbt_slice_right) { slice_right<true>(false); }
VP_HARNESS(rbt_slice_right_throw) { slice_right<true>(true); }
VP_HARNESS(rbt_slice_right_nc) { slice_right<false>(false); }
VP_HARNESS(rbt_slice_right_nc_throw) { slice_right<false>(true); }

static void slice_right_leaf(bool throwing)
{
    leaf_t l;
    unsigned n = 1 + vp_case(LEAF, "elements"), how = leaf_how(n);
    build_leaf(l, any_start(), n, false, false);
    u64 over = vp_u64("positions above"), at = vp_u64("position");
    vp_assume(over < (u64{1} << 60));
    vp_assume(at < n);
    size_t last = how == 0 ? at : (over << BL) + at;
    right_t r;
    bool threw = may_throw(throwing, [&] { r = visit_leaf(l, how, over, rbts::slice_right_visitor<node_t>{}, last); });
    start_walk();
    if (!threw) {
        vp_assert(std::get<1>(r) == nullptr, "wf: nothing is left of a leaf taken out");
        vp_assert(std::get<2>(r) == at + 1, "wf: the leaf is cut to size");
        walk(std::get<3>(r), 0, l.start, at + 1, false, false);
    }
    account_leaf(l, 0);
}
VP_HARNESS(rbt_slice_right_leaf) { slice_right_leaf(false); }
VP_HARNESS(rbt_slice_right_leaf_throw) { slice_right_leaf(true); }

// ---- slice_left: the elements from one on are kept
using left_t = std::tuple<shift_t, node_t*>;
static left_t sliced_left(view_t v, u64 first, bool collapse)
{
    callee_throws();
    if (v.shift == 0)
        return left_t{0, fresh(0, v.start + first, v.size - first, true, false, false)};
    u64 shift = v.shift;
    if (collapse) {
        shift = vp_u32("callee.shift");
        vp_assume(vp_and(vp_and(shift >= BL, shift <= v.shift), (shift - BL) % B == 0));
        vp_assume(v.size - first <= u64{BR} << shift);
    }
    return left_t{(shift_t) shift, fresh_any(shift, v.start + first, v.size - first, false, false)};
}
template <typename Pos, bool Collapse>
static left_t c_left(Pos& p, size_t first)
{
    auto v = enter(p);
    return sliced_left(v, v.shift == 0 ? local(v, first) : exact(v, first), Collapse);
}
template <bool Collapse>
static left_t c_left_sub(node_t* n, shift_t shift, size_t size, size_t& first)
{
    auto v = enter(n, shift, size);
    return sliced_left(v, exact(v, first), Collapse);
}
#define C_LEFT(POS) c_left<POS, true>
#define C_LEFT_NC(POS) c_left<POS, false>
#define RX_LEFT "slice_left_visitor<.*, 2u, 2u>, true>"
#define RX_LEFT_NC "slice_left_visitor<.*, 2u, 2u>, false>"
VP_LEAF_CONTRACTS(left, RX_LEFT, C_LEFT)
VP_INNER_CONTRACTS(left, RX_LEFT, C_LEFT)
VP_SUB_CONTRACT(left, RX_LEFT, c_left_sub<true>)
VP_LEAF_CONTRACTS(left_nc, RX_LEFT_NC, C_LEFT_NC)
VP_INNER_CONTRACTS(left_nc, RX_LEFT_NC, C_LEFT_NC)
VP_SUB_CONTRACT(left_nc, RX_LEFT_NC, c_left_sub<false>)

template <bool Collapse>
static void slice_left(bool throwing)
{
    vp_enable("left_*", 2);
    vp_enable("dec_*", 2);
    place_t t;
    any_node(t, false);
    auto& p = t.p;
    u64 at  = vp_u64("position");
    vp_assume(at < p.size);
    t.over       = 0;
    size_t first = at;
    left_t r;
    bool threw = may_throw(throwing, [&] { r = visit_sub(t, rbts::slice_left_visitor<node_t, Collapse>{}, first); });
    start_walk();
    if (!threw) {
        auto shift = std::get<0>(r);
        auto node  = std::get<1>(r);
        if (Collapse)
            vp_assert(vp_and(vp_and(shift >= BL, shift <= p.shift), (shift - BL) % B == 0), "wf: the depth of the result");
        else
            vp_assert(shift == p.shift, "wf: the depth of the result");
        walk(node, shift, p.start + at, p.size - at, false, false);
        vp_assert(g_allocs - p.allocs <= (EMBED ? 1 : 2), "share: one node is allocated per level");
    }
    account(p, 0);
}
VP_HARNESS(rbt_slice_left) { slice_left<true>(false); }
VP_HARNESS(rbt_slice_left_throw) { slice_left<true>(true); }
VP_HARNESS(rbt_slice_left_nc) { slice_left<false>(false); }
VP_HARNESS(rbt_slice_left_nc_throw) { slice_left<false>(true); }

static void slice_left_leaf(bool throwing)
{
    leaf_t l;
    unsigned n = 1 + vp_case(LEAF, "elements"), how = leaf_how(n);
    build_leaf(l, any_start(), n, false, false);
    u64 over = vp_u64("positions above"), at = vp_u64("position");
    vp_assume(over < (u64{1} << 60));
    vp_assume(at < n);
    size_t first = how == 0 ? at : (over << BL) + at;
    left_t r;
    bool threw = may_throw(throwing, [&] { r = visit_leaf(l, how, over, rbts::slice_left_visitor<node_t>{}, first); });
    start_walk();
    if (!threw)
        walk(std::get<1>(r), 0, l.start + at, l.n - at, false, false);
    account_leaf(l, 0);
}
VP_HARNESS(rbt_slice_left_leaf) { slice_left_leaf(false); }
VP_HARNESS(rbt_slice_left_leaf_throw) { slice_left_leaf(true); }
