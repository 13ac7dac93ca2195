// Operations on radix balanced trees that update in place what is exclusively theirs: releasing, get_mut, push_tail,
// slices.  One node of any kind, depth and size, its subtrees by contract.
#include "rbt.hpp"

// ---- release
static void dec(bool right, bool left)
{
    vp_enable("dec_*", 2);
    place_t t;
    any_node(t, true);
    auto& p  = t.p;
    bool can = p.can;
    if (right || left) {
        unsigned from = (right ? 1 : 0) + vp_case(p.n, "from");
        if (right)
            visit(t, rbts::dec_right_visitor{}, from);
        else
            visit_sub(t, rbts::dec_left_visitor{}, from);
        // the others had been given away before, unless the node remains
        if (!GC && vp_is_alive(p.node))
            from = right ? 0 : p.n;
        for (unsigned i = 0; i < p.n; ++i)
            if (!GC && (right ? i < from : i >= from))
                ++p.crc[i];
    } else
        visit(t, rbts::dec_visitor{});
    start_walk();
    vp_assert(GC || vp_is_alive(p.node) == !can, "rc: a node is released with its last reference");
    account(p, 1);
}
VP_HARNESS(rbt_dec) { dec(false, false); }
VP_HARNESS(rbt_dec_right) { dec(true, false); }
VP_HARNESS(rbt_dec_left) { dec(false, true); }
VP_HARNESS(rbt_dec_leaf)
{
    leaf_t l;
    unsigned n = 1 + vp_case(LEAF, "elements"), how = leaf_how(n);
    bool can   = vp_case(2, "exclusively ours");
    build_leaf(l, any_start(), n, true, can);
    u64 over = vp_u64("positions above");
    vp_assume(over < (u64{1} << 60));
    visit_leaf(l, how, over, rbts::dec_visitor{});
    start_walk();
    vp_assert(GC || vp_is_alive(l.node) == !can, "rc: a leaf is released with its last reference");
    account_leaf(l, 1);
}

// ---- get_mut: a reference to an element which can be written to
static E g_elem;
static E& got(view_t v, u64 at, node_t** location)
{
    auto n = *location;
    vp_assert(v.start + at == U, "contract get_mut: the path leads to the requested element");
    callee_throws();
    if (can_mutate(n)) {
        vp_assert(vp_not(vp_ggetb(n, SHARED)), "frame: what others refer to is not handed out for writing");
        vp_gsetb(n, UPD, true);
    } else {
        auto r = fresh(v.shift, v.start, v.size, v.reg, true, true);
        drop_ref(n);
        *location = r;
    }
    vp_gsetp(*location, ELEM, &g_elem);
    return g_elem;
}
template <typename Pos>
static E& c_get_mut(Pos& p, size_t idx, edit_t e, node_t** location)
{
    auto v = enter(p);
    vp_assert(*location == p.node_, "contract get_mut: the location refers to the subtree");
    return got(v, local(v, idx), location);
}
static E& c_get_mut_sub(node_t* n, shift_t shift, size_t size, size_t& idx, edit_t& e, node_t**&& location)
{
    auto v = enter(n, shift, size);
    vp_assert(*location == n, "contract get_mut: the location refers to the subtree");
    return got(v, exact(v, idx), location);
}
#define C_GET_MUT(POS) c_get_mut<POS>
VP_LEAF_CONTRACTS(get_mut, "get_mut_visitor<.*>", C_GET_MUT)
VP_INNER_CONTRACTS(get_mut, "get_mut_visitor<.*>", C_GET_MUT)
VP_SUB_CONTRACT(get_mut, "get_mut_visitor<.*>", c_get_mut_sub)

static void get_mut(int throwing)
{
    vp_enable("get_mut_*", 2);
    vp_enable("dec_*", 2);
    place_t t;
    any_node(t, true);
    auto& p  = t.p;
    bool can = p.can;
    u64 at  = vp_u64("position");
    vp_assume(at < p.size);
    U                = p.start + at;
    size_t idx       = t.over + at;
    auto e           = the_edit();
    node_t* location = p.node;
    auto loc         = &location;
    E* r             = nullptr;
    bool threw = may_throw(throwing, [&] { r = &visit(t, rbts::get_mut_visitor<node_t>{}, idx, e, loc); }, &p);
    start_walk();
    walk(location, p.shift, p.start, p.size, !threw, p.kind != RELAXED);
    if (threw)
        vp_assert(location == p.node, "frame: after an exception nothing has changed");
    else {
        vp_assert(r == &g_elem, "view: the reference is to the requested element");
        if (can)
            vp_assert(vp_and(location == p.node, g_allocs == p.allocs), "share: what is exclusively ours is updated in place");
        else
            vp_assert(location != p.node, "frame: what others refer to is not handed out for writing");
        if (GC)
            vp_assert(is_owned(location), "frame: the new nodes are owned by the edit");
    }
    account(p, 1);
}
VP_HARNESS(rbt_get_mut) { get_mut(false); }
VP_HARNESS(rbt_get_mut_throw) { get_mut(THROWS); }
VP_HARNESS(rbt_get_mut_meanwhile) { get_mut(MEANWHILE); }
static void get_mut_leaf(bool throwing)
{
    leaf_t l;
    unsigned n = 1 + vp_case(LEAF, "elements"), how = leaf_how(n);
    bool can   = vp_case(2, "exclusively ours");
    build_leaf(l, any_start(), n, true, can);
    u64 over = vp_u64("positions above"), at = vp_u64("position");
    vp_assume(over < (u64{1} << 60));
    vp_assume(at < n);
    U                = l.start + at;
    size_t idx       = how == 0 ? at : (over << BL) + at;
    auto e           = the_edit();
    node_t* location = l.node;
    auto loc         = &location;
    bool threw       = may_throw(throwing, [&] {
        E& r = visit_leaf(l, how, over, rbts::get_mut_visitor<node_t>{}, idx, e, loc);
        vp_assert(vp_and(r.k == U, r.v == S(U)), "view: the reference is to the requested element");
        g_may_throw = false;
        r.v         = after(r.v);
    });
    start_walk();
    walk(location, 0, l.start, n, !threw, false);
    vp_assert(threw || can ? location == l.node : location != l.node, "frame: what others refer to is not handed out for writing");
    account_leaf(l, 1);
}
VP_HARNESS(rbt_get_mut_leaf) { get_mut_leaf(false); }
VP_HARNESS(rbt_get_mut_leaf_throw) { get_mut_leaf(true); }

// ---- a chain of nodes down to a leaf
static node_t* c_make_path_e(edit_t e, shift_t shift, node_t* leaf)
{
    vp_assert(vp_is_alive(leaf), "mem: the leaf added is live");
    if (shift == 0)
        return leaf;
    callee_throws();
    auto v = leaf_view(leaf);
    auto n = fresh(shift, v.start, v.size, true, false, true);
    vp_gsetp(n, ABSORBED, leaf);
    return n;
}
VP_CONTRACT(make_path_e, "::make_path_e\\(", c_make_path_e)

struct tail_t
{
    node_t* leaf;
    int rc;
};
static tail_t any_tail(u64 start)
{
    tail_t t;
    t.leaf = opaque(0, start, LEAF, true, false, "leaf to add");
    t.rc   = any_rc("tail.rc");
    set_rc(t.leaf, t.rc);
    return t;
}
static void make_path_e(bool throwing)
{
    vp_enable("make_path_e", 1);
    u32 shift  = pick_shift();
    u64 start  = any_start();
    auto tail  = any_tail(start);
    u64 blocks = vp_live(), allocs = g_allocs;
    node_t* r  = nullptr;
    bool threw = may_throw(throwing, [&] { r = node_t::make_path_e(the_edit(), shift, tail.leaf); });
    start_walk();
    g_dead = g_fresh = 0;
    if (!threw) {
        walk(r, shift, start, LEAF, false, true);
        vp_assert(g_allocs - allocs == 1, "share: one node is allocated per level");
        if (GC)
            vp_assert(is_owned(r), "frame: the new nodes are owned by the edit");
    }
    account_old(tail.leaf, tail.rc - (threw ? 0 : 1), "rc: the leaf is not released while it is referred to",
                "rc: the leaf has as many owners as refer to it");
    account_new(&tail.leaf, 1);
    if (!GC)
        vp_assert(vp_live() == blocks - g_dead + g_fresh, "rc: exactly the blocks nobody refers to any more are released");
}
VP_HARNESS(rbt_make_path_e) { make_path_e(false); }
VP_HARNESS(rbt_make_path_e_throw) { make_path_e(true); }

// ---- push_tail; Mut: the reference to the subtree is consumed with success, and it may be updated in place
static node_t* pushed(node_t* n, view_t v, node_t* tail, bool mut)
{
    vp_assert(vp_is_alive(tail), "mem: the leaf added is live");
    auto l = leaf_view(tail);
    vp_assert(vp_and(l.shift == 0, l.start == v.start + v.size), "contract push_tail: the leaf belongs after the subtree");
    vp_assert(v.shift >= BL, "contract push_tail: a leaf is added to an inner node");
    vp_assert(vp_implies(v.reg, v.size < u64{BR} << v.shift), "contract push_tail: a regular subtree has place for the leaf");
    callee_throws();
    if (!v.reg) {
        if (vp_bool("callee.full"))
            return nullptr;
        vp_assume(v.size + l.size <= u64{BR} << v.shift);
    }
    if (mut && can_mutate(n)) {
        vp_assert(vp_not(vp_ggetb(n, SHARED)), "frame: what others refer to is not updated in place");
        vp_gset(n, SIZE, v.size + l.size);
        vp_gsetp(n, ABSORBED, tail);
        return n;
    }
    auto r = fresh(v.shift, v.start, v.size + l.size, v.reg, false, true);
    vp_gsetp(r, ABSORBED, tail);
    if (mut)
        drop_ref(n);
    return r;
}
template <typename Pos, bool Mut>
static node_t* c_push(Pos& p, edit_t e, node_t* tail)
{
    return pushed(p.node_, enter(p), tail, Mut);
}
template <typename Pos, bool Mut>
static node_t* c_push_ts(Pos& p, edit_t e, node_t* tail, count_t& ts)
{
    auto v = enter(p);
    vp_assert(ts == leaf_view(tail).size, "contract push_tail: the leaf has the given size");
    return pushed(p.node_, v, tail, Mut);
}
template <bool Mut>
static node_t* c_push_sub(node_t* n, shift_t shift, size_t size, edit_t& e, node_t*& tail, count_t& ts)
{
    auto v = enter(n, shift, size);
    vp_assert(ts == leaf_view(tail).size, "contract push_tail: the leaf has the given size");
    return pushed(n, v, tail, Mut);
}
#define C_PUSH(POS) c_push<POS, true>
#define C_PUSH_TS(POS) c_push_ts<POS, true>
#define C_PUSH_NM(POS) c_push<POS, false>
#define C_PUSH_TS_NM(POS) c_push_ts<POS, false>
#define RX_PUSH "push_tail_mut_visitor<.*, 2u, 2u>, true>"
#define RX_PUSH_NM "push_tail_mut_visitor<.*, 2u, 2u>, false>"
VP_INNER_CONTRACTS(push, RX_PUSH, C_PUSH)
VP_INNER_CONTRACTS(push_ts, RX_PUSH, C_PUSH_TS)
VP_SUB_CONTRACT(push, RX_PUSH, c_push_sub<true>)
VP_INNER_CONTRACTS(push_nm, RX_PUSH_NM, C_PUSH_NM)
VP_INNER_CONTRACTS(push_ts_nm, RX_PUSH_NM, C_PUSH_TS_NM)
VP_SUB_CONTRACT(push_nm, RX_PUSH_NM, c_push_sub<false>)

template <bool Mut>
static void push_tail(int throwing)
{
    vp_enable("push_*", 2);
    vp_enable("make_path_e", 2);
    vp_enable("dec_*", 2);
    place_t t;
    any_node(t, Mut);
    auto& p  = t.p;
    bool can = p.can;
    vp_assume(vp_implies(p.kind != RELAXED, p.size < u64{BR} << p.shift));
    auto tail = any_tail(p.start + p.size);
    built(p);
    auto leaf  = tail.leaf;
    auto e     = the_edit();
    count_t ts = LEAF;
    node_t* r  = nullptr;
    using v_t  = rbts::push_tail_mut_visitor<node_t, Mut>;
    bool threw = may_throw(throwing, [&] {
        if (p.kind == RELAXED)
            r = rbts::make_relaxed_pos(p.node, p.shift, p.rel).visit(v_t{}, e, leaf, ts);
        else if (t.how == BY_REGULAR)
            r = rbts::make_regular_pos(p.node, p.shift, t.over + p.size).visit(v_t{}, e, leaf);
        else
            r = rbts::make_regular_sub_pos(p.node, p.shift, p.size).visit(v_t{}, e, leaf);
    }, &p);
    bool done = !threw && r;
    start_walk();
    if (done) {
        walk(r, p.shift, p.start, p.size + LEAF, false, p.kind != RELAXED);
        if (can)
            vp_assert(vp_and(r == p.node, g_allocs - p.allocs <= (p.rcan || p.kind != RELAXED ? 1 : 2)), "share: what is exclusively ours is updated in place");
        else
            vp_assert(vp_and(r != p.node, g_allocs - p.allocs <= (EMBED ? 1 : 2) + 1), "share: one node is allocated per level");
        if (GC)
            vp_assert(is_owned(r), "frame: the new nodes are owned by the edit");
    } else if (Mut)
        walk(p.node, p.shift, p.start, p.size, false, p.kind != RELAXED); // nothing has changed
    if (!threw && !r)
        vp_assert(p.kind == RELAXED, "wf: a regular node takes the leaf");
    account(p, Mut ? 1 : 0, leaf, tail.rc - (done ? 1 : 0));
}
VP_HARNESS(rbt_push_tail_mut) { push_tail<true>(false); }
VP_HARNESS(rbt_push_tail_mut_throw) { push_tail<true>(THROWS); }
VP_HARNESS(rbt_push_tail_mut_meanwhile) { push_tail<true>(MEANWHILE); }
VP_HARNESS(rbt_push_tail_nm) { push_tail<false>(false); }
VP_HARNESS(rbt_push_tail_nm_throw) { push_tail<false>(true); }

// ---- slice_right; Mut: the reference to the subtree is consumed with success, and it may be updated in place
using right_t = std::tuple<shift_t, node_t*, count_t, node_t*>;
static right_t sliced_right(node_t* n, view_t v, u64 last, bool collapse, bool mut)
{
    callee_throws();
    bool can = mut && can_mutate(n);
    if (can)
        vp_assert(vp_not(vp_ggetb(n, SHARED)), "frame: what others refer to is not updated in place");
    if (v.shift == 0) {
        if (last + 1 == v.size) {
            if (!mut && !GC)
                set_rc(n, get_rc(n) + 1);
            return right_t{0, nullptr, (count_t) (last + 1), n};
        }
        if (can) {
            vp_gset(n, SIZE, last + 1);
            return right_t{0, nullptr, (count_t) (last + 1), n};
        }
        auto r = fresh(0, v.start, last + 1, true, false, true);
        if (mut)
            drop_ref(n);
        return right_t{0, nullptr, (count_t) (last + 1), r};
    }
    u64 ts = vp_u32("callee.last leaf");
    vp_assume(vp_and(vp_and(ts >= 1, ts <= LEAF), ts <= last + 1));
    if (v.reg)
        vp_assume(ts == (last & (LEAF - 1)) + 1);
    auto tail = fresh(0, v.start + last + 1 - ts, ts, true, false, vp_bool("callee.owned"));
    u64 left  = last + 1 - ts;
    if (left == 0) {
        if (mut)
            drop_ref(n);
        return right_t{v.shift, nullptr, (count_t) ts, tail};
    }
    u64 shift = v.shift;
    bool reg  = v.reg;
    if (collapse) {
        shift = vp_u32("callee.shift");
        vp_assume(vp_and(vp_and(shift >= BL, shift <= v.shift), (shift - BL) % B == 0));
        if (!reg)
            reg = vp_bool("callee.regular");
        vp_assume(vp_implies(reg, (left & (LEAF - 1)) == 0));
        vp_assume(left <= u64{BR} << shift);
    } else if (can) {
        vp_gset(n, SIZE, left);
        return right_t{(shift_t) shift, n, (count_t) ts, tail};
    }
    auto r = fresh_any(shift, v.start, left, reg, collapse ? vp_bool("callee.owned") : true);
    if (mut)
        drop_ref(n);
    return right_t{(shift_t) shift, r, (count_t) ts, tail};
}
template <typename Pos, bool Collapse, bool Mut>
static right_t c_right(Pos& p, size_t last, edit_t e)
{
    auto v = enter(p);
    return sliced_right(p.node_, v, local(v, last), Collapse, Mut);
}
template <bool Collapse, bool Mut>
static right_t c_right_sub(node_t* n, shift_t shift, size_t size, size_t& last, edit_t& e)
{
    auto v = enter(n, shift, size);
    return sliced_right(n, v, exact(v, last), Collapse, Mut);
}
#define SLICE_CONTRACTS(KEY, RX, C, M)                                                                                 \
    VP_LEAF_CONTRACTS(KEY##C##M, RX #C ", " #M ">", C_SLICE_##KEY##_##C##_##M)                                          \
    VP_INNER_CONTRACTS(KEY##C##M, RX #C ", " #M ">", C_SLICE_##KEY##_##C##_##M)                                         \
    VP_SUB_CONTRACT(KEY##C##M, RX #C ", " #M ">", c_##KEY##_sub<C, M>)
#define C_SLICE_right_true_true(POS) c_right<POS, true, true>
#define C_SLICE_right_true_false(POS) c_right<POS, true, false>
#define C_SLICE_right_false_true(POS) c_right<POS, false, true>
#define C_SLICE_right_false_false(POS) c_right<POS, false, false>
#define RX_RIGHT "slice_right_mut_visitor<.*, 2u, 2u>, "
SLICE_CONTRACTS(right, RX_RIGHT, true, true)
SLICE_CONTRACTS(right, RX_RIGHT, true, false)
SLICE_CONTRACTS(right, RX_RIGHT, false, true)
SLICE_CONTRACTS(right, RX_RIGHT, false, false)

template <bool Collapse, bool Mut>
static void slice_right(int throwing)
{
    vp_enable("right*", 2);
    vp_enable("dec_*", 2);
    place_t t;
    any_node(t, Mut);
    auto& p  = t.p;
    bool can = p.can;
    u64 at   = vp_u64("position");
    vp_assume(at < p.size);
    size_t last = t.over + at;
    auto e      = the_edit();
    right_t r;
    bool threw = may_throw(throwing, [&] { r = visit(t, rbts::slice_right_mut_visitor<node_t, Collapse, Mut>{}, last, e); }, &p);
    start_walk();
    if (!threw) {
        auto shift = std::get<0>(r);
        auto node  = std::get<1>(r);
        u64 ts     = std::get<2>(r);
        auto tail  = std::get<3>(r);
        vp_assert(vp_and(vp_and(ts >= 1, ts <= LEAF), ts <= at + 1), "wf: the last leaf is not empty and no longer than what is kept");
        u64 left = at + 1 - ts;
        if (node) {
            vp_assert(left != 0, "wf: a tree without elements is null");
            if (Collapse)
                vp_assert(vp_and(vp_and(shift >= BL, shift <= p.shift), (shift - BL) % B == 0), "wf: the depth of the result");
            else
                vp_assert(shift == p.shift, "wf: the depth of the result");
            walk(node, shift, p.start, left, false, p.kind != RELAXED);
        } else
            vp_assert(left == 0, "view: no element is lost");
        walk(tail, 0, p.start + left, ts, false, false);
        vp_assert(g_allocs - p.allocs <= (EMBED || p.kind != RELAXED ? 1 : 2), "share: one node is allocated per level");
        if (can && !Collapse && node)
            vp_assert(node == p.node, "share: what is exclusively ours is updated in place");
    } else if (Mut)
        walk(p.node, p.shift, p.start, p.size, false, p.kind != RELAXED); // nothing has changed
    account(p, Mut ? 1 : 0);
}
VP_HARNESS(rbt_slice_right_mut) { slice_right<true, true>(false); }
VP_HARNESS(rbt_slice_right_mut_throw) { slice_right<true, true>(THROWS); }
VP_HARNESS(rbt_slice_right_mut_meanwhile) { slice_right<true, true>(MEANWHILE); }
VP_HARNESS(rbt_slice_right_nc_mut) { slice_right<false, true>(false); }
VP_HARNESS(rbt_slice_right_nc_mut_throw) { slice_right<false, true>(THROWS); }
VP_HARNESS(rbt_slice_right_nc_mut_meanwhile) { slice_right<false, true>(MEANWHILE); }
VP_HARNESS(rbt_slice_right_nm) { slice_right<true, false>(false); }
VP_HARNESS(rbt_slice_right_nm_throw) { slice_right<true, false>(true); }
VP_HARNESS(rbt_slice_right_nc_nm) { slice_right<false, false>(false); }
VP_HARNESS(rbt_slice_right_nc_nm_throw) { slice_right<false, false>(true); }

template <bool Mut>
static void slice_right_leaf(bool throwing)
{
    leaf_t l;
    unsigned n = 1 + vp_case(LEAF, "elements"), how = leaf_how(n);
    bool can   = Mut && vp_case(2, "exclusively ours");
    build_leaf(l, any_start(), n, Mut, can);
    u64 over = vp_u64("positions above"), at = vp_u64("position");
    vp_assume(over < (u64{1} << 60));
    vp_assume(at < n);
    size_t last = how == 0 ? at : (over << BL) + at;
    auto e      = the_edit();
    right_t r;
    bool threw = may_throw(
        throwing, [&] { r = visit_leaf(l, how, over, rbts::slice_right_mut_visitor<node_t, true, Mut>{}, last, e); });
    start_walk();
    if (!threw) {
        vp_assert(std::get<1>(r) == nullptr, "wf: nothing is left of a leaf taken out");
        vp_assert(std::get<2>(r) == at + 1, "wf: the leaf is cut to size");
        walk(std::get<3>(r), 0, l.start, at + 1, false, false);
    } else if (Mut)
        walk(l.node, 0, l.start, n, false, false); // nothing has changed
    account_leaf(l, Mut ? 1 : 0);
}
VP_HARNESS(rbt_slice_right_leaf_mut) { slice_right_leaf<true>(false); }
VP_HARNESS(rbt_slice_right_leaf_mut_throw) { slice_right_leaf<true>(true); }
VP_HARNESS(rbt_slice_right_leaf_nm) { slice_right_leaf<false>(false); }
VP_HARNESS(rbt_slice_right_leaf_nm_throw) { slice_right_leaf<false>(true); }

// ---- slice_left; Mut: the reference to the subtree is consumed with success, and it may be updated in place
using left_t = std::tuple<shift_t, node_t*>;
static left_t sliced_left(node_t* n, view_t v, u64 first, bool collapse, bool mut)
{
    callee_throws();
    bool can = mut && can_mutate(n);
    if (can)
        vp_assert(vp_not(vp_ggetb(n, SHARED)), "frame: what others refer to is not updated in place");
    if (v.shift == 0) {
        if (can) {
            vp_gset(n, START, v.start + first);
            vp_gset(n, SIZE, v.size - first);
            return left_t{0, n};
        }
        auto r = fresh(0, v.start + first, v.size - first, true, false, true);
        if (mut)
            drop_ref(n);
        return left_t{0, r};
    }
    u64 shift = v.shift;
    if (collapse) {
        shift = vp_u32("callee.shift");
        vp_assume(vp_and(vp_and(shift >= BL, shift <= v.shift), (shift - BL) % B == 0));
        vp_assume(v.size - first <= u64{BR} << shift);
    } else if (can && !(EMBED && v.reg)) {
        vp_gset(n, START, v.start + first);
        vp_gset(n, SIZE, v.size - first);
        vp_gsetb(n, REG, false);
        return left_t{(shift_t) shift, n};
    }
    auto r = fresh_any(shift, v.start + first, v.size - first, false, collapse ? vp_bool("callee.owned") : true);
    if (mut)
        drop_ref(n);
    return left_t{(shift_t) shift, r};
}
template <typename Pos, bool Collapse, bool Mut>
static left_t c_left(Pos& p, size_t first, edit_t e)
{
    auto v = enter(p);
    return sliced_left(p.node_, v, v.shift == 0 ? local(v, first) : exact(v, first), Collapse, Mut);
}
template <bool Collapse, bool Mut>
static left_t c_left_sub(node_t* n, shift_t shift, size_t size, size_t& first, edit_t& e)
{
    auto v = enter(n, shift, size);
    return sliced_left(n, v, exact(v, first), Collapse, Mut);
}
#define C_SLICE_left_true_true(POS) c_left<POS, true, true>
#define C_SLICE_left_true_false(POS) c_left<POS, true, false>
#define C_SLICE_left_false_true(POS) c_left<POS, false, true>
#define C_SLICE_left_false_false(POS) c_left<POS, false, false>
#define RX_LEFT "slice_left_mut_visitor<.*, 2u, 2u>, "
SLICE_CONTRACTS(left, RX_LEFT, true, true)
SLICE_CONTRACTS(left, RX_LEFT, true, false)
SLICE_CONTRACTS(left, RX_LEFT, false, true)
SLICE_CONTRACTS(left, RX_LEFT, false, false)

template <bool Collapse, bool Mut>
static void slice_left(int mode)
{
    vp_enable("left*", 2);
    vp_enable("dec_*", 2);
    place_t t;
    any_node(t, Mut);
    auto& p = t.p;
    u64 at  = vp_u64("position");
    vp_assume(at < p.size);
    t.over       = 0;
    size_t first = at;
    auto e       = the_edit();
    left_t r;
    bool threw = may_throw(mode, [&] { r = visit_sub(t, rbts::slice_left_mut_visitor<node_t, Collapse, Mut>{}, first, e); }, &p);
    start_walk();
    if (!threw) {
        auto shift = std::get<0>(r);
        auto node  = std::get<1>(r);
        if (Collapse)
            vp_assert(vp_and(vp_and(shift >= BL, shift <= p.shift), (shift - BL) % B == 0), "wf: the depth of the result");
        else
            vp_assert(shift == p.shift, "wf: the depth of the result");
        walk(node, shift, p.start + at, p.size - at, false, false);
        vp_assert(g_allocs - p.allocs <= (EMBED ? 1 : 2), "share: one node is allocated per level");
        if (p.can && !Collapse && p.kind == RELAXED)
            vp_assert(node == p.node, "share: what is exclusively ours is updated in place");
    } else if (Mut)
        walk(p.node, p.shift, p.start, p.size, false, p.kind != RELAXED); // nothing has changed
    account(p, Mut ? 1 : 0);
}
VP_HARNESS(rbt_slice_left_mut) { slice_left<true, true>(PLAIN); }
VP_HARNESS(rbt_slice_left_mut_throw) { slice_left<true, true>(THROWS); }
VP_HARNESS(rbt_slice_left_mut_meanwhile) { slice_left<true, true>(MEANWHILE); }
VP_HARNESS(rbt_slice_left_nc_mut) { slice_left<false, true>(PLAIN); }
VP_HARNESS(rbt_slice_left_nc_mut_throw) { slice_left<false, true>(THROWS); }
VP_HARNESS(rbt_slice_left_nc_mut_meanwhile) { slice_left<false, true>(MEANWHILE); }
VP_HARNESS(rbt_slice_left_nm) { slice_left<true, false>(PLAIN); }
VP_HARNESS(rbt_slice_left_nm_throw) { slice_left<true, false>(THROWS); }
VP_HARNESS(rbt_slice_left_nc_nm) { slice_left<false, false>(PLAIN); }
VP_HARNESS(rbt_slice_left_nc_nm_throw) { slice_left<false, false>(THROWS); }

template <bool Mut>
static void slice_left_leaf(int mode)
{
    leaf_t l;
    unsigned n = 1 + vp_case(LEAF, "elements"), how = leaf_how(n);
    bool can   = Mut && vp_case(2, "exclusively ours");
    build_leaf(l, any_start(), n, Mut, can);
    u64 over = vp_u64("positions above"), at = vp_u64("position");
    vp_assume(over < (u64{1} << 60));
    vp_assume(at < n);
    size_t first = how == 0 ? at : (over << BL) + at;
    auto e       = the_edit();
    left_t r;
    bool threw = may_throw(mode, [&] { r = visit_leaf(l, how, over, rbts::slice_left_mut_visitor<node_t, true, Mut>{}, first, e); });
    start_walk();
    if (!threw)
        walk(std::get<1>(r), 0, l.start + at, l.n - at, false, false);
    else if (Mut)
        walk(l.node, 0, l.start, n, false, false); // nothing has changed
    account_leaf(l, Mut ? 1 : 0);
}
VP_HARNESS(rbt_slice_left_leaf_mut) { slice_left_leaf<true>(PLAIN); }
VP_HARNESS(rbt_slice_left_leaf_mut_throw) { slice_left_leaf<true>(THROWS); }
VP_HARNESS(rbt_slice_left_leaf_nm) { slice_left_leaf<false>(PLAIN); }
VP_HARNESS(rbt_slice_left_leaf_nm_throw) { slice_left_leaf<false>(THROWS); }
