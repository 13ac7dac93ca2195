// Concatenation of radix balanced trees: the plan, one step of the merge in any state, one level of the descent, and
// the two entry points.  Together they discharge what rbt_tree.cpp takes for granted of concat_trees().
#include "rbt.hpp"
using center_t = rbts::concat_center_pos<node_t>;
using merger_t = rbts::concat_merger<node_t>;
using plan_t   = rbts::concat_rebalance_plan<B, BL>;
constexpr unsigned MAXN = plan_t::max_children;
enum { SLOTS = 20 };

// ---- the plan: how many slots each of the new nodes gets
static void shuffle(unsigned lo, unsigned hi)
{
    plan_t plan;
    unsigned n = lo + vp_case(hi - lo + 1, "nodes");
    u64 total  = 0;
    for (unsigned i = 0; i < n; ++i) {
        u32 c = vp_u32("slots");
        vp_assume(vp_and(c >= 1, c <= BR));
        plan.counts[i] = c;
        total += c;
    }
    plan.n     = n;
    plan.total = (u32) total;
    u32 shift  = vp_case(2, "level") ? BL : BL + B;
    plan.shuffle(shift);
    u64 m = vp_conc(plan.n), sum = 0;
    vp_assert(vp_and(m >= 1, m <= n), "plan: no more nodes than there were");
    for (unsigned i = 0; i < m; ++i) {
        vp_assert(vp_and(plan.counts[i] >= 1, plan.counts[i] <= BR), "plan: a node has at least one slot and no more than fit");
        sum += plan.counts[i];
    }
    vp_assert(sum == total, "plan: the nodes have as many slots as before");
    vp_assert(m <= (total + BR - 1) / BR + 1, "plan: at most one node more than needed");
}
VP_HARNESS(concat_shuffle) { shuffle(1, 6); }
VP_HARNESS(concat_shuffle_7) { shuffle(7, 7); }
VP_HARNESS(concat_shuffle_8) { shuffle(8, 8); }
VP_HARNESS(concat_shuffle_9) { shuffle(9, 9); }

// ---- a list of subtrees whose owners are counted
struct owned_t
{
    node_t* n;
    int rc;   // before
    int held; // references held by what is given up
};
static owned_t g_old[48];
static unsigned g_nold;
static u64 g_blocks0, g_elems0;
inline void remember(node_t* n, int rc) { g_old[g_nold++] = {n, rc, 0}; }
inline node_t* subtree(u32 shift, u64 start, u64 size, bool reg, const char* nm)
{
    auto n = opaque(shift, start, size, reg, false, nm);
    int rc = any_rc("sub.rc");
    set_rc(n, rc);
    remember(n, rc);
    return n;
}
inline u64 any_size(u32 parent) // of a subtree of a node of that shift
{
    u64 s = vp_u64("sub.size");
    vp_assume(vp_and(s >= 1, s <= u64{1} << parent));
    return s;
}
// the blocks of the real nodes given up count as dead
static void account_all(u64 gone)
{
    g_dead = g_fresh = 0;
    for (unsigned i = 0; i < g_nold; ++i) {
        auto& o = g_old[i];
        if (GC)
            continue;
        int want = o.rc + refs_to(o.n);
        if (!vp_is_alive(o.n)) {
            vp_assert(want == 0, "rc: a subtree is not released while it is referred to");
            ++g_dead;
        } else
            vp_assert(vp_and(get_rc(o.n) == want, want != 0), "rc: a subtree has as many owners as nodes refer to it");
    }
    for (unsigned i = 0; i < g_nseen; ++i) {
        bool dup = false;
        for (unsigned j = 0; j < i; ++j)
            dup |= g_seen[j] == g_seen[i];
        for (unsigned j = 0; j < g_nold; ++j)
            dup |= g_old[j].n == g_seen[i];
        if (dup)
            continue;
        ++g_fresh;
        if (!GC)
            vp_assert(get_rc(g_seen[i]) == refs_to(g_seen[i]), "rc: a new node has as many owners as refer to it");
    }
    if (!GC)
        vp_assert(vp_live() == g_blocks0 - gone - g_dead + g_fresh, "rc: exactly the blocks nobody refers to any more are released");
}

// ---- one step of the merge, in any state of the merger
static void fits_n(rbts::relaxed_pos<node_t>& p, view_t v)
{
    vp_assert(vp_and(v.shift != 0, p.shift_ == v.shift), "contract: a subtree is visited with its shift");
    vp_assert(vp_not(v.reg), "contract: a subtree visited as relaxed is");
}
static void c_dec_relaxed(rbts::relaxed_pos<node_t>& p)
{
    if (!vp_is_opaque(p.node_))
        vp_decline();
    vp_assert(vp_is_alive(p.node_), "mem: a subtree visited is live");
    fits_n(p, view(p.node_));
    drop_ref(p.node_);
}
VP_CONTRACT_T(dec_relaxed, VP_VISIT_RX("dec_visitor", "relaxed_pos"), c_dec_relaxed)

static relaxed_t g_rel;
static relaxed_t* c_relaxed(node_t* n)
{
    if (!vp_is_opaque(n))
        vp_decline();
    return vp_ggetb(n, REG) ? nullptr : &g_rel;
}
VP_CONTRACT(rel_of, "rbts::node<.*>::relaxed\\(\\)", c_relaxed)

static void merge_step(bool leaf, bool few, int mode, unsigned kind = 3)
{
    vp_enable("dec_*", 2);
    vp_enable("rel_of", 2);
    vp_enable("compute_shift", 2);
    u32 shift = leaf ? BL : few ? 4 : (vp_case(2, "depth") ? 34 : 4); // of the new nodes
    // the nodes already made: all but the last one are full
    unsigned c = 1 + vp_case(few ? 2 : 3, "nodes"), k = vp_case(BR + 1, "children");
    if (few && k > 0 && k < BR - 1)
        vp_end();
    if (few && c == 2 && k != 1)
        vp_end();
    if (c > 1 && k == 0)
        vp_end();
    unsigned used = (c - 1) * BR + k;
    if (used >= MAXN)
        vp_end();
    unsigned m = 1 + vp_case(MAXN - used < BR + 1 ? MAXN - used : BR + 1, "nodes to come");
    count_t counts[BR + 2];
    u64 plan    = 0;
    unsigned t  = vp_case(BR, "slots taken"); // of the node that is being filled
    counts[0]   = 1 + vp_case(BR, "slots of the next node");
    if (t >= counts[0])
        vp_end();
    plan = counts[0];
    for (unsigned i = 1; i < m; ++i) {
        u32 x = vp_u32("slots");
        vp_assume(vp_and(x >= 1, x <= BR));
        counts[i] = x;
        plan += x;
    }
    unsigned how   = leaf ? 0 : kind < 3 ? kind : vp_case(3, "kind of node");
    unsigned n     = !leaf && how == 2 ? BR : 1 + vp_case(BR, "slots of the source");
    vp_assume(plan >= t + n); // the plan is about all the sources
    u64 start      = any_start(), at = start;
    g_nold         = 0;
    merger_t mg{(shift_t) shift, counts, k + m};
    auto& res      = mg.result_;
    auto last      = res.nodes_[0];
    u64 upto       = 0;
    for (unsigned i = 0; i + 1 < c; ++i) {
        u64 sz        = any_size(shift + B);
        res.nodes_[i] = subtree(shift, at, sz, false, "node already made");
        at += sz;
        upto += sz;
        res.sizes_[i] = upto;
    }
    res.nodes_[c - 1] = last;
    res.count_        = c;
    u64 inlast        = 0;
    for (unsigned i = 0; i < k; ++i) {
        u64 sz             = any_size(shift);
        last->inner()[i]   = subtree(shift - B, at, sz, false, "child already there");
        at += sz;
        inlast += sz;
        last->relaxed()->d.sizes[i] = inlast;
    }
    last->relaxed()->d.count = k;
    res.sizes_[c - 1]        = upto + inlast;
    // the node being filled
    if (t) {
        mg.to_offset_ = t;
        if (leaf) {
            mg.to_ = node_t::make_leaf_n(counts[0]);
            for (unsigned i = 0; i < t; ++i, ++at)
                new (mg.to_->leaf() + i) E{at, S(at)};
        } else {
            mg.to_ = node_t::make_inner_r_n(counts[0]);
            u64 s  = 0;
            for (unsigned i = 0; i < t; ++i) {
                u64 sz              = any_size(shift - B);
                mg.to_->inner()[i] = shift - B == BL ? subtree(0, at, vp_ite(sz > LEAF, LEAF, sz), false, "slot") : subtree(shift - 2 * B, at, sz, false, "slot");
                at += sz;
                s += sz;
                mg.to_->relaxed()->d.sizes[i] = s;
            }
            mg.to_size_ = s;
        }
    }
    pre_t p;
    leaf_t l;
    u64 fsize;
    if (leaf) {
        build_leaf(l, at, n, false, false);
        fsize = n;
    } else {
        build(p, how == 0 ? RELAXED : how == 1 ? REGULAR : FULL, shift - B, at, n, false, false);
        fsize = p.size;
        for (unsigned i = 0; i < n; ++i)
            remember(p.child[i], p.crc[i] - 1);
    }
    auto from = leaf ? l.node : p.node;
    g_blocks0 = vp_live();
    g_elems0  = g_elems;
    auto plan0 = mg.curr_;
    bool threw = may_throw(mode, [&] {
        if (leaf) {
            if (n == LEAF && vp_case(2, "full")) {
                auto pos = rbts::make_full_leaf_pos(l.node);
                mg.merge_leaf(pos);
            } else {
                auto pos = rbts::make_leaf_sub_pos(l.node, n);
                mg.merge_leaf(pos);
            }
        } else if (how == 0) {
            auto pos = rbts::make_relaxed_pos(p.node, p.shift, p.rel);
            mg.merge_inner(pos);
        } else if (how == 1) {
            auto pos = rbts::make_regular_sub_pos(p.node, p.shift, p.size);
            mg.merge_inner(pos);
        } else {
            auto pos = rbts::make_full_pos(p.node, p.shift);
            mg.merge_inner(pos);
        }
    });
    start_walk();
    u64 frc = leaf ? l.rc : p.rc;
    if (threw) {
        // abort() releases what was made so far, and the source is as it was
        for (unsigned i = 0; i < g_nold; ++i)
            if (leaf || i < g_nold - n)
                g_old[i].rc -= 1;
        unsigned extra = t ? 1 : 0; // blocks of the harness which are given up: the last node, the one being filled
        mg.abort();
        vp_assert(vp_is_alive(from), "rc: the source is not released");
        if (!GC)
            vp_assert((u64) get_rc(from) == frc, "rc: the source keeps its owners");
        if (!leaf)
            for (unsigned i = 0; i < n; ++i)
                see(p.child[i]);
        account_all(1 + extra);
        if (!GC && leaf)
            vp_assert(g_elems == g_elems0 - t, "life: the elements made are destroyed");
        return;
    }
    // the abstract value: what was there, then the source
    u64 pos     = start;
    unsigned rc = vp_conc(res.count_), added = 0;
    vp_assert(vp_and(rc >= c, rc <= center_t::max_children), "merge: no more nodes than fit");
    for (unsigned i = 0; i < g_nold; ++i)
        if (leaf || i < g_nold - n)
            g_old[i].rc -= 1; // referred to from the nodes that are walked
    u64 prev = 0;
    for (unsigned i = 0; i < rc; ++i) {
        auto x = res.nodes_[i];
        vp_assert(vp_is_alive(x), "mem: the nodes of the result are live");
        bool is_last = i + 1 == rc;
        if (vp_is_opaque(x)) {
            see(x);
            auto v = view(x);
            vp_assert(vp_and(v.start == pos, res.sizes_[i] == prev + v.size), "view: the elements of the result, in their places");
        } else {
            u64 cnt = vp_conc(x->relaxed()->d.count);
            if (!is_last)
                vp_assert(cnt == BR, "merge: only the last node is not full");
            added += cnt;
            if (cnt)
                walk(x, shift, pos, res.sizes_[i] - prev, false, false);
            else {
                see(x);
                vp_assert(res.sizes_[i] == prev, "view: a node has the size its parent thinks it has");
            }
            if (is_last)
                vp_assert(mg.n_ == cnt + m - (mg.curr_ - plan0), "merge: the last node has place for what is to come");
        }
        pos += res.sizes_[i] - prev;
        prev = res.sizes_[i];
    }
    vp_assert(added == k + (mg.curr_ - plan0), "merge: a node for every number of the plan");
    u64 elems = g_leaf_elems;
    if (mg.to_) {
        see(mg.to_);
        unsigned o = vp_conc(mg.to_offset_);
        vp_assert(vp_and(o >= 1, o < *mg.curr_), "merge: the node being filled has place");
        if (leaf) {
            walk_leaf(mg.to_, pos, o, false);
            pos += o;
        } else {
            u64 s = 0;
            for (unsigned i = 0; i < o; ++i) {
                u64 e = mg.to_->relaxed()->d.sizes[i];
                walk(mg.to_->inner()[i], shift - 2 * B, pos, e - s, false, false);
                pos += e - s;
                s = e;
            }
            vp_assert(mg.to_size_ == s, "view: a node has the size its parent thinks it has");
        }
    }
    vp_assert(pos == at + fsize, "view: the elements of the result, in their places");
    // the source: shared as it is, or its parts
    if (!GC) {
        vp_assert(vp_is_alive(from), "rc: the source is not released");
        vp_assert((u64) get_rc(from) == frc + refs_to(from), "rc: a subtree has as many owners as nodes refer to it");
    }
    remember(from, (int) frc);
    if (!leaf && !walked(from))
        for (unsigned i = 0; i < n; ++i)
            see(p.child[i]);
    account_all(1 + (t ? 1 : 0));
    if (!GC && leaf) {
        u64 src = walked(from) ? 0 : n;
        vp_assert(g_elems == g_elems0 - t - n + src + g_leaf_elems, "life: every element is either destroyed or part of the result");
    }
    (void) elems;
}
VP_HARNESS(concat_merge_leaf) { merge_step(true, false, PLAIN); }
VP_HARNESS(concat_merge_leaf_few) { merge_step(true, true, PLAIN); }
VP_HARNESS(concat_merge_leaf_throw) { merge_step(true, true, THROWS); }
VP_HARNESS(concat_merge_inner_relaxed) { merge_step(false, false, PLAIN, 0); }
VP_HARNESS(concat_merge_inner_regular) { merge_step(false, false, PLAIN, 1); }
VP_HARNESS(concat_merge_inner_full) { merge_step(false, false, PLAIN, 2); }
VP_HARNESS(concat_merge_inner_relaxed_few) { merge_step(false, true, PLAIN, 0); }
VP_HARNESS(concat_merge_inner_regular_few) { merge_step(false, true, PLAIN, 1); }
VP_HARNESS(concat_merge_inner_full_few) { merge_step(false, true, PLAIN, 2); }
VP_HARNESS(concat_merge_inner_relaxed_throw) { merge_step(false, true, THROWS, 0); }
VP_HARNESS(concat_merge_inner_regular_throw) { merge_step(false, true, THROWS, 1); }
VP_HARNESS(concat_merge_inner_full_throw) { merge_step(false, true, THROWS, 2); }

// ---- one level of the descent, by contract for the steps above and for the levels below
static relaxed_t* g_rels[48]; // the tables of subtrees that are known by their contracts only
static node_t* g_relof[48];
static unsigned g_nrels;
static u64 g_from, g_pos; // the elements merged so far
static u64 g_slots, g_total;
static bool g_merging;
static u32 g_level; // shift of the nodes that are merged
static pre_t *g_l, *g_r;
static node_t* g_first; // the node the merger starts with

static relaxed_t* c_table(node_t* n)
{
    if (!vp_is_opaque(n))
        vp_decline();
    vp_assert(vp_is_alive(n), "mem: a subtree visited is live");
    if (vp_ggetb(n, REG))
        return nullptr;
    for (unsigned i = 0; i < g_nrels; ++i)
        if (g_relof[i] == n)
            return g_rels[i];
    auto r     = new (vp_alloc(sizeof(relaxed_t), "table of a subtree")) relaxed_t;
    u32 c      = vp_u32("slots of a subtree");
    vp_assume(vp_and(vp_and(c >= 1, c <= BR), c <= vp_gget(n, SIZE)));
    r->d.count = c;
    for (unsigned i = 0; i < BR; ++i)
        r->d.sizes[i] = vp_ite(i + 1 == c, vp_gget(n, SIZE), vp_u64("sizes of a subtree"));
    g_rels[g_nrels]    = r;
    g_relof[g_nrels++] = n;
    return r;
}
VP_CONTRACT(lvl_table, "rbts::node<.*>::relaxed\\(\\)", c_table)

inline void fits(rbts::relaxed_pos<node_t>& p, view_t v)
{
    vp_assert(vp_and(v.shift != 0, p.shift_ == v.shift), "contract: a subtree is visited with its shift");
    vp_assert(vp_not(v.reg), "contract: a subtree visited as relaxed is");
}
template <typename P>
static void c_merge(merger_t& m, P& p)
{
    auto v = enter(p);
    if (!g_merging)
        vp_decline();
    if (g_slots == 0)
        g_from = g_pos = v.start, g_first = m.result_.nodes_[0];
    vp_assert(v.start == g_pos, "contract concat: the subtrees are merged in their order");
    vp_assert(v.shift == g_level, "contract concat: the subtrees merged are of one height");
    vp_assert(p.size() == v.size, "contract concat: a subtree is merged with its size");
    callee_throws();
    g_pos += v.size;
    g_slots += p.count();
}
#define MERGE_RX(F, POS) "concat_merger<.*>::" F "<immer::detail::rbts::" POS "<"
#define MERGE(KEY, F, POS) VP_CONTRACT_T(lvl_merge_##KEY, MERGE_RX(F, #POS), c_merge<rbts::POS<node_t>>)
MERGE(full_leaf, "merge_leaf", full_leaf_pos)
MERGE(leaf, "merge_leaf", leaf_pos)
MERGE(leaf_sub, "merge_leaf", leaf_sub_pos)
MERGE(full, "merge_inner", full_pos)
MERGE(regular, "merge_inner", regular_pos)
MERGE(regular_sub, "merge_inner", regular_sub_pos)
MERGE(relaxed, "merge_inner", relaxed_pos)

static void c_shuffle(plan_t& p, shift_t shift)
{
    unsigned n = vp_conc(p.n);
    vp_assert(vp_and(n >= 1, n <= MAXN), "contract concat: the plan is about as many nodes as fit");
    u64 sum = 0;
    for (unsigned i = 0; i < n; ++i) {
        vp_assert(vp_and(p.counts[i] >= 1, p.counts[i] <= BR), "contract concat: a node of the plan has its slots");
        sum += p.counts[i];
    }
    vp_assert(p.total == sum, "contract concat: the plan is about all the slots");
    vp_assert((shift == BL) == (g_level == 0), "contract concat: the plan is made for its level");
    g_total = sum;
    if (vp_case(2, "shuffled"))
        p.n = 1;
    u64 s = 0;
    for (unsigned i = 0; i < p.n; ++i) {
        u32 c = vp_u32("slots");
        vp_assume(vp_and(c >= 1, c <= BR));
        p.counts[i] = c;
        s += c;
    }
    (void) s;
}
VP_CONTRACT(lvl_shuffle, "::shuffle\\(", c_shuffle)

static center_t any_center(u32 shift, u64 start, u64 size, bool handed_on = false)
{
    u32 below  = shift - B; // of the nodes
    u64 cap    = u64{BR} << below;
    unsigned c = handed_on ? vp_case(2, "nodes of the result") ? 1 : 3 : 1 + vp_case(3, "nodes of the result");
    center_t r{(shift_t) shift, nullptr, 0};
    r.count_ = c;
    u64 upto = 0;
    for (unsigned i = 0; i < c; ++i) {
        u64 sz = i + 1 == c ? size - upto : vp_u64("callee.size");
        vp_assume(vp_and(vp_and(sz >= 1, sz <= cap), upto + sz <= size));
        r.nodes_[i] = fresh(below, start + upto, sz, false, false, false);
        upto += sz;
        r.sizes_[i] = upto;
    }
    return r;
}
static center_t g_result{0, nullptr, 0};
static center_t c_finish(const merger_t& m)
{
    if (!g_merging)
        vp_decline();
    vp_assert(g_slots == g_total, "contract concat: exactly what was planned is merged");
    g_merging = false;
    vp_free_any(m.result_.nodes_[0]);
    return g_result = any_center(m.result_.shift_, g_from, g_pos - g_from, true);
}
VP_CONTRACT(lvl_finish, "concat_merger<.*>::finish\\(", c_finish)
static void c_abort(merger_t& m)
{
    if (!g_merging)
        vp_decline();
    g_merging = false;
    vp_free_any(m.result_.nodes_[0]);
}
VP_CONTRACT(lvl_abort, "concat_merger<.*>::abort\\(", c_abort)

template <typename P>
static view_t side(P& p, pre_t* real)
{
    if (!real || p.node() != real->node)
        return enter(p);
    vp_assert(vp_and(p.shift() == real->shift, p.size() == real->size), "contract concat: a tree is passed on with its size");
    return {real->node, real->shift, real->start, real->size, false, false};
}
static view_t side(rbts::singleton_regular_sub_pos<node_t>& p, pre_t*)
{
    auto v = leaf_view(p.leaf_);
    vp_assert(vp_and(v.shift == 0, v.size == p.count_), "contract: a leaf is visited with its size");
    v.shift = BL;
    return v;
}
static u64 between(rbts::leaf_pos<node_t>& t, u64 at)
{
    auto v = leaf_view(t.node_);
    vp_assert(vp_and(v.start == at, v.size == t.count()), "contract concat: the leaf in between is in between");
    return at + v.size;
}
static u64 between(rbts::empty_leaf_pos<node_t>&, u64 at) { return at; }
template <typename P>
static bool is_real(P& p) { return !vp_is_opaque(p.node_); }
static bool is_real(rbts::singleton_regular_sub_pos<node_t>&) { return true; }
template <typename L, typename T, typename R>
static center_t c_inners(L& l, T& t, R& r)
{
    if (is_real(l) && is_real(r))
        vp_decline();
    auto lv = side(l, g_l), rv = side(r, g_r);
    vp_assert(rv.start == between(t, lv.start + lv.size), "contract concat: the elements in their order");
    callee_throws();
    return any_center(B + (lv.shift < rv.shift ? rv.shift : lv.shift), lv.start, rv.start + rv.size - lv.start);
}
#define POS_RX(P) "immer::detail::rbts::" P "<[^()]*>&?"
#define NODE_RX "immer::detail::rbts::node<[^()]*>"
#define INNERS(KEY, L, T, R)                                                                                           \
    VP_CONTRACT_T(lvl_inners_##KEY,                                                                                    \
                  "concat_inners<" NODE_RX ", " POS_RX(#L) ", " POS_RX(#T) ", " POS_RX(#R) ">\\(",                     \
                  c_inners<rbts::L<node_t>, rbts::T<node_t>, rbts::R<node_t>>)
#define INNERS_R(KEY, L, T)                                                                                            \
    INNERS(KEY##_s, L, T, regular_sub_pos) INNERS(KEY##_r, L, T, relaxed_pos) INNERS(KEY##_f, L, T, full_pos)
INNERS_R(s, regular_sub_pos, leaf_pos)
INNERS_R(r, relaxed_pos, leaf_pos)
INNERS_R(one, singleton_regular_sub_pos, empty_leaf_pos)

static void enable_level()
{
    vp_enable("dec_*", 2);
    vp_enable("compute_shift", 2);
    vp_enable("lvl_*", 2);
}
static void tail_leaf(node_t*& n, u64 start, u64 size, int& rc)
{
    n  = opaque(0, start, size, size == LEAF, false, "the leaf in between");
    rc = any_rc("leaf.rc");
    set_rc(n, rc);
}
enum lkind_t { L_REGULAR, L_RELAXED, L_ONE };
static u64 children(bool few)
{
    unsigned n = 1 + vp_case(few ? 2 : 3, "children");
    return n == 3 ? BR : n;
}
// ls == 0: a single leaf on the left side
static void level(u32 ls, u32 rs, int mode)
{
    enable_level();
    bool few  = mode == THROWS;
    u64 start = any_start(), mid = start;
    pre_t l, r;
    node_t* leaf = nullptr;
    int lrc      = 0;
    u64 tsize    = vp_u64("leaf.size");
    vp_assume(vp_and(tsize >= 1, tsize <= LEAF));
    unsigned how = ls ? vp_case(2, "left") : 2;
    if (ls) {
        build(l, how ? RELAXED : REGULAR, ls, start, children(few), false, false);
        g_l = &l;
        mid += l.size;
    }
    tail_leaf(leaf, mid, tsize, lrc);
    mid += tsize;
    unsigned rhow = vp_case(3, "right");
    unsigned rn   = rhow == 2 ? BR : children(few || how != 2 && l.n > 2);
    build(r, rhow == 2 ? FULL : rhow ? RELAXED : REGULAR, rs, mid, rn, false, false);
    g_r        = &r;
    if (how != 2 && rhow == 1 && l.n + rn > (few ? 3 : BR + 1))
        vp_end();
    g_blocks0  = vp_live();
    g_merging  = true;
    u32 top    = ls < rs ? rs : ls;
    g_level    = top == BL ? 0 : top - B;
    center_t res{0, nullptr, 0};
    auto go = [&](auto& lp, auto tp) {
        if (rhow == 2) {
            auto rp = rbts::make_full_pos(r.node, rs);
            res     = rbts::concat_inners<node_t>(lp, tp, rp);
        } else if (rhow == 1) {
            auto rp = rbts::make_relaxed_pos(r.node, rs, r.rel);
            res     = rbts::concat_inners<node_t>(lp, tp, rp);
        } else {
            auto rp = rbts::make_regular_sub_pos(r.node, rs, r.size);
            res     = rbts::concat_inners<node_t>(lp, tp, rp);
        }
    };
    bool threw = may_throw(mode, [&] {
        if (how == 2) {
            auto lp = rbts::make_singleton_regular_sub_pos(leaf, tsize);
            auto tp = rbts::empty_leaf_pos<node_t>{};
            go(lp, tp);
        } else if (how == 1) {
            auto lp = rbts::make_relaxed_pos(l.node, ls, l.rel);
            go(lp, rbts::make_leaf_pos(leaf, tsize));
        } else {
            auto lp = rbts::make_regular_sub_pos(l.node, ls, l.size);
            go(lp, rbts::make_leaf_pos(leaf, tsize));
        }
    });
    u64 made = threw ? 0 : vp_conc(res.count_);
    if (!GC) {
        vp_assert(vp_live() == g_blocks0 + g_nrels + made, "rc: exactly the blocks nobody refers to any more are released");
        vp_assert(vp_and(vp_is_alive(leaf), get_rc(leaf) == lrc), "rc: the leaf in between keeps its owners");
        for (auto p : {ls ? &l : nullptr, &r}) {
            if (!p)
                continue;
            vp_assert(vp_and(vp_is_alive(p->node), get_rc(p->node) == p->rc), "rc: the source keeps its owners");
            for (unsigned i = 0; i < p->n; ++i)
                vp_assert(vp_and(vp_is_alive(p->child[i]), get_rc(p->child[i]) == p->crc[i]), "rc: a subtree keeps its owners");
        }
    }
    if (threw)
        return;
    vp_assert(g_from == start, "view: the result begins where the left side does");
    vp_assert(g_pos == r.start + r.size, "view: the result ends where the right side does");
    vp_assert(vp_and(res.shift_ == top + B, res.count_ == g_result.count_), "wf: the result is as high as the higher side");
    for (unsigned i = 0; i < made; ++i)
        vp_assert(vp_and(res.nodes_[i] == g_result.nodes_[i], res.sizes_[i] == g_result.sizes_[i]), "view: the result is what was merged");
}
VP_HARNESS(concat_level_leaf) { level(BL, BL, PLAIN); }
VP_HARNESS(concat_level_inner) { level(BL + B, BL + B, PLAIN); }
VP_HARNESS(concat_level_deep) { level(34, 34, PLAIN); }
VP_HARNESS(concat_level_left) { level(BL + B, BL, PLAIN); }
VP_HARNESS(concat_level_left_deep) { level(34, BL + B, PLAIN); }
VP_HARNESS(concat_level_right) { level(BL, BL + B, PLAIN); }
VP_HARNESS(concat_level_right_deep) { level(BL + B, 34, PLAIN); }
VP_HARNESS(concat_level_one_leaf) { level(0, BL, PLAIN); }
VP_HARNESS(concat_level_one) { level(0, BL + B, PLAIN); }
VP_HARNESS(concat_level_one_deep) { level(0, 34, PLAIN); }
VP_HARNESS(concat_level_leaf_throw) { level(BL, BL, THROWS); }
VP_HARNESS(concat_level_inner_throw) { level(BL + B, BL + B, THROWS); }
VP_HARNESS(concat_level_left_throw) { level(BL + B, BL, THROWS); }
VP_HARNESS(concat_level_right_throw) { level(BL, BL + B, THROWS); }
VP_HARNESS(concat_level_one_throw) { level(0, BL + B, THROWS); }

// ---- the entry points, by the contract for the level below
static void trees(bool one, int mode)
{
    enable_level();
    u64 start = any_start(), mid = start, tsize = vp_u64("leaf.size");
    vp_assume(vp_and(tsize >= 1, tsize <= LEAF));
    u32 ls = one ? 0 : pick_shift(), rs = pick_shift();
    node_t *l = nullptr, *leaf, *r;
    int lrc = 0, trc, rrc = any_rc("rc");
    u64 lsize = vp_u64("left.size"), rsize = vp_u64("right.size");
    auto ok = [](u64 size, u32 shift) { vp_assume(vp_and(size >= 1, size <= u64{BR} << shift)); };
    auto tree = [](u32 shift, u64 at, u64 size, int rc) {
        bool reg = vp_case(2, "regular");
        if (reg)
            vp_assume((size & (LEAF - 1)) == 0);
        auto n = opaque(shift, at, size, reg, false, "a tree");
        set_rc(n, rc);
        return n;
    };
    if (!one) {
        ok(lsize, ls);
        l = tree(ls, mid, lsize, lrc = any_rc("rc"));
        mid += lsize;
    }
    tail_leaf(leaf, mid, tsize, trc);
    mid += tsize;
    ok(rsize, rs);
    r         = tree(rs, mid, rsize, rrc);
    g_blocks0 = vp_live();
    rbts::relaxed_pos<node_t> res{};
    bool threw = may_throw(mode, [&] {
        res = one ? rbts::concat_trees(leaf, tsize, r, (shift_t) rs, rsize)
                  : rbts::concat_trees(l, (shift_t) ls, lsize, leaf, tsize, r, (shift_t) rs, rsize);
    });
    if (!GC) {
        vp_assert(vp_and(vp_is_alive(leaf), get_rc(leaf) == trc), "rc: the leaf in between keeps its owners");
        vp_assert(vp_and(vp_is_alive(r), get_rc(r) == rrc), "rc: the source keeps its owners");
        if (l)
            vp_assert(vp_and(vp_is_alive(l), get_rc(l) == lrc), "rc: the source keeps its owners");
    }
    if (threw) {
        if (!GC)
            vp_assert(vp_live() == g_blocks0 + g_nrels, "rc: exactly the blocks nobody refers to any more are released");
        return;
    }
    u32 top = one || ls < rs ? rs : ls;
    u64 all = mid + rsize - start;
    start_walk();
    if (vp_is_opaque(res.node_)) {
        auto v = view(res.node_);
        vp_assert(vp_and(v.start == start, v.size == all), "view: the elements of both sides, in their order");
        vp_assert(vp_and(v.shift == top, res.shift_ == top), "wf: the result is as high as the higher side");
        if (!GC)
            vp_assert(vp_live() == g_blocks0 + g_nrels + 1, "rc: exactly the blocks nobody refers to any more are released");
    } else {
        vp_assert(res.shift_ == top + B, "wf: the result is as high as the higher side");
        vp_assert(res.relaxed_ == res.node_->relaxed(), "wf: the result comes with its sizes");
        walk(res.node_, top + B, start, all, false, false);
        if (!GC)
            vp_assert(vp_live() == g_blocks0 + g_nrels + g_nseen, "rc: exactly the blocks nobody refers to any more are released");
    }
}
VP_HARNESS(concat_trees) { trees(false, PLAIN); }
VP_HARNESS(concat_trees_one) { trees(true, PLAIN); }
VP_HARNESS(concat_trees_throw) { trees(false, THROWS); }
VP_HARNESS(concat_trees_one_throw) { trees(true, THROWS); }
