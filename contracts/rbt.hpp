// Specification of the radix balanced trees (detail/rbts): abstract view of a subtree, representation invariant,
// most general pre-state, contracts of the recursive visitors.
//
// The abstract value is one global sequence S of elements.  A subtree known by its abstract view only (an opaque
// node) stands for the elements [START, START + SIZE) of S; UPD tells that the element at position U, if it is among
// them, has been replaced by what the operation makes of it.
#pragma once
#include "elem.hpp"
#include <immer/heap/heap_policy.hpp>
#include <immer/memory_policy.hpp>
#include <immer/detail/rbts/rbtree.hpp>
#include <immer/detail/rbts/rrbtree.hpp>
#include <immer/detail/rbts/rrbtree_iterator.hpp>

#ifdef VP_GC
using MP = immer::memory_policy<immer::heap_policy<vp_heap>,
                                immer::no_refcount_policy,
                                immer::default_lock_policy,
                                immer::gc_transience_policy,
                                false,
                                false>;
constexpr bool GC = true;
#else
#ifdef VP_SEPARATE // size tables in blocks of their own, counted and shared
constexpr bool FEWER = false;
#else
constexpr bool FEWER = true;
#endif
using MP = immer::memory_policy<immer::heap_policy<vp_heap>,
                                immer::refcount_policy,
                                immer::default_lock_policy,
                                immer::no_transience_policy,
                                FEWER,
                                true>;
constexpr bool GC = false;
#endif

namespace rbts = immer::detail::rbts;
constexpr unsigned B  = 2;
constexpr unsigned BL = 2;
constexpr unsigned BR = 1u << B;
constexpr unsigned LEAF = 1u << BL;
using node_t   = rbts::node<E, MP, B, BL>;
using edit_t   = node_t::edit_t;
using relaxed_t = node_t::relaxed_t;
using rb_t     = rbts::rbtree<E, MP, B, BL>;
using rrb_t    = rbts::rrbtree<E, MP, B, BL>;
using shift_t  = rbts::shift_t;
using count_t  = rbts::count_t;
constexpr bool EMBED = node_t::embed_relaxed;

// ---- the abstract sequence
static u64 U;     // the position the operation replaces
static u64 g_calls;
static int g_token, g_other_token, g_noone_token;

inline u64 S(u64 pos) { return vp_uf1("S", pos); }
inline u64 after(u64 v) { return vp_uf1("fn", v); }
inline u64 val(u64 pos, bool upd) { return vp_ite(vp_and(upd, pos == U), after(S(pos)), S(pos)); }

struct Fn // what the operation makes of an element
{
    E operator()(E&& e) const
    {
        vp_assert(e.st == ST_LIVE, "life: only a live element is moved from");
        maybe_throw();
        ++g_calls;
        E r{e.k, after(e.v)};
        e.st = ST_MOVED;
        return r;
    }
};

// ---- ghost fields of an opaque node
enum slot
{
    START,
    SIZE,
    SHIFT,    // shift of its level, 0 for a leaf
    REG,      // bool: regular, all its leaves full
    OWNED,    // bool: GC policy, owned by the edit
    UPD,      // bool: the element at U is replaced
    SHARED,   // bool: reachable from somewhere else although its own count may be one
    ABSORBED, // the leaf which it refers to
    ELEM      // the element a reference to which was handed out
};

inline edit_t the_edit()
{
#ifdef VP_GC
    // static objects have been initialised: this one refers to a token of its own
    MP::transience_t::noone.token_.store(&g_noone_token, std::memory_order_relaxed);
    return edit_t{&g_token};
#else
    return edit_t{};
#endif
}
template <typename T>
inline void set_owned(T* n, bool o)
{
#ifdef VP_GC
    node_t::ownee(n) = edit_t{o ? &g_token : &g_other_token};
#endif
}
template <typename T>
inline bool is_owned(T* n)
{
#ifdef VP_GC
    return node_t::ownee((const T*) n).can_mutate(the_edit());
#else
    return false;
#endif
}
inline void set_rc(const node_t* n, int rc)
{
#ifndef VP_GC
    *(int*) &node_t::refs(n) = rc;
#endif
}
inline int get_rc(const node_t* n)
{
#ifndef VP_GC
    return *(int*) &node_t::refs(n);
#else
    return 1;
#endif
}
inline int any_rc(const char* nm, u32 least = 1)
{
    u32 r = vp_u32(nm);
    vp_assume(vp_and(r >= least, r < 0x40000000));
    return (int) r;
}
#ifdef VP_SEPARATE
inline void set_rrc(relaxed_t* r, int rc) { *(int*) &node_t::refs(r) = rc; }
inline int get_rrc(relaxed_t* r) { return *(int*) &node_t::refs(r); }
#else
inline void set_rrc(relaxed_t*, int) {}
inline int get_rrc(relaxed_t*) { return 1; }
#endif

struct view_t
{
    node_t* n;
    u32 shift;
    u64 start, size;
    bool reg, upd;
};
inline view_t view(node_t* n)
{
    return {n, (u32) vp_gget(n, SHIFT), vp_gget(n, START), vp_gget(n, SIZE), vp_ggetb(n, REG), vp_ggetb(n, UPD)};
}
// a leaf handed over to a callee: one with its elements is full
inline view_t leaf_view(node_t* n)
{
    if (vp_ghas(n, SHIFT))
        return view(n);
    return {n, 0, n->leaf()[0].k, LEAF, true, false};
}
inline node_t* opaque(u32 shift, u64 start, u64 size, bool reg, bool upd, const char* nm)
{
    size_t bytes = shift == 0 ? node_t::max_sizeof_leaf : node_t::max_sizeof_inner_r;
    auto n       = new (vp_alloc(bytes, nm)) node_t;
#if IMMER_TAGGED_NODE
    n->impl.d.kind = shift == 0 ? node_t::kind_t::leaf : node_t::kind_t::inner;
#endif
    vp_opaque(&n->impl.d.data, bytes - ((char*) &n->impl.d.data - (char*) n));
    vp_gset(n, SHIFT, shift);
    vp_gset(n, START, start);
    vp_gset(n, SIZE, size);
    vp_gsetb(n, REG, reg);
    vp_gsetb(n, UPD, upd);
    vp_gsetb(n, OWNED, false);
    vp_gsetb(n, SHARED, false);
    return n;
}
inline node_t* fresh(u32 shift, u64 start, u64 size, bool reg, bool upd, bool owned)
{
    auto n = opaque(shift, start, size, reg, upd, shift ? "result of a callee" : "leaf from a callee");
    vp_gsetb(n, OWNED, GC && owned);
    return n;
}
// a new subtree of any regularity
inline node_t* fresh_any(u64 shift, u64 start, u64 size, bool reg, bool owned)
{
    auto n = opaque(BL, start, size, reg, false, "result of a callee");
    vp_gset(n, SHIFT, shift);
    vp_gsetb(n, OWNED, GC && owned);
    return n;
}
inline bool can_mutate(node_t* n) { return GC ? vp_ggetb(n, OWNED) : get_rc(n) == 1; }

// gives up one reference to a subtree
inline void drop_ref(node_t* n)
{
    if (GC)
        return;
    vp_assert(vp_is_alive(n), "rc: a reference given up is to a live node");
    int rc = get_rc(n);
    vp_assert(rc >= 1, "rc: a reference given up exists");
    if (rc == 1) {
        auto a = vp_ghas(n, ABSORBED) ? (node_t*) vp_ggetp(n, ABSORBED) : nullptr;
        vp_free_any(n);
        if (a)
            drop_ref(a);
    } else
        set_rc(n, rc - 1);
}
inline void callee_throws()
{
    if (g_may_throw)
        if (vp_bool("callee.throws"))
            throw vp_boom{3};
}

// ---- what the code claims of a subtree when it visits it
template <typename P>
using pos_of = P;
inline void fits(rbts::full_leaf_pos<node_t>& p, view_t v)
{
    vp_assert(vp_and(v.shift == 0, v.size == LEAF), "contract: a leaf visited as full is full");
}
inline void fits(rbts::leaf_pos<node_t>& p, view_t v)
{
    vp_assert(vp_and(v.shift == 0, v.size == p.count()), "contract: a leaf is visited with its size");
}
inline void fits(rbts::leaf_sub_pos<node_t>& p, view_t v)
{
    vp_assert(vp_and(v.shift == 0, v.size == p.count_), "contract: a leaf is visited with its size");
}
inline void fits(rbts::full_pos<node_t>& p, view_t v)
{
    vp_assert(vp_and(v.shift != 0, p.shift_ == v.shift), "contract: a subtree is visited with its shift");
    vp_assert(vp_and(v.reg, v.size == u64{BR} << v.shift), "contract: a subtree visited as full is full");
}
inline void fits(rbts::regular_pos<node_t>& p, view_t v)
{
    vp_assert(vp_and(v.shift != 0, p.shift_ == v.shift), "contract: a subtree is visited with its shift");
    vp_assert(vp_and(v.reg, v.size == p.this_size()), "contract: a regular subtree is visited with its size");
}
inline void fits(rbts::regular_sub_pos<node_t>& p, view_t v)
{
    vp_assert(vp_and(v.shift != 0, p.shift_ == v.shift), "contract: a subtree is visited with its shift");
    vp_assert(vp_and(v.reg, v.size == p.size_), "contract: a regular subtree is visited with its size");
}
template <typename Pos>
inline view_t enter(Pos& p)
{
    if (!vp_is_opaque(p.node_))
        vp_decline();
    auto v = view(p.node_);
    vp_assert(vp_is_alive(p.node_), "mem: a subtree visited is live");
    fits(p, v);
    return v;
}
inline view_t enter(node_t* n, shift_t shift, size_t size)
{
    if (!vp_is_opaque(n))
        vp_decline();
    auto v = view(n);
    vp_assert(vp_is_alive(n), "mem: a subtree visited is live");
    vp_assert(vp_and(v.shift != 0, shift == v.shift), "contract: a subtree is visited with its shift");
    vp_assert(v.size == size, "contract: a subtree is visited with its size");
    return v;
}
// positions are passed down unreduced where the branches are picked by their bits
inline u64 local(view_t v, u64 idx)
{
    u64 l = idx & ((u64{1} << (v.shift + B)) - 1);
    vp_assert(l < v.size, "contract: the position looked for is in the subtree");
    return l;
}
inline u64 exact(view_t v, u64 idx)
{
    vp_assert(idx < v.size, "contract: the position looked for is in the subtree");
    return idx;
}

#define VP_CONTRACT_T(KEY, RX, ...)                                                                                   \
    extern "C" __attribute__((used)) const vp_contract_t VP_KEY(VP_PFX, KEY) = {RX, (void*) &__VA_ARGS__};
#define VP_VISIT_RX(V, POS)                                                                                            \
    "(?<!visitor_base<immer::detail::rbts::)\\b" V "::visit_\\w+<immer::detail::rbts::" POS "<"
// C: a macro from a kind of position to the contract function for it
#define VP_LEAF_CONTRACTS(KEY, V, C)                                                                                   \
    VP_CONTRACT_T(KEY##_full_leaf, VP_VISIT_RX(V, "full_leaf_pos"), C(rbts::full_leaf_pos<node_t>))                    \
    VP_CONTRACT_T(KEY##_leaf, VP_VISIT_RX(V, "leaf_pos"), C(rbts::leaf_pos<node_t>))                                   \
    VP_CONTRACT_T(KEY##_leaf_sub, VP_VISIT_RX(V, "leaf_sub_pos"), C(rbts::leaf_sub_pos<node_t>))
#define VP_INNER_CONTRACTS(KEY, V, C)                                                                                  \
    VP_CONTRACT_T(KEY##_full, VP_VISIT_RX(V, "full_pos"), C(rbts::full_pos<node_t>))                                   \
    VP_CONTRACT_T(KEY##_regular, VP_VISIT_RX(V, "regular_pos"), C(rbts::regular_pos<node_t>))                          \
    VP_CONTRACT_T(KEY##_regular_sub, VP_VISIT_RX(V, "regular_sub_pos"), C(rbts::regular_sub_pos<node_t>))
#define VP_SUB_RX(V) "\\bvisit_maybe_relaxed_sub<.*immer::detail::rbts::" V "[,>]"
#define VP_SUB_CONTRACT(KEY, V, ...) VP_CONTRACT_T(KEY##_sub, "\\bvisit_maybe_relaxed_sub<.*\\b" V "[,>]", __VA_ARGS__)

// ---- contract: releasing a subtree
template <typename Pos>
inline void c_dec(Pos& p)
{
    enter(p);
    drop_ref(p.node_);
}
inline void c_dec_sub(node_t* n, shift_t shift, size_t size)
{
    enter(n, shift, size);
    drop_ref(n);
}
#define C_DEC(POS) c_dec<POS>
VP_LEAF_CONTRACTS(dec, "dec_visitor", C_DEC)
VP_INNER_CONTRACTS(dec, "dec_visitor", C_DEC)
VP_SUB_CONTRACT(dec, "dec_visitor", c_dec_sub)

// ---- contract: the depth of a subtree (only asserted about)
#if IMMER_TAGGED_NODE
inline shift_t c_compute_shift(node_t* n)
{
    if (!vp_is_opaque(n))
        vp_decline();
    return (shift_t) vp_gget(n, SHIFT);
}
VP_CONTRACT(compute_shift, "::compute_shift\\(", c_compute_shift)
#endif

// ---- a node, all of it symbolic except its shape
enum kind_t
{
    REGULAR,
    FULL,
    RELAXED
};
struct pre_t
{
    node_t* node;
    relaxed_t* rel;
    kind_t kind;
    u32 shift;
    unsigned n;
    u64 start, size;
    node_t* child[BR];
    u64 before[BR + 1]; // elements before each child
    int crc[BR];
    int rc, rrc;
    bool can, rcan; // node, its table of sizes: exclusively ours
    u64 blocks, elems, allocs;
};

inline u64 any_start()
{
    u64 s = vp_u64("start");
    vp_assume(s < (u64{1} << 60));
    return s;
}

#ifndef VP_SHIFTS
#define VP_SHIFTS 2, 4, 6, 34
#endif
static const u32 the_shifts[] = {VP_SHIFTS};
inline u32 pick_shift() { return the_shifts[vp_case(sizeof(the_shifts) / sizeof(u32), "shift")]; }

inline void built(pre_t& p)
{
    p.blocks = vp_live();
    p.elems  = g_elems;
    p.allocs = g_allocs;
}
inline void freeze_node(node_t* n, size_t bytes)
{
    vp_freeze(&n->impl.d, bytes - ((char*) &n->impl.d - (char*) n), "a shared node");
#ifdef VP_GC
    vp_freeze(&node_t::ownee(n), sizeof(void*), "who owns a shared node");
#endif
}

// mut: the operation finds out from the counts what is ours
inline void build(pre_t& p, kind_t kind, u32 shift, u64 start, unsigned n, bool mut, bool can, bool rcan = true)
{
    p.kind  = kind;
    p.shift = shift;
    p.start = start;
    p.n     = n;
    p.can   = can;
    p.rel   = nullptr;
    p.rcan  = can;
    bool own = GC && can;
    if (kind == RELAXED)
        p.node = own ? node_t::make_inner_r_e(the_edit()) : node_t::make_inner_r_n(n);
    else
        p.node = own ? node_t::make_inner_e(the_edit()) : node_t::make_inner_n(n);
    u64 cap     = u64{1} << shift;
    p.before[0] = 0;
    for (unsigned i = 0; i < n; ++i) {
        u64 sz   = cap;
        bool reg = true;
        if (kind == RELAXED) {
            u64 upto = vp_u64("sub.upto");
            vp_assume(upto < (u64{1} << (shift + B)) + 1);
            vp_assume(vp_and(upto > p.before[i], upto <= p.before[i] + cap));
            p.before[i + 1] = upto;
            sz = upto - p.before[i];
            reg = vp_bool("sub.regular");
            vp_assume(vp_implies(reg, (sz & (LEAF - 1)) == 0));
        } else if (kind == REGULAR && i + 1 == n && shift != BL) {
            sz = vp_u64("sub.size");
            vp_assume(vp_and(vp_and(sz >= 1, sz <= cap), (sz & (LEAF - 1)) == 0));
        }
        if (kind != RELAXED)
            p.before[i + 1] = p.before[i] + sz;
        p.child[i]      = opaque(shift - B, start + p.before[i], sz, reg, false, "subtree");
        p.crc[i]        = any_rc("sub.rc");
        set_rc(p.child[i], p.crc[i]);
        vp_gsetb(p.child[i], OWNED, own ? vp_bool("sub.owned") : false);
        vp_gsetb(p.child[i], SHARED, !can);
        p.node->inner()[i] = p.child[i];
    }
    p.size = p.before[n];
    p.rc   = can ? 1 : any_rc("rc", mut ? 2 : 1);
    set_rc(p.node, p.rc);
    set_owned(p.node, can);
    if (kind == RELAXED) {
        p.rel          = p.node->relaxed();
        p.rel->d.count = n;
        for (unsigned i = 0; i < n; ++i)
            p.rel->d.sizes[i] = p.before[i + 1];
        if (!EMBED) {
            p.rcan = can && rcan;
            p.rrc  = p.rcan ? 1 : any_rc("sizes.rc", can ? 2 : 1);
            set_rrc(p.rel, p.rrc);
#ifdef VP_GC
            set_owned(p.rel, p.rcan);
#endif
            if (!p.rcan)
                vp_freeze(&p.rel->d, node_t::sizeof_relaxed_n(n) - ((char*) &p.rel->d - (char*) p.rel),
                          "the sizes of a shared node");
        }
    }
    built(p);
    if (!can)
        freeze_node(p.node, kind == RELAXED ? node_t::sizeof_inner_r_n(n) : node_t::sizeof_inner_n(n));
}

// a leaf with all its elements
struct leaf_t
{
    node_t* node;
    u64 start;
    unsigned n;
    int rc;
    bool can;
    u64 blocks, elems, allocs;
};
inline void build_leaf(leaf_t& l, u64 start, unsigned n, bool mut, bool can)
{
    l.start = start;
    l.n     = n;
    l.can   = can;
    l.node  = GC && can ? node_t::make_leaf_e(the_edit()) : node_t::make_leaf_n(n);
    for (unsigned i = 0; i < n; ++i)
        new (l.node->leaf() + i) E{start + i, S(start + i)};
    l.rc = can ? 1 : any_rc("leaf.rc", mut ? 2 : 1);
    set_rc(l.node, l.rc);
    set_owned(l.node, can);
    l.blocks = vp_live();
    l.elems  = g_elems;
    l.allocs = g_allocs;
    if (!can && n)
        freeze_node(l.node, node_t::sizeof_leaf_n(n));
}

// ---- invariant and abstract view of a result
static node_t* g_seen[96];
static unsigned g_nseen;
static node_t* g_walked[16];
static unsigned g_nwalked;
static u64 g_leaf_elems; // elements in the real leaves walked

inline void see(node_t* n) { g_seen[g_nseen++] = n; }
inline int refs_to(node_t* n)
{
    int r = 0;
    for (unsigned i = 0; i < g_nseen; ++i)
        r += g_seen[i] == n;
    return r;
}
inline void walk_leaf(node_t* n, u64 start, u64 size, bool upd);
inline bool walked(node_t* n)
{
    for (unsigned i = 0; i < g_nwalked; ++i)
        if (g_walked[i] == n)
            return true;
    return false;
}
inline void walk_leaf(node_t* n, u64 start, u64 size, bool upd)
{
    u64 c = vp_conc(size);
    vp_assert(vp_and(c >= 1, c <= LEAF), "wf: a leaf has at least one element and no more than fit");
    for (unsigned i = 0; i < c; ++i) {
        auto& e = n->leaf()[i];
        vp_assert(e.st == ST_LIVE, "life: a stored element is live");
        vp_assert(vp_and(e.k == start + i, e.v == val(start + i, upd)), "view: the elements of the result, in their places");
    }
    g_leaf_elems += c;
}
// the subtree at n holds the elements [start, start + size), at the given depth
inline void walk(node_t* n, u32 shift, u64 start, u64 size, bool upd, bool reg)
{
    vp_assert(vp_is_alive(n), "mem: the nodes of the result are live");
    see(n);
    if (vp_is_opaque(n)) {
        auto v = view(n);
        vp_assert(v.shift == shift, "wf: all leaves are at the same depth");
        vp_assert(v.start == start, "view: the elements of the result, in their places");
        vp_assert(v.size == size, "view: a subtree has the size its parent thinks it has");
        vp_assert(vp_implies(vp_and(start <= U, U < start + size), vp_iff(v.upd, upd)),
                  "view: exactly the requested element is replaced");
        if (reg && shift != 0)
            vp_assert(v.reg, "wf: the subtrees of a regular node are regular");
        if (vp_ghas(n, ABSORBED)) {
            auto a = (node_t*) vp_ggetp(n, ABSORBED);
            see(a);
            if (!vp_is_opaque(a) && !walked(a)) {
                g_walked[g_nwalked++] = a;
                walk_leaf(a, start + size - LEAF, LEAF, upd);
            }
        }
        return;
    }
    if (walked(n))
        return;
    g_walked[g_nwalked++] = n;
    if (shift == 0) {
        walk_leaf(n, start, size, upd);
        return;
    }
    u64 cap = u64{1} << shift;
    if (auto r = n->relaxed()) {
        vp_assert(!reg, "wf: the subtrees of a regular node are regular");
        if (!EMBED)
            vp_assert(vp_is_alive(r), "mem: the sizes of a node are live");
        u64 c = vp_conc(r->d.count);
        vp_assert(vp_and(c >= 1, c <= BR), "wf: a node has at least one child and no more than fit");
        u64 prev = 0;
        for (unsigned i = 0; i < c; ++i) {
            u64 s = r->d.sizes[i];
            vp_assert(vp_and(s > prev, s - prev <= cap), "wf: a child has at least one element and no more than fit");
            walk(n->inner()[i], shift - B, start + prev, s - prev, upd, false);
            prev = s;
        }
        vp_assert(prev == size, "view: a node has the size its parent thinks it has");
    } else {
        vp_assert((size & (LEAF - 1)) == 0, "wf: the leaves of a regular node are full");
        vp_assert(vp_and(size >= 1, size <= cap << B), "wf: a node has at least one child and no more than fit");
        u64 c = vp_conc(((size - 1) >> shift) + 1);
        for (unsigned i = 0; i + 1 < c; ++i)
            walk(n->inner()[i], shift - B, start + i * cap, cap, upd, true);
        walk(n->inner()[c - 1], shift - B, start + (c - 1) * cap, size - (c - 1) * cap, upd, true);
    }
}
inline void start_walk() { g_nseen = g_nwalked = 0, g_leaf_elems = 0; }

// ---- accounting of blocks and reference counts
// consumed: references to the source which the operation was given
static u64 g_dead, g_fresh;
inline void account_old(node_t* n, int rc, const char* alive_msg, const char* rc_msg)
{
    if (GC) {
        if (refs_to(n))
            vp_assert(vp_is_alive(n), alive_msg);
        return;
    }
    int want = rc + refs_to(n);
    if (!vp_is_alive(n)) {
        vp_assert(want == 0, alive_msg);
        ++g_dead;
    } else
        vp_assert(vp_and(get_rc(n) == want, want != 0), rc_msg);
}
inline void account_new(node_t** old, unsigned nold)
{
    for (unsigned i = 0; i < g_nseen; ++i) {
        bool dup = false;
        for (unsigned j = 0; j < i; ++j)
            dup |= g_seen[j] == g_seen[i];
        for (unsigned j = 0; j < nold; ++j)
            dup |= old[j] == g_seen[i];
        if (dup)
            continue;
        ++g_fresh;
        if (!GC)
            vp_assert(get_rc(g_seen[i]) == refs_to(g_seen[i]), "rc: a new node has as many owners as refer to it");
    }
}
#ifdef VP_SEPARATE
inline void account_sizes(pre_t* p)
{
    // every table of sizes has as many owners as nodes refer to it
    relaxed_t* rs[20];
    int cnt[20];
    unsigned n = 0;
    auto note  = [&](relaxed_t* r) {
        if (!r)
            return;
        for (unsigned i = 0; i < n; ++i)
            if (rs[i] == r) {
                ++cnt[i];
                return;
            }
        rs[n]  = r;
        cnt[n] = 1;
        ++n;
    };
    bool src_walked = false;
    for (unsigned i = 0; i < g_nwalked; ++i)
        if (vp_ghas(g_walked[i], SHIFT) || true) {
            if (p && g_walked[i] == p->node)
                src_walked = true;
            note(g_walked[i]->relaxed());
        }
    if (p && vp_is_alive(p->node) && !src_walked)
        note(p->node->relaxed());
    bool old_seen = false;
    for (unsigned i = 0; i < n; ++i) {
        bool old = p && rs[i] == p->rel;
        old_seen |= old;
        if (!old)
            ++g_fresh;
        vp_assert(get_rrc(rs[i]) == cnt[i] + (old ? p->rrc - 1 : 0), "rc: a table of sizes has as many owners as refer to it");
    }
    if (p && p->rel && !old_seen) {
        if (vp_is_alive(p->rel))
            vp_assert(vp_and(get_rrc(p->rel) == p->rrc - 1, p->rrc != 1), "rc: a table of sizes has as many owners as refer to it");
        else {
            vp_assert(p->rrc == 1, "rc: a table of sizes is not released while it is referred to");
            ++g_dead;
        }
    }
}
#endif
// one source node, and perhaps a leaf (of rc trc before); consumed references to them
inline void account(pre_t& p, int consumed, node_t* tail = nullptr, int trc = 0)
{
    node_t* old[BR + 2];
    unsigned nold = 0;
    g_dead = g_fresh = 0;
    old[nold++]      = p.node;
    for (unsigned i = 0; i < p.n; ++i)
        old[nold++] = p.child[i];
    if (tail)
        old[nold++] = tail;
    bool in_result = walked(p.node);
    if ((GC || vp_is_alive(p.node)) && !in_result)
        for (unsigned i = 0; i < p.n; ++i)
            see(p.child[i]);
    if (consumed == 0)
        vp_assert(vp_is_alive(p.node), "rc: the source is not released while it is referred to");
    if (!in_result && GC && p.rc == 0)
        ;
    account_old(p.node, p.rc - consumed, "rc: the source is not released while it is referred to",
                "rc: the source keeps its owners");
    for (unsigned i = 0; i < p.n; ++i)
        account_old(p.child[i], p.crc[i] - 1, "rc: a subtree is not released while it is referred to",
                    "rc: a subtree has as many owners as nodes refer to it");
    if (tail)
        account_old(tail, trc, "rc: the leaf is not released while it is referred to",
                    "rc: the leaf has as many owners as refer to it");
    account_new(old, nold);
#ifdef VP_SEPARATE
    account_sizes(&p);
#endif
    if (!GC)
        vp_assert(vp_live() == p.blocks - g_dead + g_fresh, "rc: exactly the blocks nobody refers to any more are released");
}

// ---- visiting a node in the ways the code may know of it
enum how_t
{
    BY_REGULAR,
    BY_REGULAR_SUB,
    BY_FULL,
    BY_RELAXED
};
inline kind_t kind_of(unsigned how) { return how == BY_FULL ? FULL : how == BY_RELAXED ? RELAXED : REGULAR; }

struct place_t
{
    pre_t p;
    unsigned how;
    u64 over; // where positions are not reduced: what is above the bits that the subtree uses
};
// any node of any kind and depth; mut: the operation finds out from the counts what is exclusively ours
inline void any_node(place_t& t, bool mut)
{
    unsigned c = vp_case(4 * sizeof(the_shifts) / sizeof(u32), "depth and kind of node");
    u32 shift  = the_shifts[c / 4];
    t.how      = c % 4;
    bool can   = mut && vp_case(2, "exclusively ours");
    bool rcan  = !EMBED && can && t.how == BY_RELAXED ? vp_case(2, "sizes shared") == 0 : can;
    unsigned n = t.how == BY_FULL ? BR : 1 + vp_case(BR, "children");
    build(t.p, kind_of(t.how), shift, any_start(), n, mut, can, rcan);
    t.over = 0;
    if (t.how == BY_REGULAR || t.how == BY_FULL) {
        u64 h = vp_u64("positions above");
        vp_assume(h < (u64{1} << (60 - shift - B)));
        t.over = h << (shift + B);
    }
}
template <typename V, typename... Args>
inline decltype(auto) visit(place_t& t, V v, Args&&... args)
{
    auto& p = t.p;
    if (t.how == BY_REGULAR)
        return rbts::make_regular_pos(p.node, p.shift, t.over + p.size).visit(v, args...);
    if (t.how == BY_REGULAR_SUB)
        return rbts::make_regular_sub_pos(p.node, p.shift, p.size).visit(v, args...);
    if (t.how == BY_FULL)
        return rbts::make_full_pos(p.node, p.shift).visit(v, args...);
    return rbts::make_relaxed_pos(p.node, p.shift, p.node->relaxed()).visit(v, args...);
}
// the ways in which the size of what precedes a child can be had
template <typename V, typename... Args>
inline decltype(auto) visit_sub(place_t& t, V v, Args&&... args)
{
    auto& p = t.p;
    if (t.how == BY_REGULAR)
        vp_end();
    if (t.how == BY_FULL)
        return rbts::make_full_pos(p.node, p.shift).visit(v, args...);
    if (t.how == BY_RELAXED)
        return rbts::make_relaxed_pos(p.node, p.shift, p.node->relaxed()).visit(v, args...);
    return rbts::make_regular_sub_pos(p.node, p.shift, p.size).visit(v, args...);
}
inline unsigned leaf_how(unsigned n)
{
    return vp_case(n == LEAF ? 3 : 2, "kind of leaf");
}
template <typename V, typename... Args>
inline decltype(auto) visit_leaf(leaf_t& l, unsigned how, u64 over, V v, Args&&... args)
{
    if (how == 0)
        return rbts::make_leaf_sub_pos(l.node, l.n).visit(v, args...);
    if (how == 1)
        return rbts::make_leaf_pos(l.node, (over << BL) + l.n).visit(v, args...);
    return rbts::make_full_leaf_pos(l.node).visit(v, args...);
}
// other threads may release what they share with us, at any time
static pre_t* g_pre;
inline void others_release()
{
    if (!vp_bool("others release theirs"))
        return;
    auto& p    = *g_pre;
    g_on_alloc = nullptr;
    if (!p.can) {
        p.rc = 1;
        set_rc(p.node, 1);
    }
    if (!EMBED && p.rel && !p.rcan) {
        p.rrc = 1;
        set_rrc(p.rel, 1);
    }
}
enum what_t
{
    PLAIN,
    THROWS,
    MEANWHILE
};
template <typename F>
inline bool may_throw(int mode, F f, pre_t* p = nullptr)
{
    bool threw  = false;
    g_may_throw = mode == THROWS;
    g_pre       = p;
    g_on_alloc  = !GC && mode == MEANWHILE ? others_release : nullptr;
    try {
        f();
    } catch (vp_boom&) {
        threw = true;
    } catch (std::bad_alloc&) {
        threw = true;
    }
    g_may_throw = false;
    g_on_alloc  = nullptr;
    vp_cover(threw ? "throws" : "returns");
    return threw;
}
inline void account_leaf(leaf_t& l, int consumed)
{
    g_dead = g_fresh = 0;
    if (consumed == 0)
        vp_assert(vp_is_alive(l.node), "rc: the source is not released while it is referred to");
    account_old(l.node, l.rc - consumed, "rc: the source is not released while it is referred to",
                "rc: the source keeps its owners");
    account_new(&l.node, 1);
    if (GC)
        return;
    vp_assert(vp_live() == l.blocks - g_dead + g_fresh, "rc: exactly the blocks nobody refers to any more are released");
    u64 kept = vp_is_alive(l.node) && !walked(l.node) ? l.n : 0;
    vp_assert(g_elems == l.elems - l.n + kept + g_leaf_elems, "life: every element is either destroyed or part of the result");
}
