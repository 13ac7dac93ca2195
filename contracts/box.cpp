// C15 (and the box part of C09, C10, C12, C13): every operation of box, any number of other owners.
#include "elem.hpp"
#include <immer/box.hpp>
#include <immer/heap/heap_policy.hpp>
#include <immer/lock/no_lock_policy.hpp>
#include <immer/memory_policy.hpp>
#include <immer/refcount/unsafe_refcount_policy.hpp>

#ifdef VP_UNSAFE
using RC = immer::unsafe_refcount_policy;
#else
using RC = immer::refcount_policy;
#endif
#ifdef VP_GC
using MP = immer::memory_policy<immer::heap_policy<vp_heap>, immer::no_refcount_policy, immer::default_lock_policy, immer::gc_transience_policy>;
#else
using MP = immer::memory_policy<immer::heap_policy<vp_heap>, RC, immer::no_lock_policy>;
#endif
using box_t = immer::box<E, MP>;

inline bool operator<(const E& a, const E& b) { return vp_or(a.k < b.k, vp_and(a.k == b.k, a.v < b.v)); }
namespace std {
template <>
struct hash<E>
{
    size_t operator()(const E& e) const { return vp_uf2("hash", e.k, e.v); }
};
}

inline int rc(const box_t::holder* h)
{
#ifdef VP_GC
    return 1;
#else
    return *(int*) &h->refcount;
#endif
}
inline void set_rc(const box_t::holder* h, int n)
{
#ifndef VP_GC
    *(int*) &h->refcount = n;
#endif
}
// a box of any value with any number of other owners
struct subject
{
    alignas(box_t) char mem[sizeof(box_t)];
    box_t::holder* h;
    u64 k, v;
    u32 others;
    box_t& b() { return *(box_t*) mem; }
    subject(const char* nm)
    {
        k = vp_u64(nm);
        v = vp_u64(nm);
        new (mem) box_t{E{k, v}};
        h      = b().impl_;
        others = vp_u32("other owners");
        vp_assume(others < 0x40000000);
        set_rc(h, (int) others + 1);
    }
    // the value, and mine references to it, are as the other owners know it
    void intact(int mine)
    {
        if (mine == 0) {
#ifndef VP_GC
            vp_assert(vp_iff(vp_is_alive(h), others != 0), "rc: the holder lives exactly as long as somebody refers to it");
            if (!vp_is_alive(h))
                return;
#endif
        }
        vp_assert(vp_is_alive(h), "mem: a holder referred to is live");
#ifndef VP_GC
        vp_assert(rc(h) == (int) others + mine, "rc: the count is the number of owners");
#endif
        vp_assert(h->value.st == ST_LIVE, "life: a held value is live");
        vp_assert(vp_and(h->value.k == k, h->value.v == v), "frame: the value of a box never changes for its other owners");
    }
};
inline void is(const box_t& b, u64 k, u64 v, const char* nm)
{
    vp_assert(b.impl_ != nullptr && vp_is_alive(b.impl_), "mem: a box has a live holder");
    vp_assert(b.get().st == ST_LIVE, "life: a held value is live");
    vp_assert(vp_and(b.get().k == k, b.get().v == v), nm);
}
static u64 blocks0, elems0;
static void mark()
{
    blocks0 = vp_live();
    elems0  = g_elems;
}
static void grown(u64 n)
{
    vp_assert(vp_live() == blocks0 + n, "mem: exactly the new holder is allocated");
    vp_assert(g_elems == elems0 + n, "life: exactly the new value is constructed");
}

static void make(bool throwing)
{
    mark();
    g_may_throw = throwing;
    u64 k = vp_u64("k"), v = vp_u64("v");
    unsigned how = vp_case(4, "default / copy of a value / moved value / arguments");
    try {
        E e{k, v};
        box_t b = how == 0 ? box_t{} : how == 1 ? box_t{e} : how == 2 ? box_t{std::move(e)} : box_t{k, v};
        g_may_throw = false;
        is(b, how == 0 ? 0 : k, how == 0 ? 0 : v, "view: a box holds what it is made with");
        vp_assert(rc(b.impl_) == 1, "rc: a new box has one owner");
        vp_cover("made");
    } catch (...) {
        vp_cover("throws");
    }
#ifdef VP_GC
    return;
#endif
    vp_assert(vp_live() == blocks0, "throw: no block is leaked");
    vp_assert(g_elems == elems0, "throw: no element is leaked");
}
VP_HARNESS(make) { make(false); }
VP_HARNESS(make_throw) { make(true); }

VP_HARNESS(copy)
{
    subject s{"s"};
    mark();
    unsigned how = vp_case(5, "copy / move / assign copy / assign move / self");
    subject t{"t"};
    mark();
    if (how == 0) {
        box_t c = s.b();
        is(c, s.k, s.v, "view: a copy holds the same value");
        vp_assert(c.impl_ == s.h, "share: a copy shares the value");
        s.intact(2);
        grown(0);
    } else if (how == 1) {
        box_t c = std::move(s.b());
        is(c, s.k, s.v, "view: a moved box holds the same value");
        s.intact(1);
        grown(0);
        s.b().~box_t(); // what is left can be destroyed
        s.intact(1);
    } else if (how == 2) {
        t.b() = s.b();
        is(t.b(), s.k, s.v, "view: an assigned box holds the value assigned");
        is(s.b(), s.k, s.v, "frame: assigning from a box does not change it");
        s.intact(2);
        t.intact(0);
    } else if (how == 3) {
        t.b() = std::move(s.b());
        is(t.b(), s.k, s.v, "view: an assigned box holds the value assigned");
        s.b().~box_t();
        s.intact(1);
        t.intact(0);
    } else {
        auto& x = s.b();
        if (vp_bool("move"))
            s.b() = std::move(x);
        else
            s.b() = x;
        is(s.b(), s.k, s.v, "view: assigning a box to itself changes nothing");
        s.intact(1);
    }
}
VP_HARNESS(swap_)
{
    subject s{"s"}, t{"t"};
    swap(s.b(), t.b());
    is(s.b(), t.k, t.v, "view: swap exchanges the values");
    is(t.b(), s.k, s.v, "view: swap exchanges the values");
    s.intact(1);
    t.intact(1);
}
VP_HARNESS(destroy)
{
    subject s{"s"};
    s.b().~box_t();
    s.intact(0);
#ifndef VP_GC
    vp_assert(vp_iff(g_elems == 0, s.others == 0), "life: the value is destroyed with the last owner");
    vp_assert(vp_iff(vp_live() == 0, s.others == 0), "mem: the holder is returned with the last owner");
#endif
}
VP_HARNESS(read)
{
    subject s{"s"};
    const box_t& b = s.b();
    const E& c     = b;
    vp_assert(&b.get() == &s.h->value && &*b == &s.h->value && b.operator->() == &s.h->value && &c == &s.h->value,
              "view: every way of reading a box reads the value it holds");
    vp_assert(std::hash<box_t>{}(b) == vp_uf2("hash", s.k, s.v), "view: the hash of a box is that of its value");
    s.intact(1);
}
static u64 g_calls;
struct F
{
    E operator()(const E& x) const
    {
        ++g_calls;
        maybe_throw();
        return E{vp_uf2("f.k", x.k, x.v), vp_uf2("f.v", x.k, x.v)};
    }
};
static void update_l(bool throwing)
{
    subject s{"s"};
    mark();
    g_may_throw = throwing;
    try {
        box_t r     = static_cast<const box_t&>(s.b()).update(F{});
        g_may_throw = false;
        vp_assert(g_calls == 1, "view: update calls the function once");
        is(r, vp_uf2("f.k", s.k, s.v), vp_uf2("f.v", s.k, s.v), "view: update gives the function of the value");
        vp_assert(r.impl_ != s.h, "frame: update of an lvalue makes a new box");
        vp_assert(rc(r.impl_) == 1, "rc: a new box has one owner");
        grown(1);
        vp_cover("returns");
    } catch (...) {
        vp_assert(vp_live() == blocks0, "throw: no block is leaked");
        vp_assert(g_elems == elems0, "throw: no element is leaked");
        vp_cover("throws");
    }
    is(s.b(), s.k, s.v, "frame: update of an lvalue leaves it as it was");
    s.intact(1);
}
VP_HARNESS(update_lvalue) { update_l(false); }
VP_HARNESS(update_lvalue_throw) { update_l(true); }
static void update_r(bool throwing)
{
    subject s{"s"};
    bool shared = s.others != 0;
    mark();
    g_may_throw = throwing;
    bool threw  = false;
    try {
        box_t&& r   = std::move(s.b()).update(F{});
        g_may_throw = false;
        vp_assert(&r == &s.b(), "view: update of an rvalue gives the box back");
        vp_assert(g_calls == 1, "view: update calls the function once");
        is(r, vp_uf2("f.k", s.k, s.v), vp_uf2("f.v", s.k, s.v), "view: update gives the function of the value");
    } catch (...) {
        threw = true;
    }
    g_may_throw = false;
#ifdef VP_GC
    s.intact(0); // anybody may still refer to it
    if (!threw)
        grown(1);
#else
    if (shared) {
        s.intact(threw ? 1 : 0);
        if (threw)
            vp_assert(s.b().impl_ == s.h, "throw: a box whose update throws holds what it held");
        vp_assert(vp_live() == blocks0 + (threw ? 0 : 1), "throw: no block is leaked");
        vp_assert(g_elems == elems0 + (threw ? 0 : 1), "throw: no element is leaked");
        if (!threw)
            vp_assert(rc(s.b().impl_) == 1, "rc: a new box has one owner");
    } else {
        vp_assert(vp_live() == blocks0, "throw: no block is leaked");
        vp_assert(g_elems == elems0, "throw: no element is leaked");
        vp_assert(rc(s.b().impl_) == 1, "rc: the count is the number of owners");
        s.b().~box_t();
        vp_assert(vp_live() == 0 && g_elems == 0, "life: the value is destroyed with the last owner");
    }
#endif
    vp_cover(threw ? "throws" : shared ? "shared" : "in place");
}
VP_HARNESS(update_rvalue) { update_r(false); }
VP_HARNESS(update_rvalue_throw) { update_r(true); }

VP_HARNESS(compare)
{
    subject s{"s"}, t{"t"};
    bool same = vp_case(2, "shared");
    box_t c   = s.b();
    box_t& x  = s.b();
    box_t& y  = same ? c : t.b();
    bool eq   = x.get() == y.get();
    bool lt   = x.get() < y.get();
    vp_assert(vp_iff(x == y, eq), "eq: boxes are equal exactly when their values are");
    vp_assert(vp_iff(x != y, vp_not(eq)), "eq: boxes differ exactly when their values do");
    vp_assert(vp_iff(x < y, lt), "eq: boxes compare as their values do");
    vp_assert(vp_iff(x == y.get(), eq), "eq: a box and a value are equal exactly when the values are");
    vp_assert(vp_iff(x != y.get(), vp_not(eq)), "eq: a box and a value differ exactly when the values do");
    vp_assert(vp_iff(x < y.get(), lt), "eq: a box and a value compare as the values do");
    vp_assert(vp_iff(x.get() == y, eq), "eq: a value and a box are equal exactly when the values are");
    vp_assert(vp_iff(x.get() != y, vp_not(eq)), "eq: a value and a box differ exactly when the values do");
    vp_assert(vp_iff(x.get() < y, lt), "eq: a value and a box compare as the values do");
}
