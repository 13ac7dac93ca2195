// C17: the reference counting policies, each function against its contract, other threads stepping between any
// two atomic operations of this one.
#include "vp.h"
#include <immer/refcount/refcount_policy.hpp>
#include <immer/refcount/unsafe_refcount_policy.hpp>
#include <immer/refcount/no_refcount_policy.hpp>
#include <immer/refcount/enable_intrusive_ptr.hpp>
#include <immer/heap/cpp_heap.hpp>
#include <immer/memory_policy.hpp>

enum { LOAD, STORE, RMW, CAS, FENCE };
enum { RELAXED = 1, ACQUIRE, RELEASE, ACQ_REL, SEQ_CST };

static std::atomic<int>* g_count;
static u64 g_writes;      // writes of this thread to the count
static u64 g_old, g_new;  // of the last of them
static bool g_rel, g_acq; // a release took place no later than the last write; an acquire at or after it
static u64 g_loads, g_load; // reads of this thread, the value of the last one
static bool g_load_acq;
static bool g_only_owner; // no other thread has a reference

inline bool is_acq(int o) { return o == ACQUIRE || o == ACQ_REL || o == SEQ_CST; }
inline bool is_rel(int o) { return o == RELEASE || o == ACQ_REL || o == SEQ_CST; }

static void others(int, void* p, int)
{
    if (g_only_owner)
        return;
    // other owners may have taken and dropped references in the meantime; ours is still counted
    u32 c = vp_u32("count seen");
    vp_assume(vp_and(c >= 1, c < 0x7fffffff));
    *(int*) g_count = (int) c;
}
static bool g_rel_fence;
static void mine(int kind, void* p, int o, u64 old, u64 now)
{
    if (kind == FENCE) {
        g_rel_fence |= is_rel(o);
        g_acq |= is_acq(o);
        g_load_acq |= is_acq(o);
        return;
    }
    vp_assert(p == (void*) g_count, "count: only the count is accessed");
    if (kind == LOAD) {
        ++g_loads;
        g_load = old;
        g_load_acq = is_acq(o);
        g_acq |= is_acq(o) && g_writes;
        return;
    }
    vp_assert(vp_and(kind == RMW || kind == CAS, g_writes == 0), "count: one indivisible step changes the count");
    ++g_writes;
    g_old = old;
    g_new = now;
    g_rel = is_rel(o) || g_rel_fence;
    g_acq = is_acq(o);
    g_loads++;
    g_load = now;
}

static void arm(std::atomic<int>* c)
{
    g_count = c;
    g_writes = g_loads = 0;
    g_rel = g_acq = g_load_acq = g_rel_fence = false;
    vp_env(others, mine);
}

static immer::refcount_policy* any_count(u64 least)
{
    auto r = new (vp_raw(sizeof(immer::refcount_policy), "counter")) immer::refcount_policy;
    u32 c = vp_u32("count");
    vp_assume(vp_and(c >= least, c < 0x7fffffff));
    *(int*) &r->refcount = (int) c;
    return r;
}

VP_HARNESS(atomic_made)
{
    immer::refcount_policy a;
    vp_assert(*(int*) &a.refcount == 1, "count: a new count is one");
    immer::refcount_policy b{immer::disowned{}};
    vp_assert(*(int*) &b.refcount == 0, "count: a disowned count is zero");
}
VP_HARNESS(atomic_inc)
{
    auto r = any_count(1);
    arm(&r->refcount);
    r->inc();
    vp_env(nullptr, nullptr);
    vp_assert(g_writes == 1, "count: acquiring a reference is one step on the count");
    vp_assert(g_new == g_old + 1, "count: acquiring a reference adds one");
}
VP_HARNESS(atomic_dec)
{
    auto r = any_count(1);
    arm(&r->refcount);
    bool last = r->dec();
    vp_env(nullptr, nullptr);
    vp_assert(g_writes == 1, "count: releasing a reference is one step on the count");
    vp_assert(g_new == g_old - 1, "count: releasing a reference subtracts one");
    vp_assert(vp_iff(last, g_old == 1), "count: exactly the release that drops the last reference reports it");
    vp_assert(g_rel, "count: a release orders this owner's earlier accesses before it");
    if (last)
        vp_assert(g_acq, "count: the last release is ordered after the other owners' accesses");
    vp_cover(last ? "last" : "not last");
}
VP_HARNESS(atomic_unique)
{
    auto r = any_count(1);
    arm(&r->refcount);
    bool u = r->unique();
    vp_env(nullptr, nullptr);
    vp_assert(g_writes == 0, "count: unique does not change the count");
    vp_assert(g_loads >= 1, "count: unique reads the count");
    if (u) {
        vp_assert((int) g_load == 1, "count: unique holds only when the count is one");
        vp_assert(g_load_acq, "count: unique is ordered after the other owners' accesses");
    }
    vp_cover(u ? "unique" : "shared");
}
VP_HARNESS(atomic_unique_single)
{
    auto r = any_count(1);
    int c = *(int*) &r->refcount;
    g_only_owner = true;
    arm(&r->refcount);
    bool u = r->unique();
    vp_env(nullptr, nullptr);
    vp_assert(vp_iff(u, c == 1), "count: unique holds exactly when the count is one");
}
VP_HARNESS(unsafe)
{
    immer::unsafe_refcount_policy a;
    vp_assert(a.refcount == 1, "count: a new count is one");
    immer::unsafe_refcount_policy b{immer::disowned{}};
    vp_assert(b.refcount == 0, "count: a disowned count is zero");
    u32 c = vp_u32("count");
    vp_assume(vp_and(c >= 1, c < 0x7fffffff));
    a.refcount = (int) c;
    a.inc();
    vp_assert(a.refcount == (int) c + 1, "count: acquiring a reference adds one");
    a.refcount = (int) c;
    bool last = a.dec();
    vp_assert(a.refcount == (int) c - 1, "count: releasing a reference subtracts one");
    vp_assert(vp_iff(last, c == 1), "count: exactly the release that drops the last reference reports it");
    a.refcount = (int) c;
    bool u = a.unique();
    vp_assert(vp_iff(u, c == 1), "count: unique holds exactly when the count is one");
    vp_assert(a.refcount == (int) c, "count: unique does not change the count");
}
VP_HARNESS(none)
{
    immer::no_refcount_policy a;
    immer::no_refcount_policy b{immer::disowned{}};
    a.inc();
    vp_assert(vp_not(a.dec()), "count: the no-op policy never reports a last owner");
    vp_assert(vp_not(a.unique()), "count: the no-op policy never reports uniqueness");
    vp_assert(vp_not(b.dec()), "count: the no-op policy never reports a last owner");
}
// intrusive_ptr hooks
struct thing : immer::enable_intrusive_ptr<thing, immer::refcount_policy>
{
    static u64 gone;
    ~thing() { ++gone; }
};
u64 thing::gone;
VP_HARNESS(intrusive)
{
    u64 live = vp_live();
    auto p = new thing;
    intrusive_ptr_add_ref(p);
    auto rc = [&] { return *(int*) (static_cast<immer::refcount_policy*>(&p->refcount_data_)); };
    vp_assert(rc() == 1, "count: a new object is counted by its first pointer only");
    u32 c = vp_u32("count");
    vp_assume(vp_and(c >= 1, c < 0x7fffffff));
    *(int*) static_cast<immer::refcount_policy*>(&p->refcount_data_) = (int) c;
    if (vp_bool("add")) {
        intrusive_ptr_add_ref(p);
        vp_assert(rc() == (int) c + 1, "count: acquiring a reference adds one");
    } else {
        intrusive_ptr_release(p);
        vp_assert(vp_iff(thing::gone == 1, c == 1), "count: exactly the release that drops the last reference destroys the object");
        if (thing::gone)
            vp_assert(vp_live() == live, "count: the object is returned to the heap");
        else
            vp_assert(rc() == (int) c - 1, "count: releasing a reference subtracts one");
    }
}
