// happens-before of reference counts (C17) and of atom and its lock (C16), on concrete runs under ThreadSanitizer.
// A race is reported from the happens-before relation of the run, whether or not the threads really collided.
#include <atomic>
namespace std {
inline bool nat_fence_used = false;
// ThreadSanitizer does not know fences: a tree that uses one is not judged here
inline void nat_fence(std::memory_order o) { nat_fence_used = true; __atomic_thread_fence((int) o); }
} // namespace std
#define atomic_thread_fence nat_fence
#include "main.hpp"
#include <immer/atom.hpp>
#include <immer/box.hpp>
#include <immer/heap/cpp_heap.hpp>
#include <immer/heap/heap_policy.hpp>
#include <immer/lock/spinlock_policy.hpp>
#include <immer/map.hpp>
#include <immer/memory_policy.hpp>
#include <immer/refcount/enable_intrusive_ptr.hpp>
#include <immer/refcount/refcount_policy.hpp>
#include <immer/vector.hpp>
#include <thread>
using namespace nat;
u32 nat_mask_for(const std::string&) { return ~0u; }
static std::atomic<int> reports{0};
extern "C" void __tsan_on_report(void*) { reports.fetch_add(1, std::memory_order_relaxed); }
// free lists apart: their blocks are handed over with orders of their own
using MP = immer::memory_policy<immer::heap_policy<immer::cpp_heap>, immer::refcount_policy, immer::spinlock_policy>;

static void judge(const char* what)
{
    if (reports.load() && !std::nat_fence_used)
        fail(OTHER, "%s: accesses of two owners are not ordered", what);
}
template <typename F>
static void spawn(u32 n, F f)
{
    std::vector<std::thread> ts;
    for (u32 i = 0; i < n; ++i) ts.emplace_back([&f, i] { f(i); });
    for (auto& t : ts) t.join();
}
// the payload is read by owners, and written by whoever is told that it is the last
struct cell
{
    immer::refcount_policy rc;
    long data = 1;
};
struct ip : immer::enable_intrusive_ptr<ip, immer::refcount_policy>
{
    long data = 1;
    ~ip() { data = 0; }
};
static long sink[8];
static void counts(rng& r)
{
    for (int round = 0; round < 8; ++round) {
        u32 n = 2 + r.below(3), k = r.below(4);
        bool asks = r.below(2);
        say("refcount_policy: %u owners, %u further references each%s", n, k, asks ? ", the others ask unique()" : "");
        auto c = new cell;
        for (u32 i = 1; i < n; ++i) c->rc.inc();
        spawn(n, [&](u32 i) {
            for (u32 j = 0; j < k; ++j) { c->rc.inc(); sink[i] += c->data; if (c->rc.dec()) std::abort(); }
            if (asks && c->rc.unique()) c->data = 2 + i;
            sink[i] += c->data;
            if (c->rc.dec()) { c->data = 0; delete c; }
        });
        judge("refcount_policy");
    }
    u32 n = 2 + r.below(3);
    say("enable_intrusive_ptr: %u owners", n);
    auto x = new ip;
    for (u32 i = 0; i < n; ++i) intrusive_ptr_add_ref(x);
    spawn(n, [&](u32 i) { sink[i] += x->data; intrusive_ptr_release(x); });
    judge("enable_intrusive_ptr");
}
static void values(rng& r)
{
    u32 n = 2 + r.below(3), k = 1 + r.below(40), d = r.below(3);
    say("values: %u threads, %u elements, step %u", n, k, d);
    immer::box<long, MP> b{7};
    immer::vector<long, MP, 2, 2> v;
    immer::map<long, long, std::hash<long>, std::equal_to<long>, MP> m;
    for (u32 i = 0; i < k; ++i) v = v.push_back(i), m = m.set(i, i);
    struct own { immer::box<long, MP> b; decltype(v) v; decltype(m) m; };
    std::vector<own> owns(n, own{b, v, m});
    b = immer::box<long, MP>{8}, v = {}, m = {};
    spawn(n, [&](u32 i) {
        own o = std::move(owns[i]);
        sink[i] += *o.b + o.v[k - 1] + *o.m.find(0);
        if ((i + d) % 3 == 0) o.v = std::move(o.v).push_back(1), o.m = std::move(o.m).set(0, 5);
        if ((i + d) % 3 == 1) o.v = o.v.set(0, 3), o.m = o.m.erase(k / 2);
        if ((i + d) % 3 == 2) o.v = o.v.take(k / 2), o.b = std::move(o.b).update([](long x) { return x + 1; });
        sink[i] += *o.b;
    });
    judge("values shared by threads");
}
static void atoms(rng& r)
{
    u32 n = 2 + r.below(3), ops = 1 + r.below(6);
    u32 plan[4][6];
    for (auto& p : plan) for (auto& x : p) x = r.below(5);
    say("atom: %u threads, %u operations each", n, ops);
    using V = immer::vector<long, MP, 2, 2>;
    immer::atom<V, MP> a{V{1, 2, 3}};
    spawn(n, [&](u32 i) {
        for (u32 j = 0; j < ops; ++j)
            switch (plan[i][j]) {
            case 0: sink[i] += a.load()->size(); break;
            case 1: a.store(immer::box<V, MP>{V{(long) i, (long) j}}); break;
            case 2: sink[i] += a.exchange(immer::box<V, MP>{V{(long) i}})->size(); break;
            case 3: a.update([&](V v) { return std::move(v).push_back(j); }); break;
            default: sink[i] += immer::box<V, MP>(a)->size(); break;
            }
    });
    judge("atom");
    u32 k = 1 + r.below(20);
    say("spinlock_policy: %u threads, %u sections each", n, k);
    immer::spinlock_policy l;
    long shared = 0;
    spawn(n, [&](u32 i) {
        for (u32 j = 0; j < k; ++j) {
            if (plan[i][j % 6] & 1) { immer::spinlock_policy::scoped_lock g{l}; ++shared; }
            else if (plan[i][j % 6] == 2 && l.try_lock()) { ++shared; l.unlock(); }
            else { l.lock(); ++shared; l.unlock(); }
        }
    });
    judge("spinlock_policy");
    if (shared != (long) n * k) fail(OTHER, "two threads hold the spin lock at once");
}
void nat::run_case(u64 seed, u64 n, u32)
{
    rng r{seed * 1000003 + n};
    if (opt.prop == "C17") { counts(r); values(r); }
    if (opt.prop == "C16") atoms(r);
}
