// heaps (C18) and reference counts (C17)
#include "main.hpp"
#include <immer/heap/cpp_heap.hpp>
#include <immer/heap/debug_size_heap.hpp>
#include <immer/heap/free_list_heap.hpp>
#include <immer/heap/heap_policy.hpp>
#include <immer/heap/identity_heap.hpp>
#include <immer/heap/malloc_heap.hpp>
#include <immer/heap/split_heap.hpp>
#include <immer/heap/tags.hpp>
#include <immer/heap/thread_local_free_list_heap.hpp>
#include <immer/heap/unsafe_free_list_heap.hpp>
#include <immer/heap/with_data.hpp>
#include <immer/refcount/enable_intrusive_ptr.hpp>
#include <immer/refcount/no_refcount_policy.hpp>
#include <immer/refcount/refcount_policy.hpp>
#include <immer/refcount/unsafe_refcount_policy.hpp>
#include <immer/lock/no_lock_policy.hpp>
#include <immer/lock/spinlock_policy.hpp>
#include <atomic>
#include <mutex>
#include <thread>
using namespace nat;
u32 nat_mask_for(const std::string&) { return ~0u; }

template <int I>
struct par // a parent heap per use, so that the blocks of one heap can be told from another's
{
    struct state { std::map<void*, size_t> live; std::mutex m; };
    static state& st() { static state* s = new state; return *s; }
    template <typename... T>
    static void* allocate(size_t n, T...)
    {
        auto p = aligned_alloc(16, (n + 15) / 16 * 16);
        memset(p, 0xc3, n);
        std::lock_guard<std::mutex> g{st().m};
        st().live[p] = n;
        return p;
    }
    template <typename... T>
    static void deallocate(size_t n, void* p, T...)
    {
        {
            std::lock_guard<std::mutex> g{st().m};
            auto it = st().live.find(p);
            if (it == st().live.end()) fail(OTHER, "the parent heap gets back a block it has not given");
            if (it->second != n) fail(OTHER, "the parent heap gave %zu bytes and gets %zu back", it->second, n);
            st().live.erase(it);
        }
        free(p);
    }
    static long live() { return st().live.size(); }
    static size_t room(void* p) // bytes from p to the end of the parent's block it lies in
    {
        auto it = st().live.upper_bound(p);
        if (it == st().live.begin()) return 0;
        --it;
        auto e = (char*) it->first + it->second;
        return (char*) p < e ? e - (char*) p : 0;
    }
};
using immer::free_list_node;

template <typename H, typename P>
struct dut
{
    const char* name;
    size_t lo, hi, align;
    long limit;     // blocks a free list may hold on to; -1: no parent to ask
    size_t reserve; // bytes of a block that is not in use which the heap may overwrite
    void run(rng& r, u32 ops) const
    {
        say("heap %s", name);
        struct blk { unsigned char* p; size_t n; unsigned char pat; };
        std::vector<blk> b;
        long before = limit >= 0 ? P::live() : 0;
        auto verify = [&](const blk& x) {
            for (size_t i = 0; i < x.n; ++i)
                if (x.p[i] != x.pat) fail(OTHER, "%s: a block in use was overwritten at byte %zu", name, i);
        };
        size_t want = r.below(8), most = 0;
        for (u32 s = 0; s < ops; ++s) {
            if (!r.below(8)) want = r.below(12);
            if (b.size() < want || (b.size() == want && r.below(2))) {
                size_t n = r.below(4) ? lo + r.below(hi - lo + 1) : r.below(2) ? lo : hi;
                auto p   = (unsigned char*) H::allocate(n);
                say("%u: allocate %zu", s, n);
                if (!p) fail(OTHER, "%s: allocate gives null", name);
                if ((uintptr_t) p % align) fail(OTHER, "%s: a block is not aligned to %zu", name, align);
                if (limit >= 0 && P::room(p) < n) fail(OTHER, "%s: a block of %zu bytes has room for %zu", name, n, P::room(p));
                for (auto& o : b)
                    if (p < o.p + o.n && o.p < p + n) fail(OTHER, "%s: a block overlaps one in use", name);
                blk x{p, n, (unsigned char) (1 + r.below(250))};
                memset(p, x.pat, n);
                b.push_back(x);
                most = std::max(most, b.size());
            } else if (!b.empty()) {
                auto i = r.below(b.size());
                say("%u: deallocate block %u of %zu", s, i, b[i].n);
                verify(b[i]);
                H::deallocate(b[i].n, b[i].p);
                b[i] = b.back();
                b.pop_back();
            }
            for (auto& x : b) verify(x);
            if (limit >= 0) {
                long kept = P::live() - (long) b.size();
                if (kept < 0) fail(OTHER, "%s: blocks in use were given back to the parent", name);
                if (kept > limit) fail(OTHER, "%s: %ld blocks are kept, the limit is %ld", name, kept, limit);
            }
        }
        for (auto& x : b) { verify(x); H::deallocate(x.n, x.p); }
        if (limit >= 0 && P::live() > limit) fail(OTHER, "%s: %ld blocks are kept at the end", name, P::live());
    }
};
struct hdr8 { u64 x = 0x1122334455667788ull; ~hdr8() { if (x != 0x1122334455667788ull) fail(OTHER, "the data of with_data was overwritten"); x = 0; } };
struct hdr32 { u64 x[4] = {1, 2, 3, 4}; ~hdr32() { if (x[0] != 1 || x[3] != 4) fail(OTHER, "the data of with_data was overwritten"); x[0] = x[3] = 0; } };
constexpr size_t FN = sizeof(free_list_node);

static void heaps(rng& r, u32 ops)
{
    using namespace immer;
    switch (r.below(16)) {
    case 0: dut<cpp_heap, par<0>>{"cpp_heap", 1, 300, 16, -1}.run(r, ops); break;
    case 1: dut<malloc_heap, par<0>>{"malloc_heap", 1, 300, 16, -1}.run(r, ops); break;
    case 2: dut<identity_heap<par<2>>, par<2>>{"identity_heap", 1, 300, 16, 0}.run(r, ops); break;
    case 3: dut<debug_size_heap<par<3>>, par<3>>{"debug_size_heap", 1, 300, 16, 0}.run(r, ops); break;
    case 4: dut<free_list_heap<40, 3, par<4>>, par<4>>{"free_list_heap<40, 3>", FN, FN + 40, 16, 3}.run(r, ops); break;
    case 5: dut<unsafe_free_list_heap<40, 3, par<5>>, par<5>>{"unsafe_free_list_heap<40, 3>", FN, FN + 40, 16, 3}.run(r, ops); break;
    case 6: dut<thread_local_free_list_heap<40, 3, par<6>>, par<6>>{"thread_local_free_list_heap<40, 3>", FN, FN + 40, 16, 3}.run(r, ops); break;
    case 7: {
        using A = debug_size_heap<par<7>>;
        using B = identity_heap<par<7>>;
        dut<split_heap<64, A, B>, par<7>>{"split_heap<64>", 1, 200, 16, 0}.run(r, ops);
        break;
    }
    case 8: dut<with_data<hdr8, par<8>>, par<8>>{"with_data<8>", 1, 300, 8, 0}.run(r, ops); break;
    case 9: dut<with_data<hdr32, par<9>>, par<9>>{"with_data<32>", 1, 300, 16, 0}.run(r, ops); break;
    case 10: dut<free_list_heap_policy<par<10>, 2>::optimized<48>::type, par<10>>{"free_list_heap_policy<.., 2>::optimized<48>", 1, 150, 16, 4}.run(r, ops); break;
    case 11: dut<unsafe_free_list_heap_policy<par<11>, 2>::optimized<48>::type, par<11>>{"unsafe_free_list_heap_policy<.., 2>::optimized<48>", 1, 150, 16, 2}.run(r, ops); break;
    case 12: dut<heap_policy<par<12>>::optimized<48>::type, par<12>>{"heap_policy::optimized<48>", 1, 150, 16, 0}.run(r, ops); break;
    case 13: dut<free_list_heap<40, 0, par<13>>, par<13>>{"free_list_heap<40, 0>", FN, FN + 40, 16, 0}.run(r, ops); break;
    case 14: {
        // the free list of a thread is returned when it ends, and clear() returns everything
        using H = unsafe_free_list_heap<24, 4, par<14>>;
        dut<H, par<14>>{"unsafe_free_list_heap<24, 4>", FN, FN + 24, 16, 4}.run(r, ops);
        long n = par<14>::live();
        H::clear();
        if (par<14>::live()) fail(OTHER, "clear() keeps %ld of %ld blocks", par<14>::live(), n);
        auto p = H::allocate(FN); // and the list is usable afterwards
        H::deallocate(FN, p);
        H::clear();
        if (par<14>::live()) fail(OTHER, "clear() keeps blocks the second time");
        break;
    }
    case 15: {
        using H = thread_local_free_list_heap<24, 4, par<15>>;
        void* kept = nullptr;
        std::thread t{[&] {
            dut<H, par<15>>{"thread_local_free_list_heap<24, 4>", FN, FN + 24, 16, 4}.run(r, ops);
            kept = H::allocate(FN);
        }};
        t.join();
        if (par<15>::live() != 1) fail(OTHER, "%ld blocks stay after the thread ended", par<15>::live() - 1);
        memset(kept, 7, FN + 24);
        H::deallocate(FN, kept); // by another thread
        if (par<15>::live() > 1) fail(OTHER, "a block is lost");
        H::clear();
        if (par<15>::live()) fail(OTHER, "clear() keeps blocks of another thread");
        break;
    }
    }
    {
        // operator new and delete of a class
        struct D : enable_optimized_heap_policy<D, free_list_heap_policy<par<101>, 2>> { u64 x[5]; };
        auto d = new D;
        if (par<101>::room(d) < sizeof(D)) fail(OTHER, "operator new gives too small a block");
        delete d;
        if (par<101>::live() > 4) fail(OTHER, "operator delete keeps too much");
    }
}

struct ip : immer::enable_intrusive_ptr<ip, immer::refcount_policy> { static inline std::atomic<long> dead{0}; ~ip() { ++dead; } };

template <typename P>
static void counts(rng& r, const char* name)
{
    P p;
    long c = 1;
    auto q = P{immer::disowned{}};
    long d = 0;
    for (int i = 0; i < 60; ++i) {
        bool which = r.below(2);
        auto& o = which ? p : q;
        long& m = which ? c : d;
        switch (r.below(3)) {
        case 0: o.inc(); ++m; break;
        case 1:
            if (!m) break;
            if (o.dec() != (--m == 0)) fail(OTHER, "%s: dec() to %ld reports the opposite", name, m);
            break;
        case 2:
            if (m && o.unique() != (m == 1)) fail(OTHER, "%s: unique() with %ld owners is wrong", name, m);
            break;
        }
    }
}
static void refs(rng& r)
{
    using namespace immer;
    counts<refcount_policy>(r, "refcount_policy");
    counts<unsafe_refcount_policy>(r, "unsafe_refcount_policy");
    no_refcount_policy np;
    np.inc();
    if (np.unique() || np.dec() || np.dec()) fail(OTHER, "no_refcount_policy reports a last owner");
    {
        // concurrent owners: exactly one release is the last, and it sees what the others wrote
        constexpr int N = 4;
        for (int round = 0; round < 20; ++round) {
            refcount_policy p;
            int data[N] = {}, last = 0;
            std::atomic<int> lasts{0}, go{0};
            for (int i = 1; i < N; ++i) p.inc();
            std::vector<std::thread> ts;
            for (int i = 0; i < N; ++i)
                ts.emplace_back([&, i] {
                    ++go;
                    while (go < N) {}
                    p.inc();
                    if (p.dec()) ++lasts, last += 100;
                    data[i] = 1;
                    if (p.dec()) { ++lasts; for (int d : data) last += d; }
                });
            for (auto& t : ts) t.join();
            if (lasts != 1) fail(OTHER, "%d releases report to be the last", lasts.load());
            if (last != N) fail(OTHER, "the last release does not see the other owners' writes");
        }
    }
    {
        auto x = new ip;
        long d = ip::dead, n = 1 + r.below(5);
        for (long i = 0; i < n; ++i) intrusive_ptr_add_ref(x);
        for (long i = 0; i < n; ++i) {
            if (ip::dead != d) fail(OTHER, "an intrusive pointer is deleted early");
            intrusive_ptr_release(x);
        }
        if (ip::dead != d + 1) fail(OTHER, "an intrusive pointer is not deleted once");
    }
    {
        spinlock_policy l;
        if (!l.try_lock()) fail(OTHER, "a free lock cannot be taken");
        if (l.try_lock()) fail(OTHER, "a lock can be taken twice");
        l.unlock();
        { spinlock_policy::scoped_lock g{l}; if (l.try_lock()) fail(OTHER, "a scoped lock does not lock"); }
        if (!l.try_lock()) fail(OTHER, "a scoped lock does not unlock");
        l.unlock();
        int shared = 0;
        std::vector<std::thread> ts;
        for (int i = 0; i < 4; ++i) ts.emplace_back([&] { for (int k = 0; k < 300; ++k) { spinlock_policy::scoped_lock g{l}; int x = shared; if (k % 64 == 0) std::this_thread::yield(); shared = x + 1; } });
        for (auto& t : ts) t.join();
        if (shared != 1200) fail(OTHER, "two threads hold the spin lock at once");
    }
}

void nat::run_case(u64 seed, u64 n, u32 ops)
{
    rng r{seed * 1000003 + n};
    if (opt.prop == "C18" || opt.prop == "all") heaps(r, ops);
    if (opt.prop == "C17" || opt.prop == "all") refs(r);
}
