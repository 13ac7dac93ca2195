// box and atom against plain values
#include "main.hpp"
#include "policies.hpp"
#include <immer/atom.hpp>
#include <immer/box.hpp>
#include <atomic>
#include <optional>
#include <thread>
using namespace nat;
namespace nat {
static bool operator<(const El& a, const El& b) { a.need("compared"); b.need("compared"); return a.k < b.k; }
}
namespace std {
template <> struct hash<El> { size_t operator()(const El& e) const { e.need("hashed"); return e.k * 77 + 5; } };
}
using B = immer::box<El, MP>;
using At = immer::atom<El, MP>;

u32 nat_mask_for(const std::string& p)
{
    if (p == "C15") return CONTENT | OTHERS | EQ | LIFE;
    if (p == "C16") return OTHER | LIFE | CONTENT | OTHERS;
    if (p == "C09") return EQ;
    if (p == "C10") return OTHERS;
    if (p == "C12") return LIFE;
    if (p == "C13") return FAULT | OTHERS | LIFE;
    return ~0u;
}
static bool is(const char* p) { return opt.prop == p; }

#ifdef NAT_THREADS
// a linearisation check that needs no model: a counter that is only ever updated counts every update once,
// exchange and store hand every value over exactly once
static void threads(u64 seed)
{
    immer::atom<long, MP> a{0};
    constexpr int N = 4, K = 300;
    std::atomic<long> sum{0};
    std::atomic<bool> bad{false};
    std::vector<std::thread> ts;
    for (int t = 0; t < N; ++t)
        ts.emplace_back([&, t] {
            rng r{seed * 131 + t};
            long last = -1;
            for (int i = 0; i < K; ++i) {
                switch (r.below(3)) {
                case 0: {
                    long seen = -1;
                    long now  = a.update([&](long x) { seen = x; return x + 1; }).get();
                    if (now != seen + 1) bad = true;
                    sum += 1;
                    if (now <= last) bad = true;
                    last = now;
                    break;
                }
                case 1: {
                    long x = a.load().get();
                    if (x < last) bad = true;
                    last = x;
                    break;
                }
                case 2: {
                    long x = immer::box<long, MP>(a).get();
                    if (x < last) bad = true;
                    last = x;
                    break;
                }
                }
            }
        });
    for (auto& t : ts) t.join();
    if (bad) fail(OTHER, "an update was not atomic");
    if (a.load().get() != sum) fail(OTHER, "%ld of %ld updates were lost", sum - a.load().get(), sum.load());
    // tokens: every value stored is taken out exactly once
    ts.clear();
    std::vector<std::atomic<int>> out(N * K + 1);
    immer::atom<long, MP> e{0};
    for (int t = 0; t < N; ++t)
        ts.emplace_back([&, t] {
            for (int i = 0; i < K; ++i) {
                long x = e.exchange(immer::box<long, MP>{long(t * K + i + 1)}).get();
                out[x]++;
            }
        });
    for (auto& t : ts) t.join();
    out[e.load().get()]++;
    for (auto& o : out)
        if (o != 1) fail(OTHER, "exchange lost or duplicated a value");
}
// interference placed in the middle of an update: while the function runs another thread changes the atom, if the
// atom lets it; equal values are distinguishable, so a lost change is seen
struct kv { int key; long id; bool operator==(const kv& o) const { return key == o.key; } bool operator!=(const kv& o) const { return key != o.key; } };
static void placed(u64 seed)
{
    rng r{seed * 77 + 5};
    long ids = 0;
    immer::atom<kv, MP> a{immer::box<kv, MP>{kv{1, 0}}};
    immer::box<kv, MP> first = a.load();
    long cur = 0; // the id of what the atom holds
    for (int round = 0; round < 12; ++round) {
        u32 hits = r.below(3), how[3] = {r.below(4), r.below(4), r.below(4)};
        std::vector<std::thread> ts;
        std::atomic<int> done{0};
        long seen = -1, after = cur;
        u32 calls = 0;
        bool held = false;
        say("update while another thread does %u operations in between", hits);
        auto res = a.update([&](kv x) {
            seen = x.id;
            after = cur;
            if (calls < hits) {
                int d0 = done;
                u32 w  = how[calls++];
                int k  = w == 3 ? 2 : 1;
                long id = ++ids;
                ts.emplace_back([&a, &done, &first, w, k, id] {
                    if (w == 0) a.store(immer::box<kv, MP>{kv{k, id}});
                    else if (w == 1) a.exchange(immer::box<kv, MP>{kv{k, id}});
                    else if (w == 2) { auto b = a.load(); a.store(immer::box<kv, MP>{kv{b->key, id}}); }
                    else a.store(immer::box<kv, MP>{kv{k, id}});
                    ++done;
                });
                for (int i = 0; i < 200 && done == d0; ++i) std::this_thread::sleep_for(std::chrono::microseconds(50));
                if (done != d0) cur = after = id; // in between for sure
                else held = true;                 // the atom does not let others in meanwhile, or they are slow
            }
            return kv{x.key, -x.id - 1};
        });
        if (res->id != -seen - 1) fail(OTHER, "update does not return what its function gave last");
        if (!held && seen != after) fail(OTHER, "an update lost a change made between its steps");
        if (!held && a.load()->id != res->id) fail(OTHER, "update returns what it has not installed");
        for (auto& t : ts) t.join();
        if (held) return;
        cur = ++ids;
        a.store(immer::box<kv, MP>{kv{1, cur}});
    }
}
#endif

void nat::run_case(u64 seed, u64 n, u32 ops)
{
    rng r{seed * 1000003 + n};
    const bool fault = is("C13");
#ifdef NAT_THREADS
    if (is("C16")) {
        if (n % 3 == 0) threads(seed * 1000003 + n);
        else placed(seed * 1000003 + n);
        return;
    }
#endif
    long elems0 = live_elems, blocks0 = live_blocks;
    u32 fresh = 1;
    {
        struct slot { B b; u32 k; };
        std::vector<std::unique_ptr<slot>> s;
        for (int i = 0; i < 4; ++i) s.emplace_back(new slot{B{El{0}}, 0});
        struct aslot { At a; u32 k; explicit aslot(u32 x) : a{B{El{x}}}, k{x} {} };
        std::vector<std::unique_ptr<aslot>> as;
        for (int i = 0; i < 2; ++i) as.emplace_back(new aslot{0});
        auto run = [&](bool keep, auto&& fn) -> bool {
            if (!fault) { fn(); return true; }
            for (long k = 0;; ++k) {
                long e0 = live_elems, b0 = live_blocks;
                fault_at = k, fault_seen = 0, fault_fired = false, faults_on = true;
                bool thrown = false;
                try { fn(); } catch (const boom&) { thrown = true; } catch (const std::bad_alloc&) { thrown = true; }
                faults_on = false;
                if (thrown != fault_fired) fail(FAULT, "an exception does not reach the caller");
                if (!thrown) return true;
                say("  throws at fallible step %ld", k);
                if (counted_elems && live_elems != e0) fail(FAULT, "a throwing operation leaks %ld elements", live_elems - e0);
                if (counted_blocks && live_blocks != b0) fail(FAULT, "a throwing operation leaks %ld blocks", live_blocks - b0);
                if (!keep) return false;
                for (auto& x : s) if (x->b->k != x->k) fail(FAULT | OTHERS, "a box changed in a throwing operation");
                for (auto& x : as) if (x->a.load()->k != x->k) fail(FAULT | OTHERS, "an atom changed in a throwing operation");
            }
        };
        for (u32 step = 0; step < ops; ++step) {
            u32 i = r.below(4), j = r.below(4), f = fresh++, op = r.below(16);
            slot &a = *s[i], &b = *s[j];
            aslot& t = *as[r.below(2)];
            say("%u: op %u on %u -> %u", step, op, i, j);
            std::optional<B> res;
            switch (op) {
            case 0: if (run(true, [&] { res = B{El{f}}; })) b.b = *res, b.k = f; break;
            case 1: { El src{f}; if (run(true, [&] { res = B{src}; })) b.b = *res, b.k = f; break; }
            case 2: if (run(true, [&] { res = B{f, 0u}; })) b.b = *res, b.k = f; break;
            case 3: if (run(true, [&] { res = B{}; })) b.b = *res, b.k = 0; break;
            case 4: b.b = a.b; b.k = a.k; break;
            case 5: if (i != j) { b.b = std::move(a.b); b.k = a.k; a.b = B{El{f}}; a.k = f; } break;
            case 6: { using std::swap; swap(a.b, b.b); std::swap(a.k, b.k); break; }
            case 7: case 8: {
                u32 seen = 0;
                if (run(true, [&] { res = a.b.update([&](const El& e) { fallible(); seen = e.code() >> 32; return El{e.k + 3}; }); })) {
                    if (seen != a.k) fail(CONTENT, "update gives the function %u instead of %u", seen, a.k);
                    u32 nk = a.k + 3; b.b = *res, b.k = nk;
                }
                break;
            }
            case 9: case 10: {
                u32 seen = 0;
                bool ok = run(false, [&] { res = std::move(a.b).update([&](auto&& e) { fallible(); seen = e.code() >> 32; El q{e.k + 3}; fallible(); return q; }); });
                u32 nk = a.k + 3;
                if (ok && seen != a.k) fail(CONTENT, "update of an rvalue gives the function %u instead of %u", seen, a.k);
                a.b = B{El{f}}; a.k = f;
                if (ok) b.b = *res, b.k = nk;
                break;
            }
            case 11: if (run(true, [&] { t.a.store(a.b); })) t.k = a.k; break;
            case 12: if (run(true, [&] { res = t.a.load(); })) b.b = *res, b.k = t.k; break;
            case 13: if (run(true, [&] { res = t.a.exchange(a.b); })) { u32 old = t.k; t.k = a.k; b.b = *res; b.k = old; } break;
            case 14: if (run(true, [&] { res = t.a.update([&](const El& e) { fallible(); return El{e.k + 7}; }); })) { t.k += 7; b.b = *res; b.k = t.k; } break;
            case 15: if (run(true, [&] { t.a = B{El{f}}; })) { t.k = f; if (El(t.a).k != f || B(t.a)->k != f) fail(CONTENT, "the conversions of atom are wrong"); } break;
            }
            res.reset();
            for (auto& x : s) {
                if (x->b.get().code() != u64{x->k} << 32) fail(x.get() == &b ? CONTENT : OTHERS, "a box holds %llx instead of %x", (unsigned long long) x->b.get().code(), x->k);
                const El& c = x->b;
                if (&c != &*x->b || &c != x->b.operator->() || &c != &x->b.get()) fail(CONTENT, "the accessors of box disagree");
                if (std::hash<B>{}(x->b) != std::hash<El>{}(c)) fail(CONTENT, "the hash of a box is not that of its value");
            }
            for (auto& x : as) if (x->a.load()->k != x->k) fail(x.get() == &t ? CONTENT : OTHERS, "an atom holds %u instead of %u", x->a.load()->k, x->k);
            for (auto& x : s)
                for (auto& y : s) {
                    if ((x->b == y->b) != (x->k == y->k)) fail(EQ, "== of boxes is wrong");
                    if ((x->b != y->b) != (x->k != y->k)) fail(EQ, "!= of boxes is wrong");
                    if ((x->b < y->b) != (x->k < y->k)) fail(EQ, "< of boxes is wrong");
                    const El& c = y->b.get();
                    if ((x->b == c) != (x->k == y->k) || (c == x->b) != (x->k == y->k)) fail(EQ, "== with a value is wrong");
                    if ((x->b != c) != (x->k != y->k) || (c != x->b) != (x->k != y->k)) fail(EQ, "!= with a value is wrong");
                    if ((x->b < c) != (x->k < y->k) || (c < x->b) != (y->k < x->k)) fail(EQ, "< with a value is wrong");
                }
            B same{El{b.k}};
            if (!(same == b.b) || same != b.b || same < b.b) fail(EQ, "boxes of equal values are not equal");
        }
    }
    if (counted_elems && live_elems != elems0) fail(LIFE, "%ld elements are still alive at the end", live_elems - elems0);
    if (counted_blocks && live_blocks != blocks0) fail(LIFE, "%ld blocks are still allocated at the end", live_blocks - blocks0);
}
