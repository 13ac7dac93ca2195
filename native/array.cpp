// array / array_transient against std::vector
#include "main.hpp"
#include "policies.hpp"
#include <immer/algorithm.hpp>
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <list>
using namespace nat;
using A = immer::array<El, MP>;
using T = A::transient_type;
using M = std::vector<u32>;

u32 nat_mask_for(const std::string& p)
{
    if (p == "C14") return CONTENT | OTHERS;
    if (p == "C09") return EQ;
    if (p == "C10") return OTHERS;
    if (p == "C11") return ITER;
    if (p == "C12") return LIFE;
    if (p == "C13") return FAULT | OTHERS | LIFE;
    if (p == "C19") return ALGO;
    return ~0u;
}
static bool is(const char* p) { return opt.prop == p; }

template <typename C>
static void check(u32 c, const C& a, const M& m, const char* when)
{
    if (a.size() != m.size())
        fail(c, "size is %zu instead of %zu %s", (size_t) a.size(), m.size(), when);
    if (a.empty() != m.empty())
        fail(c, "empty() is wrong %s", when);
    for (size_t i = 0; i < m.size(); ++i)
        if (a[i].code() != u64{m[i]} << 32)
            fail(c, "element %zu is %llx instead of %x %s", i, (unsigned long long) a[i].code(), m[i], when);
}
template <typename C>
static void iterate(u32 c, const C& a, const M& m, rng& r)
{
    if ((size_t) (a.end() - a.begin()) != m.size())
        fail(c, "end() - begin() is not the size");
    size_t i = 0;
    for (auto& e : a)
        if (i >= m.size() || e.code() != u64{m[i++]} << 32)
            fail(c, "iteration differs at %zu", i);
    if (i != m.size())
        fail(c, "iteration stops early");
    for (auto it = a.rbegin(); it != a.rend(); ++it)
        if (it->k != m[--i])
            fail(c, "reverse iteration differs at %zu", i);
    if (i)
        fail(c, "reverse iteration stops early");
    if (a.data() != a.begin())
        fail(c, "data() is not begin()");
    if (!m.empty() && (a.front().k != m.front() || a.back().k != m.back()))
        fail(c, "front() or back() is wrong");
    for (size_t x : {(size_t) r.below(m.size() + 3), m.size(), m.size() - 1, ~size_t{0}}) {
        bool thrown = false;
        u64 got     = 0;
        try {
            got = a.at(x).code();
        } catch (const std::out_of_range&) {
            thrown = true;
        }
        if (thrown != (x >= m.size()))
            fail(c, "at(%zu) of %zu %s", x, m.size(), thrown ? "throws" : "does not throw");
        if (!thrown && got != u64{m[x]} << 32)
            fail(c, "at(%zu) is wrong", x);
    }
}
static void algorithms(const A& a, const M& m, rng& r)
{
    auto lo = r.below(m.size() + 1), hi = lo + r.below(m.size() - lo + 1);
    auto s1 = immer::accumulate(a, u64{7}, [](u64 s, const El& e) { return s * 31 + e.k; });
    auto s2 = std::accumulate(m.begin(), m.end(), u64{7}, [](u64 s, u32 e) { return s * 31 + e; });
    if (s1 != s2)
        fail(ALGO, "accumulate differs");
    s1 = immer::accumulate(a.begin() + lo, a.begin() + hi, u64{7}, [](u64 s, const El& e) { return s * 31 + e.k; });
    s2 = std::accumulate(m.begin() + lo, m.begin() + hi, u64{7}, [](u64 s, u32 e) { return s * 31 + e; });
    if (s1 != s2)
        fail(ALGO, "accumulate over a range differs");
    M got;
    immer::for_each(a, [&](const El& e) { got.push_back(e.k); });
    if (got != m)
        fail(ALGO, "for_each differs");
    got.clear();
    immer::for_each_chunk(a, [&](const El* b, const El* e) { for (; b != e; ++b) got.push_back(b->k); });
    if (got != m)
        fail(ALGO | ITER, "for_each_chunk differs");
    u32 stop = r.below(m.size() + 2), seen = 0;
    bool all = immer::all_of(a, [&](const El&) { return seen++ != stop; });
    if (all != (stop >= m.size()) || seen != std::min<size_t>(stop + 1, m.size()))
        fail(ALGO, "all_of differs");
    M c2;
    std::vector<El> cp;
    immer::copy(a, std::back_inserter(cp));
    if (cp.size() != m.size() || !std::equal(cp.begin(), cp.end(), m.begin(), [](const El& e, u32 x) { return e.k == x; }))
        fail(ALGO, "copy differs");
    bool p = immer::for_each_chunk_p(a, [&](const El* b, const El* e) { for (; b != e; ++b) c2.push_back(b->k); return stop & 1; });
    if (c2 != m || p != (bool) (stop & 1))
        fail(ALGO | ITER, "for_each_chunk_p differs");
}

void nat::run_case(u64 seed, u64 n, u32 ops)
{
    rng r{seed * 1000003 + n};
    const bool fault = is("C13");
    { A warm; A w2 = warm.push_back(El{}); T t = w2.transient(); T t2; t2.push_back(El{}); }
    long elems0 = live_elems, blocks0 = live_blocks;
    u32 fresh = 1;
    {
        struct slot { A v; M m; };
        struct tslot { T t; M m; bool sick = false; };
        std::vector<std::unique_ptr<slot>> vs;
        std::vector<std::unique_ptr<tslot>> ts;
        for (int i = 0; i < 4; ++i) vs.emplace_back(new slot);
        for (int i = 0; i < 2; ++i) ts.emplace_back(new tslot);
        auto run = [&](bool keep, auto&& fn) -> bool {
            if (!fault || (!keep && r.below(2))) {
                fn();
                return true;
            }
            for (long k = keep ? 0 : r.below(8);; ++k) {
                long e0 = live_elems, b0 = live_blocks;
                fault_at = k, fault_seen = 0, fault_fired = false, faults_on = true;
                bool thrown = false;
                try {
                    fn();
                } catch (const boom&) {
                    thrown = true;
                } catch (const std::bad_alloc&) {
                    thrown = true;
                }
                faults_on = false;
                if (thrown != fault_fired)
                    fail(FAULT, "the exception of fallible step %ld does not reach the caller", k);
                if (!thrown)
                    return true;
                say("  throws at fallible step %ld", k);
                if (!keep)
                    return false;
                if (counted_elems && live_elems != e0)
                    fail(FAULT, "fallible step %ld throws and %ld elements are leaked", k, live_elems - e0);
                if (counted_blocks && live_blocks != b0)
                    fail(FAULT, "fallible step %ld throws and %ld blocks are leaked", k, live_blocks - b0);
                for (auto& s : vs)
                    check(FAULT | OTHERS, s->v, s->m, "after a throwing operation");
            }
        };
        for (u32 step = 0; step < ops; ++step) {
            u32 i = r.below(4), j = r.below(4);
            slot &a = *vs[i], &b = *vs[j];
            tslot& t = *ts[r.below(2)];
            u32 len  = r.below(4) ? r.below(6) : r.below(40);
            u32 op   = r.below(25);
            size_t x = a.m.empty() ? 0 : r.below(a.m.size());
            size_t tx = t.m.empty() ? 0 : r.below(t.m.size());
            size_t tk = r.below(a.m.size() + 1), ttk = r.below(t.m.size() + 1);
            bool at_end = !r.below(3);
            if (at_end) tk = a.m.size(), ttk = t.m.size();
            u32 f = fresh++;
            auto upd = [&](El e) { fallible(); return El{e.k + 1000}; };
            auto put = [&](A&& v, M m) { b.v = std::move(v); b.m = std::move(m); };
            say("%u: op %u on %u -> %u (size %zu, index %zu, take %zu; transient size %zu)", step, op, i, j, a.m.size(), x, tk, t.m.size());
            A res;
            M m = a.m;
            switch (op) {
            case 0: {
                std::list<El> src;
                m.clear();
                for (u32 q = 0; q < len; ++q) { src.emplace_back(fresh); m.push_back(fresh++); }
                if (run(true, [&] { res = A(src.begin(), src.end()); })) put(std::move(res), m);
                break;
            }
            case 1:
                if (run(true, [&] { res = A(len, El{f}); })) put(std::move(res), M(len, f));
                break;
            case 2:
                if (run(true, [&] { res = A{El{f}, El{f + 1}, El{f + 2}}; })) put(std::move(res), {f, f + 1, f + 2});
                fresh += 3;
                break;
            case 3: b.v = a.v; b.m = a.m; break;
            case 4: if (i != j) { b.v = std::move(a.v); b.m = a.m; a.v = A{}; a.m.clear(); } break;
            case 5: case 6: case 7:
                m.push_back(f);
                if (run(true, [&] { res = a.v.push_back(El{f}); })) put(std::move(res), m);
                break;
            case 8: case 9:
                m.push_back(f);
                if (run(false, [&] { res = std::move(a.v).push_back(El{f}); })) { a.v = A{}; a.m.clear(); put(std::move(res), m); }
                else { a.v = A{}; a.m.clear(); }
                break;
            case 10: if (!m.empty()) { m[x] = f; if (run(true, [&] { res = a.v.set(x, El{f}); })) put(std::move(res), m); } break;
            case 11: if (!m.empty()) { m[x] = f; bool ok = run(false, [&] { res = std::move(a.v).set(x, El{f}); }); a.v = A{}; a.m.clear(); if (ok) put(std::move(res), m); } break;
            case 12: if (!m.empty()) { m[x] += 1000; if (run(true, [&] { res = a.v.update(x, upd); })) put(std::move(res), m); } break;
            case 13: if (!m.empty()) { m[x] += 1000; bool ok = run(false, [&] { res = std::move(a.v).update(x, upd); }); a.v = A{}; a.m.clear(); if (ok) put(std::move(res), m); } break;
            case 14: m.resize(tk); if (run(true, [&] { res = a.v.take(tk); })) put(std::move(res), m); break;
            case 15: { m.resize(tk); bool ok = run(false, [&] { res = std::move(a.v).take(tk); }); a.v = A{}; a.m.clear(); if (ok) put(std::move(res), m); break; }
            case 16: { T nt; if (run(true, [&] { nt = a.v.transient(); })) { t.t = std::move(nt); t.m = a.m; } break; }
            case 17: { T nt; bool ok = run(false, [&] { nt = std::move(a.v).transient(); }); a.v = A{}; M am = std::move(a.m); a.m.clear(); if (ok) { t.t = std::move(nt); t.m = am; } break; }
            case 18: case 19: {
                for (u32 q = 0; q < 1 + r.below(4); ++q) {
                    u32 ff = fresh++;
                    if (!run(false, [&] { t.t.push_back(El{ff}); })) { t.sick = true; break; }
                    t.m.push_back(ff);
                }
                break;
            }
            case 20: if (!t.m.empty()) { if (run(false, [&] { t.t.set(tx, El{f}); })) t.m[tx] = f; else t.sick = true; } break;
            case 21: if (!t.m.empty()) { if (run(false, [&] { t.t.update(tx, upd); })) t.m[tx] += 1000; else t.sick = true; } break;
            case 22: if (run(false, [&] { t.t.take(ttk); })) t.m.resize(ttk); else t.sick = true; break;
            case 23: {
                if (r.below(2)) { if (run(true, [&] { res = t.t.persistent(); })) put(std::move(res), t.m); }
                else { bool ok = run(false, [&] { res = std::move(t.t).persistent(); }); M tm = std::move(t.m); t.t = T{}; t.m.clear(); if (ok) put(std::move(res), tm); }
                break;
            }
            }
            if (op == 24) { auto& o = *ts[&t == ts[0].get()]; if (r.below(2)) t.t = std::as_const(o.t); else t.t = T{std::as_const(o.t)}; t.m = o.m; }
            if (t.sick) { t.t = T{}; t.m.clear(); t.sick = false; }
            res = A{};
            for (auto& s : vs)
                check(s.get() == &b ? CONTENT : OTHERS, s->v, s->m, s.get() == &b ? "in the result" : "in another value");
            for (auto& s : ts)
                check(op >= 16 && s.get() == &t ? CONTENT : OTHERS, s->t, s->m, "in a transient");
            if (is("C11") || is("C14") || is("all")) {
                iterate(is("C14") ? CONTENT : ITER, b.v, b.m, r);
                iterate(is("C14") ? CONTENT : ITER, t.t, t.m, r);
            }
            if (is("C19") || is("C11") || is("all")) algorithms(b.v, b.m, r);
            if (is("C09") || is("all")) {
                for (auto& p : vs)
                    for (auto& q : vs) {
                        if ((p->v == q->v) != (p->m == q->m)) fail(EQ, "== is wrong");
                        if ((p->v != q->v) == (p->m == q->m)) fail(EQ, "!= is wrong");
                    }
                if (!b.m.empty()) {
                    A tw(b.v.begin(), b.v.end());
                    if (!(tw == b.v) || !(b.v == tw)) fail(EQ, "an equal array is not ==");
                    size_t y = r.below(b.m.size());
                    A df = tw.update(y, [](El e) { return El{e.k ^ 1}; });
                    if (df == b.v || b.v == df) fail(EQ, "arrays that differ in one element are ==");
                }
            }
        }
    }
    if (counted_elems && live_elems != elems0)
        fail(LIFE, "%ld elements are still alive at the end", live_elems - elems0);
    if (counted_blocks && live_blocks != blocks0)
        fail(LIFE, "%ld blocks are still allocated at the end", live_blocks - blocks0);
}
