// vector / flex_vector and their transients
#include "main.hpp"
#include "policies.hpp"
#ifndef NAT_FLEX
#define NAT_FLEX 1
#endif
#ifndef NAT_B
#define NAT_B 2
#endif
#ifndef NAT_BL
#define NAT_BL 1
#endif
#include <immer/algorithm.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
using namespace nat;
constexpr u32 B = NAT_B, BL = NAT_BL;
#if NAT_FLEX
using V = immer::flex_vector<El, MP, B, BL>;
#else
using V = immer::vector<El, MP, B, BL>;
#endif
using PV   = immer::vector<El, MP, B, BL>;
using PVT  = PV::transient_type;
using T    = V::transient_type;
using M    = std::vector<u32>;
#ifdef NAT_NO_INTERNALS // the representation is not what this harness knows: only the interface is checked
using node = void;
#else
using impl = std::decay_t<decltype(std::declval<const V&>().impl())>;
using node = impl::node_t;
#endif
constexpr bool flex = NAT_FLEX;

u32 nat_mask_for(const std::string& p)
{
    if (p == "C01" || p == "C02") return CONTENT;
    if (p == "C03") return CONTENT;
    if (p == "C09") return EQ;
    if (p == "C10") return OTHERS;
    if (p == "C11") return ITER;
    if (p == "C12") return LIFE;
    if (p == "C13") return FAULT | OTHERS | LIFE;
    if (p == "C19") return ALGO;
    if (p == "C20") return INV;
    if (p == "C21") return SHARE;
    return ~0u;
}

static bool is(const char* p) { return opt.prop == p; }
static bool is_any() { return opt.prop == "all"; }

// ---- structure
struct shape
{
    std::vector<const node*> nodes;
    u32 height = 0;
};
#ifdef NAT_NO_INTERNALS
template <typename Tree>
static void walk(const Tree&, shape&)
{}
#else
template <typename Tree>
static void walk(const Tree& t, shape& sh)
{
    struct rec
    {
        shape& sh;
        void go(node* n, immer::detail::rbts::shift_t s, size_t size)
        {
            sh.nodes.push_back(n);
            if (s == immer::detail::rbts::endshift<B, BL>) {
                if (size < 1 || size > immer::detail::rbts::branches<BL>)
                    fail(INV, "a leaf of the tree holds %zu elements", (size_t) size);
                return;
            }
            if (auto r = n->relaxed()) {
                auto c = r->d.count;
                if (c < 1 || c > immer::detail::rbts::branches<B>)
                    fail(INV, "a relaxed node has %u children", (unsigned) c);
                size_t last = 0;
                for (u32 i = 0; i < c; ++i) {
                    if (r->d.sizes[i] <= last)
                        fail(INV, "a size table does not grow");
                    go(n->inner()[i], s - B, r->d.sizes[i] - last);
                    last = r->d.sizes[i];
                }
                if (last != size)
                    fail(INV, "a size table ends with %zu for %zu elements", (size_t) last, (size_t) size);
            } else {
                size_t per = size_t{1} << s;
                size_t c   = (size + per - 1) >> s;
                if (c < 1 || c > immer::detail::rbts::branches<B>)
                    fail(INV, "a regular node stands for %zu elements at shift %u", (size_t) size, (unsigned) s);
                for (size_t i = 0; i < c; ++i) {
                    size_t n2 = i + 1 < c ? per : size - per * (c - 1);
                    go(n->inner()[i], s - B, n2);
                }
            }
        }
    };
    // tail_offset by its definition
    if (t.shift < BL || (t.shift - BL) % B != 0 || t.shift > 60)
        fail(INV, "the shift is %u", (unsigned) t.shift);
    auto off = t.tail_offset();
    auto ts  = t.size - off;
    if (off > t.size || ts > immer::detail::rbts::branches<BL> || (t.size && ts == 0))
        fail(INV, "size %zu with tail offset %zu", (size_t) t.size, (size_t) off);
    sh.height = off ? (t.shift - BL) / B + 1 : 0;
    if (off)
        rec{sh}.go(t.root, t.shift, off);
    else if (t.shift != BL)
        fail(INV, "an empty tree has shift %u", (unsigned) t.shift);
    sh.nodes.push_back(t.tail);
}
#endif
static void check_height(size_t n, u32 h)
{
    // logarithmic, with the slack the concatenation algorithm is allowed
    u32 lg = 0;
    while ((size_t{1} << lg) < n + 1)
        ++lg;
    u32 lim = B == 2 ? lg + 2 : (2 * lg) / B + 3;
    if (h > lim)
        fail(INV, "height %u for %zu elements", h, n);
}

// ---- checks of one value against its model
template <typename X>
static void check(u32 c, const X& x, const M& m, const char* what)
{
    if (x.size() != m.size())
        fail(c, "%s: size is %zu, not %zu", what, (size_t) x.size(), m.size());
    if (x.empty() != m.empty())
        fail(c, "%s: empty() is wrong", what);
    for (size_t i = 0; i < m.size(); ++i) {
        const El& e = x[i];
        if (e.self != &e)
            fail(c | LIFE, "%s: no live element at %zu of %zu", what, i, m.size());
        if (e.k != m[i])
            fail(c, "%s: element %zu of %zu is %u, not %u", what, i, m.size(), e.k, m[i]);
    }
}
template <typename X>
static void check_at(u32 c, const X& x, const M& m, rng& r)
{
    for (int j = 0; j < 3; ++j) {
        size_t i = j == 0 ? m.size() : j == 1 ? r.below(m.size() * 2 + 3) : ~size_t{0} - r.below(3);
        bool thrown = false;
        try {
            auto& e = x.at(i);
            if (i < m.size() && e.k != m[i])
                fail(c, "at(%zu) is %u, not %u", i, e.k, m[i]);
        } catch (const std::out_of_range&) {
            thrown = true;
        }
        if (thrown != (i >= m.size()))
            fail(c, "at(%zu) of %zu elements %s", i, m.size(), thrown ? "throws" : "does not throw");
    }
}
template <typename X>
static void check_ends(u32 c, const X& x, const M& m)
{
    if (!m.empty() && (x.front().k != m.front() || x.back().k != m.back()))
        fail(c, "front() or back() is wrong for %zu elements", m.size());
}
template <typename X>
static void check_iter(const X& x, const M& m, rng& r)
{
    size_t n = 0;
    for (auto it = x.begin(), e = x.end(); it != e; ++it, ++n)
        if (n >= m.size() || (*it).k != m[n] || it->k != m[n])
            fail(ITER, "forward iteration is wrong at %zu of %zu", n, m.size());
    if (n != m.size())
        fail(ITER, "forward iteration ends at %zu of %zu", n, m.size());
    for (auto it = x.rbegin(), e = x.rend(); it != e; ++it) {
        if (n == 0 || (*it).k != m[n - 1])
            fail(ITER, "reverse iteration is wrong at %zu of %zu", n, m.size());
        --n;
    }
    if (n != 0)
        fail(ITER, "reverse iteration ends at %zu", n);
    auto b = x.begin();
    if (x.end() - b != (std::ptrdiff_t) m.size() || b - x.end() != -(std::ptrdiff_t) m.size())
        fail(ITER, "end() - begin() is wrong");
    auto it = b;
    std::ptrdiff_t at = 0;
    for (int j = 0; j < 12; ++j) {
        std::ptrdiff_t to = r.below(m.size() + 1);
        auto op           = r.below(4);
        if (op == 0) it += to - at;
        else if (op == 1) it -= at - to;
        else if (op == 2) it = it + (to - at);
        else it = it - (at - to);
        at = to;
        if (at < (std::ptrdiff_t) m.size()) {
            if (r.below(2) && (*it).k != m[at])
                fail(ITER, "after a jump to %td of %zu the iterator reads the wrong element", at, m.size());
            if (b[at].k != m[at])
                fail(ITER, "begin()[%td] reads the wrong element", at);
            if (r.below(2)) {
                auto o = it++;
                ++at;
                if ((*o).k != m[at - 1]) fail(ITER, "post-increment is wrong at %td", at);
                if (it - o != 1) fail(ITER, "post-increment moves by %td", it - o);
            }
        }
        if (at > 0 && r.below(3) == 0) {
            auto o = it--;
            --at;
            if ((*it).k != m[at]) fail(ITER, "post-decrement is wrong at %td", at);
            if (o - it != 1 || !(it < o) || it > o || o <= it || it >= o) fail(ITER, "iterator order is wrong at %td", at);
        }
        if (it - b != at || (it == b) != (at == 0) || (it != x.end()) != (at != (std::ptrdiff_t) m.size()))
            fail(ITER, "iterator distance is wrong at %td of %zu", at, m.size());
    }
}
template <typename X>
static void check_chunks(u32 c, const X& x, const M& m, rng& r)
{
    size_t n = 0;
    immer::for_each_chunk(x, [&](const El* f, const El* l) {
        for (; f != l; ++f, ++n)
            if (n >= m.size() || f->k != m[n])
                fail(c, "for_each_chunk is wrong at %zu of %zu", n, m.size());
    });
    if (n != m.size())
        fail(c, "for_each_chunk ends at %zu of %zu", n, m.size());
    for (int j = 0; j < 6; ++j) {
        size_t a = r.below(m.size() + 1), b = r.below(m.size() + 1);
        if (a > b) std::swap(a, b);
        n = a;
        immer::for_each_chunk(x.begin() + a, x.begin() + b, [&](const El* f, const El* l) {
            for (; f != l; ++f, ++n)
                if (n >= b || f->k != m[n])
                    fail(c, "for_each_chunk over [%zu,%zu) of %zu is wrong at %zu", a, b, m.size(), n);
        });
        if (n != b)
            fail(c, "for_each_chunk over [%zu,%zu) of %zu ends at %zu", a, b, m.size(), n);
        // early exit: stop in the chunk that holds element s
        size_t s  = r.below(m.size() + 2);
        bool rng_ = r.below(2);
        size_t lo = rng_ ? a : 0, hi = rng_ ? b : m.size();
        n            = lo;
        bool stopped = false;
        auto pred    = [&](const El* f, const El* l) {
            if (stopped)
                fail(c, "for_each_chunk_p goes on after the predicate said stop");
            for (; f != l; ++f, ++n) {
                if (n >= hi || f->k != m[n])
                    fail(c, "for_each_chunk_p over [%zu,%zu) of %zu is wrong at %zu", lo, hi, m.size(), n);
                if (n == s) {
                    stopped = true;
                    return false;
                }
            }
            return true;
        };
        bool res = rng_ ? immer::for_each_chunk_p(x.begin() + a, x.begin() + b, pred) : immer::for_each_chunk_p(x, pred);
        bool exp = !(s >= lo && s < hi);
        if (res != exp || stopped == exp || (exp && n != hi))
            fail(c, "for_each_chunk_p over [%zu,%zu) of %zu stopping at %zu returns %d", lo, hi, m.size(), s, res);
    }
}
template <typename X>
static void check_algo(const X& x, const M& m, rng& r)
{
    size_t a = r.below(m.size() + 1), b = r.below(m.size() + 1);
    if (a > b) std::swap(a, b);
    auto op = [](u64 acc, const El& e) { return acc * 31 + e.k; };
    auto om = [](u64 acc, u32 k) { return acc * 31 + k; };
    if (immer::accumulate(x, u64{7}, op) != std::accumulate(m.begin(), m.end(), u64{7}, om))
        fail(ALGO, "accumulate differs for %zu elements", m.size());
    if (immer::accumulate(x.begin() + a, x.begin() + b, u64{7}, op) !=
        std::accumulate(m.begin() + a, m.begin() + b, u64{7}, om))
        fail(ALGO, "accumulate differs over [%zu,%zu) of %zu", a, b, m.size());
    std::vector<u32> got;
    immer::for_each(x, [&](const El& e) { got.push_back(e.k); });
    if (got != m)
        fail(ALGO, "for_each differs for %zu elements", m.size());
    got.clear();
    immer::for_each(x.begin() + a, x.begin() + b, [&](const El& e) { got.push_back(e.k); });
    if (got != M(m.begin() + a, m.begin() + b))
        fail(ALGO, "for_each differs over [%zu,%zu) of %zu", a, b, m.size());
    std::vector<El> out(m.size());
    auto e = immer::copy(x, out.begin());
    if (e != out.end())
        fail(ALGO, "copy returns the wrong position");
    for (size_t i = 0; i < m.size(); ++i)
        if (out[i].k != m[i]) fail(ALGO, "copy differs at %zu", i);
    std::vector<El> out2(b - a);
    if (immer::copy(x.begin() + a, x.begin() + b, out2.begin()) != out2.end())
        fail(ALGO, "copy of a range returns the wrong position");
    for (size_t i = a; i < b; ++i)
        if (out2[i - a].k != m[i]) fail(ALGO, "copy of a range differs at %zu", i);
    for (int whole = 0; whole < 2; ++whole) {
        size_t lo = whole ? 0 : a, hi = whole ? m.size() : b;
        u32 bad = m.empty() ? 0 : m[r.below(m.size())];
        bool none = r.below(3) == 0;
        size_t seen = 0;
        auto p = [&](const El& e) { ++seen; return none || e.k != bad; };
        bool res = whole ? immer::all_of(x, p) : immer::all_of(x.begin() + lo, x.begin() + hi, p);
        size_t first = lo;
        while (first < hi && (none || m[first] != bad)) ++first;
        if (res != (first == hi) || seen != (first == hi ? hi - lo : first - lo + 1))
            fail(ALGO, "all_of over [%zu,%zu) of %zu: returns %d after %zu elements", lo, hi, m.size(), res, seen);
    }
    // constructors from ranges
    V rng_v(m.begin(), m.end());
    check(ALGO, rng_v, m, "construction from a range");
    V rng_w(x.begin() + a, x.begin() + b);
    check(ALGO, rng_w, M(m.begin() + a, m.begin() + b), "construction from an iterator range");
}

struct slot
{
    V v;
    M m;
};
struct tslot
{
    T t;
    M m;
};
struct world
{
    std::vector<std::unique_ptr<slot>> vs;
    std::vector<std::unique_ptr<tslot>> ts;
};

static size_t pick_size(rng& r, size_t n)
{
    // positions near chunk and level borders are the interesting ones
    if (n == 0) return 0;
    switch (r.below(6)) {
    case 0: return 0;
    case 1: return n;
    case 2: return n - std::min<size_t>(n, 1 + r.below(3));
    case 3: {
        size_t step = size_t{1} << (BL + B * r.below(3));
        size_t p    = step * r.below(n / step + 1) + r.below(3);
        p           = p ? p - 1 : 0;
        return std::min(p, n);
    }
    default: return r.below(n + 1);
    }
}

void nat::run_case(u64 seed, u64 n, u32 ops)
{
    rng r{seed * 1000003 + n};
    const bool all    = is_any();
    const bool fault  = is("C13");
    const bool share  = is("C21");
    const bool trans  = is("C03") || is("C10") || is("C12") || is("C13") || is("C09") || is("C11") || is("C20") || all;
    { V warm; T t = warm.transient(); PV p; } // the shared empty nodes
    long elems0 = live_elems, blocks0 = live_blocks;
    u32 fresh = 1;
    const size_t cap = is("C20") && r.below(4) == 0 ? 3000 : (r.below(5) == 0 ? 700 : r.below(3) ? 60 : 180);
    {
        world w;
        const size_t NV = 4, NT = trans ? 2 : 0;
        for (size_t i = 0; i < NV; ++i) w.vs.push_back(std::unique_ptr<slot>(new slot));
        for (size_t i = 0; i < NT; ++i) w.ts.push_back(std::unique_ptr<tslot>(new tslot));
        // runs fn, an operation that leaves its operands alone, with every fault it can meet; true when it completes
        auto persistent = [&](auto&& fn) -> bool {
            if (!fault) {
                fn();
                return true;
            }
            for (long k = 0;; ++k) {
                long e0 = live_elems, b0 = live_blocks;
                fault_at = k, fault_seen = 0, fault_fired = false, faults_on = true;
                bool thrown = false;
                try {
                    fn();
                } catch (const boom&) {
                    thrown = true;
                } catch (const std::bad_alloc&) {
                    thrown = true;
                }
                faults_on = false;
                if (thrown != fault_fired)
                    fail(FAULT, "the exception of fallible step %ld does not reach the caller", k);
                if (!thrown)
                    return true;
                if (counted_elems && live_elems != e0)
                    fail(FAULT, "fallible step %ld throws and %ld elements are leaked", k, live_elems - e0);
                if (counted_blocks && live_blocks != b0)
                    fail(FAULT, "fallible step %ld throws and %ld blocks are leaked", k, live_blocks - b0);
                for (auto& s : w.vs)
                    check(FAULT | OTHERS, s->v, s->m, "after a throwing operation");
                if (k > 60)
                    k += r.below(20);
            }
        };
        // an operation that may consume its object; false if it threw
        auto consuming = [&](auto&& fn) -> bool {
            if (!fault || r.below(2)) {
                fn();
                return true;
            }
            fault_at = r.below(r.below(3) ? 6 : 24), fault_seen = 0, fault_fired = false, faults_on = true;
            bool thrown = false;
            try {
                fn();
            } catch (const boom&) {
                thrown = true;
            } catch (const std::bad_alloc&) {
                thrown = true;
            }
            faults_on = false;
            if (thrown != fault_fired)
                fail(FAULT, "an exception does not reach the caller");
            if (thrown)
                say("  throws at fallible step %ld", fault_at);
            return !thrown;
        };
        // the concatenation of transients that have owners is not prepared for exceptions (see known-findings.txt)
        auto merging = [&](auto&& fn) -> bool {
#if NAT_MERGE_FAULTS
            return consuming(fn);
#else
            fn();
            return true;
#endif
        };
        for (u32 step = 0; step < ops; ++step) {
            u32 i = r.below(NV), j = r.below(NV), d = r.below(NV);
            slot& a = *w.vs[i];
            slot& b = *w.vs[j];
            auto put = [&](V&& v, M m) {
                // destination gets the value; the old one dies
                w.vs[d]->v = std::move(v);
                w.vs[d]->m = std::move(m);
            };
            V res;
            M rm;
            bool got = true;
            size_t allocs0 = total_allocs;
            bool single = false;
            auto an     = a.m.size();
            // an iterator held across the operation
            auto it0 = a.v.begin();
            size_t itp = an ? r.below(an) : 0;
            if (an) { it0 += itp; (void) (*it0).k; }
            enum { P, R, TR } kind = P;
            u32 roll = r.below(100);
            if (trans) {
                bool rv_ok = true;
                kind = roll < 45 ? P : roll < 70 && rv_ok ? R : TR;
                if (is("C03") && kind == P && r.below(2)) kind = R;
            }
            bool small = an < cap;
            if (kind == P) {
                u32 op = r.below(flex ? 17 : 9);
                switch (op) {
                case 0: {
                    u32 how = r.below(3);
                    size_t len = r.below(3) == 0 ? r.below(cap) : r.below(12);
                    if (how == 0) {
                        for (size_t x = 0; x < len; ++x) rm.push_back(fresh++);
                        say("v%u = V(range of %zu)", d, len);
                        persistent([&] { res = V(rm.begin(), rm.end()); });
                    } else if (how == 1) {
                        rm.assign(len, fresh);
                        say("v%u = V(%zu, %u)", d, len, fresh);
                        El e{fresh};
                        persistent([&] { res = V(len, e); });
                    } else {
                        rm = {fresh, fresh + 1, fresh + 2, fresh + 3, fresh + 4};
                        say("v%u = V{5 elements}", d);
                        El e[5] = {rm[0], rm[1], rm[2], rm[3], rm[4]};
                        persistent([&] { res = V{e[0], e[1], e[2], e[3], e[4]}; });
                    }
                    ++fresh;
                    break;
                }
                case 1:
                    say("v%u = v%u", d, i);
                    res = a.v;
                    rm  = a.m;
                    break;
                case 2:
                case 3:
                case 4:
                    if (op == 4 && small) {
                        // a run of push_backs: crosses chunk and level borders
                        u32 len = 1 + r.below(40);
                        say("v%u = v%u.push_back x %u", d, i, len);
                        res = a.v;
                        rm  = a.m;
                        while (len--) {
                            persistent([&] { res = std::as_const(res).push_back(El{fresh}); });
                            rm.push_back(fresh++);
                        }
                        break;
                    }
                    say("v%u = v%u.push_back(%u)", d, i, fresh);
                    single = true;
                    persistent([&] { res = std::as_const(a.v).push_back(El{fresh}); });
                    rm = a.m;
                    rm.push_back(fresh++);
                    break;
                case 5:
                case 6: {
                    if (!an) { got = false; break; }
                    size_t p = pick_size(r, an - 1);
                    single   = true;
                    rm       = a.m;
                    if (op == 5) {
                        say("v%u = v%u.set(%zu, %u) of %zu", d, i, p, fresh, an);
                        persistent([&] { res = std::as_const(a.v).set(p, El{fresh}); });
                        rm[p] = fresh;
                    } else {
                        say("v%u = v%u.update(%zu, +1000000) of %zu", d, i, p, an);
                        int calls = 0;
                        persistent([&] {
                            calls = 0;
                            res = std::as_const(a.v).update(p, [&](El e) { ++calls; fallible(); return El{e.k + 1000000}; });
                        });
                        if (calls != 1) fail(CONTENT, "update calls the function %d times", calls);
                        rm[p] += 1000000;
                    }
                    ++fresh;
                    break;
                }
                case 7:
                case 8: {
                    size_t p = r.below(4) == 0 ? an + r.below(3) : pick_size(r, an);
                    say("v%u = v%u.take(%zu) of %zu", d, i, p, an);
                    persistent([&] { res = std::as_const(a.v).take(p); });
                    rm.assign(a.m.begin(), a.m.begin() + std::min(p, an));
                    if (p >= an && an && res.identity() != a.v.identity())
                        fail(SHARE, "take of the whole does not share it");
                    break;
                }
#if NAT_FLEX
                case 9:
                case 10: {
                    size_t p = r.below(4) == 0 ? an + r.below(3) : pick_size(r, an);
                    say("v%u = v%u.drop(%zu) of %zu", d, i, p, an);
                    persistent([&] { res = std::as_const(a.v).drop(p); });
                    rm.assign(a.m.begin() + std::min(p, an), a.m.end());
                    if (p == 0 && an && res.identity() != a.v.identity())
                        fail(SHARE, "drop of nothing does not share the whole");
                    break;
                }
                case 11:
                case 12:
                case 13: {
                    if (an + b.m.size() > cap * 2) { got = false; break; }
                    say("v%u = v%u + v%u, %zu + %zu", d, i, j, an, b.m.size());
                    persistent([&] { res = std::as_const(a.v) + std::as_const(b.v); });
                    rm = a.m;
                    rm.insert(rm.end(), b.m.begin(), b.m.end());
                    break;
                }
                case 14:
                    say("v%u = v%u.push_front(%u)", d, i, fresh);
                    persistent([&] { res = std::as_const(a.v).push_front(El{fresh}); });
                    rm = a.m;
                    rm.insert(rm.begin(), fresh++);
                    break;
                case 15: {
                    size_t p = pick_size(r, an);
                    rm       = a.m;
                    if (r.below(2) || an + b.m.size() > cap * 2) {
                        say("v%u = v%u.insert(%zu, %u) of %zu", d, i, p, fresh, an);
                        persistent([&] { res = std::as_const(a.v).insert(p, El{fresh}); });
                        rm.insert(rm.begin() + p, fresh++);
                    } else {
                        say("v%u = v%u.insert(%zu, v%u) of %zu, %zu", d, i, p, j, an, b.m.size());
                        persistent([&] { res = std::as_const(a.v).insert(p, b.v); });
                        M bm = b.m;
                        rm.insert(rm.begin() + p, bm.begin(), bm.end());
                    }
                    break;
                }
                case 16: {
                    if (!an) { got = false; break; }
                    size_t p = pick_size(r, an - 1), q = pick_size(r, an);
                    rm = a.m;
                    if (r.below(2)) {
                        say("v%u = v%u.erase(%zu) of %zu", d, i, p, an);
                        persistent([&] { res = std::as_const(a.v).erase(p); });
                        rm.erase(rm.begin() + p);
                    } else {
                        say("v%u = v%u.erase(%zu, %zu) of %zu", d, i, p, q, an);
                        persistent([&] { res = std::as_const(a.v).erase(p, q); });
                        if (q > p) rm.erase(rm.begin() + p, rm.begin() + q);
                    }
                    break;
                }
#endif
                default: got = false;
                }
                if (!got) continue;
                // the source kept its content, and an iterator into it too
                check(OTHERS, a.v, a.m, "the source of an operation");
                if (an && (*it0).k != a.m[itp])
                    fail(OTHERS, "an iterator into the source reads another element");
                check(CONTENT, res, rm, "result");
                if (single && share) {
                    shape s0, s1;
                    walk(a.v.impl(), s0);
                    walk(res.impl(), s1);
                    size_t levels = std::max(s0.height, s1.height) + 1;
                    size_t lim    = 2 * levels + 2;
                    bool sh_known = !s1.nodes.empty();
                    if (sh_known && counted_blocks && total_allocs - allocs0 > lim)
                        fail(SHARE, "an operation on one element allocates %zu blocks at height %zu",
                             (size_t) (total_allocs - allocs0), levels);
                    std::sort(s0.nodes.begin(), s0.nodes.end());
                    size_t fresh_nodes = 0;
                    for (auto x : s1.nodes) fresh_nodes += !std::binary_search(s0.nodes.begin(), s0.nodes.end(), x);
                    if (fresh_nodes > levels + 1)
                        fail(SHARE, "an operation on one element makes %zu new nodes at height %zu", fresh_nodes, levels);
                }
                put(std::move(res), std::move(rm));
            } else if (kind == R) {
                // an rvalue: the slot's own object (perhaps its only owner), or a copy
                bool own = r.below(3) != 0;
                V x;
                M xm = a.m;
                if (own) { x = std::move(a.v); a.v = V{}; a.m.clear(); }
                else x = a.v;
                V y = b.v; // never the same object
                M ym = b.m;
                if (flex && r.below(2) && i != j) { y = std::move(b.v); b.v = V{}; b.m.clear(); }
                say("x = %s v%u", own ? "move of" : "copy of", i);
                u32 op  = r.below(flex ? 13 : 4);
                bool ok = true;
                bool self_result = true;
                switch (op) {
                case 0: {
                    u32 len = r.below(3) ? 1 : 1 + r.below(30);
                    if (!small) len = 1;
                    say("v%u = move(x).push_back(%u) x %u", d, fresh, len);
                    rm = xm;
                    ok = consuming([&] {
                        while (len--) {
                            x = std::move(x).push_back(El{fresh});
                            rm.push_back(fresh++);
                        }
                    });
                    res = std::move(x);
                    break;
                }
                case 1:
                case 2: {
                    if (xm.empty()) { rm = xm; res = std::move(x); break; }
                    size_t p = pick_size(r, xm.size() - 1);
                    say("v%u = move(x).%s(%zu, %u) of %zu", d, op == 1 ? "set" : "update", p, fresh, xm.size());
                    rm = xm;
                    rm[p] = fresh;
                    ok = consuming([&] {
                        if (op == 1) res = std::move(x).set(p, El{fresh});
                        else res = std::move(x).update(p, [&](El) { fallible(); return El{fresh}; });
                    });
                    ++fresh;
                    break;
                }
                case 3: {
                    size_t p = r.below(4) == 0 ? xm.size() + 1 : pick_size(r, xm.size());
                    say("v%u = move(x).take(%zu) of %zu", d, p, xm.size());
                    rm.assign(xm.begin(), xm.begin() + std::min(p, xm.size()));
                    ok = consuming([&] { res = std::move(x).take(p); });
                    break;
                }
#if NAT_FLEX
                case 4:
                case 5: {
                    size_t p = r.below(4) == 0 ? xm.size() + 1 : pick_size(r, xm.size());
                    say("v%u = move(x).drop(%zu) of %zu", d, p, xm.size());
                    rm.assign(xm.begin() + std::min(p, xm.size()), xm.end());
                    ok = consuming([&] { res = std::move(x).drop(p); });
                    break;
                }
                case 6:
                case 7:
                case 8:
                case 9: {
                    if (xm.size() + ym.size() > cap * 2) { rm = xm; res = std::move(x); break; }
                    rm = xm;
                    rm.insert(rm.end(), ym.begin(), ym.end());
                    u32 how = r.below(3);
                    say("v%u = %s x + %s y(v%u), %zu + %zu", d, how == 1 ? "const" : "move", how == 0 ? "const" : "move", j,
                        xm.size(), ym.size());
                    ok = merging([&] {
                        if (how == 0) res = std::move(x) + std::as_const(y);
                        else if (how == 1) res = std::as_const(x) + std::move(y);
                        else res = std::move(x) + std::move(y);
                    });
                    if (ok && how == 0) check(OTHERS, y, ym, "the const right operand");
                    if (ok && how == 1) check(OTHERS, x, xm, "the const left operand");
                    if (!ok && how == 0) check(OTHERS | FAULT, y, ym, "the const right operand");
                    if (!ok && how == 1) check(OTHERS | FAULT, x, xm, "the const left operand");
                    break;
                }
                case 10: {
                    size_t p = pick_size(r, xm.size());
                    rm = xm;
                    say("v%u = move(x).insert(%zu, %u) of %zu", d, p, fresh, xm.size());
                    ok = merging([&] { res = std::move(x).insert(p, El{fresh}); });
                    rm.insert(rm.begin() + p, fresh++);
                    break;
                }
                case 11: {
                    size_t p = pick_size(r, xm.size());
                    if (xm.size() + ym.size() > cap * 2) { rm = xm; res = std::move(x); break; }
                    rm = xm;
                    say("v%u = move(x).insert(%zu, v%u) of %zu, %zu", d, p, j, xm.size(), ym.size());
                    ok = merging([&] { res = std::move(x).insert(p, y); });
                    rm.insert(rm.begin() + p, ym.begin(), ym.end());
                    if (ok) check(OTHERS, y, ym, "the inserted vector");
                    break;
                }
                case 12: {
                    if (xm.empty()) { rm = xm; res = std::move(x); break; }
                    size_t p = pick_size(r, xm.size() - 1), q = pick_size(r, xm.size());
                    rm = xm;
                    bool one = r.below(2);
                    say("v%u = move(x).erase(%zu%s) of %zu", d, p, one ? "" : (", " + std::to_string(q)).c_str(), xm.size());
                    ok = merging([&] { if (one) res = std::move(x).erase(p);
#if NAT_POL != 2 && NAT_POL != 4
                        else res = std::move(x).erase(p, q);
#else
                        else res = std::as_const(x).erase(p, q);
#endif
                    });
                    if (one) rm.erase(rm.begin() + p);
                    else if (q > p) rm.erase(rm.begin() + p, rm.begin() + q);
                    break;
                }
#endif
                }
                (void) self_result;
                if (ok) {
                    check(CONTENT, res, rm, "result of an rvalue operation");
                    put(std::move(res), std::move(rm));
                }
            } else {
                tslot& t = *w.ts[r.below(NT)];
                tslot& o = *w.ts[&t == w.ts[0].get() ? 1 : 0];
                auto tn  = t.m.size();
                u32 ti   = &t == w.ts[0].get() ? 0 : 1;
                bool ok  = true;
                u32 op   = r.below(flex ? 19 : 13);
                if (!flex && op >= 10) op += 6;
                // what has been moved from is a transient like any other, with whatever contents it has
                auto left_behind = [&](tslot& x) {
                    x.m.clear();
                    if (r.below(2)) x.t = T{};
                    else for (auto& e : x.t) x.m.push_back(e.k);
                };
                switch (op) {
                case 0:
                    say("t%u = v%u.transient()", ti, i);
                    t.t = std::as_const(a.v).transient();
                    t.m = a.m;
                    break;
                case 1:
                    say("t%u = move(v%u).transient()", ti, i);
                    t.t = std::move(a.v).transient();
                    t.m = a.m;
                    a.v = V{};
                    a.m.clear();
                    break;
                case 2:
                    say("v%u = t%u.persistent()", d, ti);
                    w.vs[d]->v = t.t.persistent();
                    w.vs[d]->m = t.m;
                    break;
                case 3:
                    say("v%u = move(t%u).persistent()", d, ti);
                    w.vs[d]->v = std::move(t.t).persistent();
                    w.vs[d]->m = t.m;
                    left_behind(t);
                    break;
                case 16: // transients are values, too
                    say("t%u = t%u", ti, 1 - ti);
                    t.t = std::as_const(o.t);
                    t.m = o.m;
                    break;
                case 17:
                    say("t%u = T{t%u}", ti, 1 - ti);
                    t.t = T{std::as_const(o.t)};
                    t.m = o.m;
                    break;
                case 18:
                    say("t%u = move(t%u)", ti, 1 - ti);
                    if (r.below(2)) t.t = std::move(o.t);
                    else t.t = T{std::move(o.t)};
                    t.m = o.m;
                    left_behind(o);
                    break;
                case 4:
                case 5: {
                    u32 len = r.below(3) ? 1 + r.below(3) : 1 + r.below(40);
                    if (tn > cap) len = 1;
                    say("t%u.push_back(%u) x %u", ti, fresh, len);
                    ok = consuming([&] {
                        while (len--) {
                            t.t.push_back(El{fresh});
                            t.m.push_back(fresh++);
                        }
                    });
                    break;
                }
                case 6:
                case 7:
                case 8: {
                    if (!tn) break;
                    size_t p = pick_size(r, tn - 1);
                    say("t%u.%s(%zu, %u) of %zu", ti, op == 6 ? "set" : "update", p, fresh, tn);
                    ok = consuming([&] {
                        if (op == 6) t.t.set(p, El{fresh});
                        else t.t.update(p, [&](El) { fallible(); return El{fresh}; });
                    });
                    t.m[p] = fresh++;
                    break;
                }
                case 9: {
                    size_t p = r.below(4) == 0 ? tn + 1 : pick_size(r, tn);
                    say("t%u.take(%zu) of %zu", ti, p, tn);
                    ok = consuming([&] { t.t.take(p); });
                    if (p < tn) t.m.resize(p);
                    break;
                }
#if NAT_FLEX
                case 10:
                case 11: {
                    size_t p = r.below(4) == 0 ? tn + 1 : pick_size(r, tn);
                    say("t%u.drop(%zu) of %zu", ti, p, tn);
                    ok = consuming([&] { t.t.drop(p); });
                    t.m.erase(t.m.begin(), t.m.begin() + std::min(p, tn));
                    break;
                }
                case 12:
                case 13:
                case 14:
                case 15: {
                    if (tn + o.m.size() > cap * 2) break;
                    bool mv = r.below(2), app = op < 14;
                    M om = o.m;
                    say("t%u.%s(%s t%u), %zu and %zu", ti, app ? "append" : "prepend", mv ? "move" : "", 1 - ti, tn, om.size());
ok = merging([&] {
                        if (app) { if (mv) t.t.append(std::move(o.t)); else t.t.append(o.t); }
                        else { if (mv) t.t.prepend(std::move(o.t)); else t.t.prepend(o.t); }
                    });
                    if (app) t.m.insert(t.m.end(), om.begin(), om.end());
                    else t.m.insert(t.m.begin(), om.begin(), om.end());
                    if (mv) { o.t = T{}; o.m.clear(); }
                    break;
                }
#endif
                }
                if (!ok) {
                    t.t = T{};
                    t.m.clear();
                }
                check(CONTENT, t.t, t.m, "transient");
                if (is("C11")) { check_iter(t.t, t.m, r); }
            }
            // everything else is as it was
            for (size_t x = 0; x < NV; ++x)
                check(x == d && kind != TR ? CONTENT : OTHERS, w.vs[x]->v, w.vs[x]->m, "a live value");
            for (auto& t : w.ts) check(OTHERS, t->t, t->m, "a live transient");
            slot& s = *w.vs[d];
            if (is("C01") || is("C02") || all) { check_at(CONTENT, s.v, s.m, r); check_ends(CONTENT, s.v, s.m); }
            if (is("C03")) for (auto& t : w.ts) check_at(CONTENT, t->t, t->m, r);
            if (is("C11") || all) { check_iter(s.v, s.m, r); check_chunks(ITER, s.v, s.m, r); }
            if (is("C19") || all) { check_chunks(ALGO, s.v, s.m, r); check_algo(s.v, s.m, r); }
            if (is("C20") || all) {
                shape sh;
                walk(s.v.impl(), sh);
                check_height(s.m.size(), sh.height);
            }
            if (is("C09") || all) {
                // the same content built in another way, and a value that differs in one place
                std::vector<V> vs;
                std::vector<M> ms;
                for (auto& x : w.vs) { vs.push_back(x->v); ms.push_back(x->m); }
                vs.push_back(V(s.m.begin(), s.m.end()));
                ms.push_back(s.m);
                size_t len = s.m.size();
                if (len) {
                    size_t p = pick_size(r, len - 1);
                    V c = std::as_const(s.v).set(p, El{s.m[p]});
                    vs.push_back(c); ms.push_back(s.m);
                    vs.push_back(std::as_const(s.v).set(p, El{0xfffffff}));
                    ms.push_back(s.m); ms.back()[p] = 0xfffffff;
                    V f(s.m.begin(), s.m.end());
                    vs.push_back(std::as_const(f).set(p, El{0xfffffff})); ms.push_back(ms.back());
                }
#if NAT_FLEX
                {
                    size_t p = pick_size(r, len);
                    V x = std::as_const(s.v).take(p), y = std::as_const(s.v).drop(p);
                    vs.push_back(x + y); ms.push_back(s.m);
                    V junk(r.below(40), El{5});
                    V z = (junk + s.v).drop(junk.size());
                    vs.push_back(z); ms.push_back(s.m);
                    M pre;
                    V e;
                    for (size_t q = len; q-- > 0 && len < 40;) e = e.push_front(El{s.m[q]});
                    if (len < 40) { vs.push_back(e); ms.push_back(s.m); }
                }
#endif
                for (size_t x = 0; x < vs.size(); ++x)
                    for (size_t y = 0; y < vs.size(); ++y) {
                        bool eq = vs[x] == vs[y], ne = vs[x] != vs[y], ex = ms[x] == ms[y];
                        if (eq != ex || ne == ex)
                            fail(EQ, "two values of %zu and %zu elements, forms %zu and %zu of v%u: == is %d, != is %d, the contents are %s",
                                 ms[x].size(), ms[y].size(), x, y, d, eq, ne, ex ? "equal" : "different");
                    }
            }
        }
#if NAT_FLEX
        if (is("C20") && r.below(4) == 0) {
            // long chains of concatenations and slices
            V acc;
            M am;
            u32 how = r.below(4);
            for (u32 x = 0; x < 600; ++x) {
                u32 len = 1 + r.below(how == 0 ? 2 : 9);
                M pm;
                for (u32 y = 0; y < len; ++y) pm.push_back(fresh++);
                V piece(pm.begin(), pm.end());
                if (how == 1 || (how == 2 && r.below(2))) { acc = std::as_const(piece) + std::as_const(acc); am.insert(am.begin(), pm.begin(), pm.end()); }
                else { acc = std::as_const(acc) + std::as_const(piece); am.insert(am.end(), pm.begin(), pm.end()); }
                if (how == 3 && r.below(3) == 0) {
                    u32 p = r.below(4);
                    acc = std::as_const(acc).drop(p);
                    am.erase(am.begin(), am.begin() + std::min<size_t>(p, am.size()));
                }
                if (x % 50 == 49) {
                    shape sh;
                    walk(acc.impl(), sh);
                    check_height(am.size(), sh.height);
                }
            }
            check(INV, acc, am, "a chain of concatenations");
        }
#endif
    }
    if (counted_elems && live_elems != elems0)
        fail(LIFE, "%ld elements are never destroyed", live_elems - elems0);
    if (counted_blocks && live_blocks != blocks0)
        fail(LIFE, "%ld blocks are never given back", live_blocks - blocks0);
}
