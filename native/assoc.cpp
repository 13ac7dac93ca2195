// set / map / table and their transients
#include "main.hpp"
#include "policies.hpp"
#ifndef NAT_KIND
#define NAT_KIND 1 // 0 set, 1 map, 2 table
#endif
#ifndef NAT_B
#define NAT_B 2
#endif
#include <immer/algorithm.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
using namespace nat;

static u32 hash_mode = 0;
static size_t hash_of(u32 k)
{
    u64 x = k;
    switch (hash_mode) {
    case 0: return x;
    case 1: return (x + 1) * 0x9E3779B97F4A7C15ull;
    case 2: return 42;
    case 3: return x & 3;
    case 4: return x << 62;                     // the last levels only
    case 5: return (x % 5) * 0x0123456789abcdefull;
    case 6: return (x & 1) | (x << 60);         // long shared paths
    case 7: return (x & 7) * 0x1111111111111111ull;
    case 8: return (x % 3) | ((x / 3 % 4) << 20) | ((x / 12 % 3) << 61);
    default: return ~x;
    }
}
struct Eq
{
    using is_transparent = void;
    bool operator()(const El& a, const El& b) const { a.need("compared"); b.need("compared"); return a.k == b.k; }
    bool operator()(const El& a, u32 b) const { a.need("compared"); return a.k == b; }
    bool operator()(u32 b, const El& a) const { a.need("compared"); return a.k == b; }
};
struct Hash
{
    using is_transparent = void;
    size_t operator()(const El& a) const { a.need("hashed"); return hash_of(a.k); }
    size_t operator()(u32 a) const { return hash_of(a); }
};
struct Rec
{
    El id;
    El val;
    friend bool operator==(const Rec& a, const Rec& b) { return a.id == b.id && a.val == b.val; }
    friend bool operator!=(const Rec& a, const Rec& b) { return !(a == b); }
};
struct KeyFn
{
    const El& operator()(const Rec& r) const { return r.id; }
    template <typename K>
    Rec operator()(Rec r, K&& k) const
    {
        r.id = std::forward<K>(k);
        return r;
    }
};
#if NAT_KIND == 0
using V = immer::set<El, Hash, Eq, MP, NAT_B>;
static u32 key_of(const El& e) { return e.k; }
static u32 val_of(const El& e) { return e.v; }
#elif NAT_KIND == 1
using V = immer::map<El, El, Hash, Eq, MP, NAT_B>;
static u32 key_of(const std::pair<El, El>& e) { e.first.need("read"); return e.first.k; }
static u32 val_of(const std::pair<El, El>& e) { e.second.need("read"); return e.second.k; }
#else
using V = immer::table<Rec, KeyFn, Hash, Eq, MP, NAT_B>;
static u32 key_of(const Rec& e) { e.id.need("read"); return e.id.k; }
static u32 val_of(const Rec& e) { e.val.need("read"); return e.val.k; }
#endif
using T    = V::transient_type;
using VT   = V::value_type;
using M    = std::map<u32, u32>;
#ifdef NAT_NO_INTERNALS // the representation is not what this harness knows: only the interface is checked
using impl = std::decay_t<decltype(std::declval<const V&>().impl())>;
using node = void;
#else
using impl = std::decay_t<decltype(std::declval<const V&>().impl())>;
using node = impl::node_t;
#endif
static VT mk(u32 k, u32 v)
{
#if NAT_KIND == 0
    return El{k};
#elif NAT_KIND == 1
    return {El{k}, El{v}};
#else
    return {El{k}, El{v}};
#endif
}

u32 nat_mask_for(const std::string& p)
{
    if (p == "C04" || p == "C05" || p == "C06" || p == "C07") return CONTENT;
    if (p == "C08") return DIFF;
    if (p == "C09") return EQ;
    if (p == "C10") return OTHERS;
    if (p == "C11") return ITER;
    if (p == "C12") return LIFE;
    if (p == "C13") return FAULT | OTHERS | LIFE;
    if (p == "C19") return ALGO | DIFF;
    if (p == "C20") return INV;
    if (p == "C21") return SHARE;
    return ~0u;
}
static bool is(const char* p) { return opt.prop == p; }
static bool is_any() { return opt.prop == "all"; }

// ---- structure
struct shape
{
    std::map<const node*, std::pair<u64, u32>> at; // prefix and depth of every node
    u32 height = 0;
};
#ifdef NAT_NO_INTERNALS
static shape shape_of(const impl&) { return {}; }
#else
constexpr u32 MAXD = immer::detail::hamts::max_depth<NAT_B>;
static size_t walk(const node* n, u64 prefix, u32 depth, shape& sh)
{
    sh.at[n]  = {prefix, depth};
    sh.height = std::max(sh.height, depth);
    u64 pmask = depth * NAT_B >= 64 ? ~u64{0} : (u64{1} << (depth * NAT_B)) - 1;
    auto elem = [&](const VT& v) {
        if ((hash_of(key_of(v)) & pmask) != prefix)
            fail(INV, "an element is not on the path of its hash");
    };
    if (depth >= MAXD) {
        auto c = n->collision_count();
        if (c < 2)
            fail(INV, "a collision node holds %u elements", (unsigned) c);
        for (u32 i = 0; i < c; ++i) {
            elem(n->collisions()[i]);
            for (u32 j = 0; j < i; ++j)
                if (key_of(n->collisions()[i]) == key_of(n->collisions()[j]))
                    fail(INV, "a collision node holds an element twice");
        }
        return c;
    }
    u64 nm = n->nodemap(), dm = n->datamap();
    if (nm & dm)
        fail(INV, "a slot is both a child and an element");
    size_t total = 0;
    u32 ci = 0, di = 0;
    for (u32 b = 0; b < (1u << NAT_B); ++b) {
        u64 bit = u64{1} << b;
        u64 sub = prefix | (depth * NAT_B < 64 ? u64{b} << (depth * NAT_B) : 0);
        if (nm & bit) {
            size_t c = walk(n->children()[ci++], sub, depth + 1, sh);
            if (c < 2)
                fail(INV, "a subtree below the root holds %zu elements", c);
            total += c;
        }
        if (dm & bit) {
            const VT& v = n->values()[di++];
            elem(v);
            u64 m2 = (depth + 1) * NAT_B >= 64 ? ~u64{0} : (u64{1} << ((depth + 1) * NAT_B)) - 1;
            if ((hash_of(key_of(v)) & m2) != sub)
                fail(INV, "an element is in the wrong slot");
            ++total;
        }
    }
    return total;
}
static shape shape_of(const impl& t)
{
    shape sh;
    size_t n = walk(t.root, 0, 0, sh);
    if (n != t.size)
        fail(INV, "size() is %zu and the trie holds %zu elements", (size_t) t.size, n);
    return sh;
}
#endif

// ---- checks of one value against its model
template <typename X>
static void check(u32 c, const X& x, const M& m, const char* what, u32 keys, bool full = true)
{
    static u32 turn = 0;
    if (x.size() != m.size())
        fail(c, "%s: size is %zu, not %zu", what, (size_t) x.size(), m.size());
    if (x.empty() != m.empty())
        fail(c, "%s: empty() is wrong", what);
    for (u32 k = 0; k <= keys; ++k) {
        auto it  = m.find(k);
        bool has = it != m.end();
        auto p = x.find(El{k});
        if (!!p != has)
            fail(c, "%s: find(%u) is wrong, should be %d", what, k, has);
#if NAT_KIND == 0
        if (p && p->k != k)
            fail(c, "%s: find(%u) finds %u", what, k, p->k);
#elif NAT_KIND == 1
        if (p) p->need("found");
        if (p && p->k != it->second)
            fail(c, "%s: %u is bound to %u, not %u", what, k, p->k, it->second);
#else
        if (p) p->val.need("found");
        if (p && (p->id.k != k || p->val.k != it->second))
            fail(c, "%s: %u is bound to (%u,%u), not %u", what, k, p->id.k, p->val.k, it->second);
#endif
        // the other lookups on every fourth key
        if (!full || (++turn & 3))
            continue;
        if (x.count(El{k}) != size_t{has})
            fail(c, "%s: count(%u) is wrong, should be %d", what, k, has);
        auto p2 = x.find(k);
        if (p2 != p || x.count(k) != size_t{has})
            fail(c, "%s: heterogeneous lookup of %u is wrong", what, k);
#if NAT_KIND != 0
        bool thrown = false;
        try {
            auto& e = x.at(k & 1 ? El{k} : El{k});
            if (&e != p)
                fail(c, "%s: at(%u) is another object than find(%u)", what, k, k);
            if (&x.at(k) != p)
                fail(c, "%s: heterogeneous at(%u) is wrong", what, k);
        } catch (const std::out_of_range&) {
            thrown = true;
        }
        if (thrown != !has)
            fail(c, "%s: at(%u) %s", what, k, thrown ? "throws" : "does not throw");
        auto& e = x[El{k}];
        auto& f = x[k];
        if (has ? (&e != p || &f != p) : (
#if NAT_KIND == 1
            e.k != 0 || f.k != 0
#else
            e.val.k != 0 || f.val.k != 0
#endif
            ))
            fail(c, "%s: [%u] is wrong", what, k);
#endif
    }
}
template <typename X>
static void check_iter(const X& x, const M& m)
{
    M got;
    size_t n = 0;
    auto e   = x.end();
    for (auto it = x.begin(); !(it == e); ++it, ++n) {
        if (n >= m.size())
            fail(ITER, "iteration does not end after %zu elements", n);
        auto k = key_of(*it);
        if (got.count(k))
            fail(ITER, "iteration visits %u twice", k);
        got[k] = val_of(*it);
        if (it.operator->() != &*it)
            fail(ITER, "-> and * differ");
        auto c = it;
        auto o = c++;
        if (!(o == it) || c == it || !(c != it))
            fail(ITER, "post-increment is wrong after %zu elements", n);
    }
    if (got != m)
        fail(ITER, "iteration visits %zu elements of %zu", got.size(), m.size());
}
template <typename X>
static void check_chunks(u32 c, const X& x, const M& m, rng& r)
{
    M got;
    immer::for_each_chunk(x, [&](auto f, auto l) {
        if (f == l) return;
        for (; f != l; ++f) {
            auto k = key_of(*f);
            if (got.count(k))
                fail(c, "for_each_chunk visits %u twice", k);
            got[k] = val_of(*f);
        }
    });
    if (got != m)
        fail(c, "for_each_chunk visits %zu elements of %zu", got.size(), m.size());
}
template <typename X>
static void check_algo(const X& x, const M& m, rng& r)
{
    std::vector<u64> order, got;
    for (auto& e : x) order.push_back(u64{key_of(e)} << 32 | val_of(e));
    immer::for_each(x, [&](const VT& e) { got.push_back(u64{key_of(e)} << 32 | val_of(e)); });
    auto so = order, sg = got;
    std::sort(so.begin(), so.end());
    std::sort(sg.begin(), sg.end());
    if (so != sg || got.size() != m.size())
        fail(ALGO, "for_each visits other elements than iteration");
    if (got != order)
        fail(ALGO, "for_each visits the elements in another order than iteration");
    auto op = [](u64 a, const VT& e) { return a * 31 + key_of(e) * 7 + val_of(e); };
    u64 acc = 7;
    for (auto o : got) acc = acc * 31 + (o >> 32) * 7 + (u32) o;
    if (immer::accumulate(x, u64{7}, op) != acc)
        fail(ALGO, "accumulate is wrong for %zu elements", m.size());
    acc = 7;
    for (auto o : order) acc = acc * 31 + (o >> 32) * 7 + (u32) o;
    // constructors
    std::vector<VT> es;
    for (auto& p : m) es.push_back(mk(p.first, p.second));
    for (auto& p : m)
        if (r.below(3) == 0) es.push_back(mk(p.first, p.second));
    check(ALGO, V(es.begin(), es.end()), m, "construction from a range", 40);
    check(ALGO, V(x.begin(), x.end()), m, "construction from the container's range", 40);
    V il{mk(1, 2), mk(3, 4), mk(1, 6)};
    check(ALGO, il, M{{1, NAT_KIND ? 6 : 0}, {3, NAT_KIND ? 4 : 0}}, "construction from a list", 5);
}
static void check_diff(const V& a, const M& ma, const V& b, const M& mb)
{
    M add, rem, chg;
    auto fa = [&](const VT& e) {
        if (!add.emplace(key_of(e), val_of(e)).second) fail(DIFF, "diff reports %u added twice", key_of(e));
    };
    auto fr = [&](const VT& e) {
        if (!rem.emplace(key_of(e), val_of(e)).second) fail(DIFF, "diff reports %u removed twice", key_of(e));
    };
    auto fc = [&](const VT& o, const VT& n) {
        if (key_of(o) != key_of(n)) fail(DIFF, "diff reports a change from %u to %u", key_of(o), key_of(n));
        if (!chg.emplace(key_of(n), val_of(n)).second) fail(DIFF, "diff reports %u changed twice", key_of(n));
        auto it = ma.find(key_of(o));
        if (it == ma.end() || it->second != val_of(o)) fail(DIFF, "diff passes another old element for %u", key_of(o));
    };
    immer::diff(a, b, fa, fr, fc);
    M ea, er, ec;
    for (auto& p : mb)
        if (!ma.count(p.first)) ea.insert(p);
        else if (ma.at(p.first) != p.second) ec.insert(p);
    for (auto& p : ma)
        if (!mb.count(p.first)) er.insert(p);
    if (add != ea) fail(DIFF, "diff of %zu and %zu elements reports %zu added, not %zu (or others)", ma.size(), mb.size(), add.size(), ea.size());
    if (rem != er) fail(DIFF, "diff of %zu and %zu elements reports %zu removed, not %zu (or others)", ma.size(), mb.size(), rem.size(), er.size());
    if (chg != ec) fail(DIFF, "diff of %zu and %zu elements reports %zu changed, not %zu (or others)", ma.size(), mb.size(), chg.size(), ec.size());
    M a2, r2;
    immer::diff(a, b, [&](const VT& e) { a2.emplace(key_of(e), val_of(e)); }, [&](const VT& e) { r2.emplace(key_of(e), val_of(e)); });
    if (a2 != ea || r2 != er) fail(DIFF, "diff with two functions is wrong");
}

struct slot
{
    V v;
    M m;
};
struct tslot
{
    T t;
    M m;
};

void nat::run_case(u64 seed, u64 n, u32 ops)
{
    rng r{seed * 1000003 + n};
    hash_mode        = r.below(10);
    const bool all   = is_any();
    const bool fault = is("C13");
    const bool share = is("C21");
    const bool trans = is("C07") || is("C10") || is("C12") || is("C13") || is("C09") || is("C11") || is("C20") || is("C08") || is("C19") || all;
    const u32 keys   = hash_mode == 2 || r.below(3) ? 12 + r.below(20) : 30 + r.below(60);
    {
        V warm;
        T t = warm.transient();
#if NAT_KIND != 0
        (void) warm[El{1}];
        (void) t[El{1}];
        (void) std::move(warm).update(El{1}, [](auto x) { return x; });
        t.update(El{1}, [](auto x) { return x; });
#endif
    }
    long elems0 = live_elems, blocks0 = live_blocks;
    u32 fresh = 1000;
    {
        std::vector<std::unique_ptr<slot>> vs;
        std::vector<std::unique_ptr<tslot>> ts;
        const size_t NV = 4, NT = trans ? 2 : 0;
        for (size_t i = 0; i < NV; ++i) vs.push_back(std::unique_ptr<slot>(new slot));
        for (size_t i = 0; i < NT; ++i) ts.push_back(std::unique_ptr<tslot>(new tslot));
        auto persistent = [&](auto&& fn) -> bool {
            if (!fault) {
                fn();
                return true;
            }
            for (long k = 0;; ++k) {
                long e0 = live_elems, b0 = live_blocks;
                fault_at = k, fault_seen = 0, fault_fired = false, faults_on = true;
                bool thrown = false;
                try {
                    fn();
                } catch (const boom&) {
                    thrown = true;
                } catch (const std::bad_alloc&) {
                    thrown = true;
                }
                faults_on = false;
                if (thrown != fault_fired)
                    fail(FAULT, "the exception of fallible step %ld does not reach the caller", k);
                if (!thrown)
                    return true;
                if (counted_elems && live_elems != e0)
                    fail(FAULT, "fallible step %ld throws and %ld elements are leaked", k, live_elems - e0);
                if (counted_blocks && live_blocks != b0)
                    fail(FAULT, "fallible step %ld throws and %ld blocks are leaked", k, live_blocks - b0);
                for (auto& s : vs)
                    check(FAULT | OTHERS, s->v, s->m, "after a throwing operation", keys, false);
            }
        };
        auto consuming = [&](auto&& fn) -> bool {
            if (!fault || r.below(2)) {
                fn();
                return true;
            }
            fault_at = r.below(r.below(3) ? 6 : 24), fault_seen = 0, fault_fired = false, faults_on = true;
            bool thrown = false;
            try {
                fn();
            } catch (const boom&) {
                thrown = true;
            } catch (const std::bad_alloc&) {
                thrown = true;
            }
            faults_on = false;
            if (thrown != fault_fired)
                fail(FAULT, "an exception does not reach the caller");
            if (thrown)
                say("  throws at fallible step %ld", fault_at);
            return !thrown;
        };
        for (u32 step = 0; step < ops; ++step) {
            u32 i = r.below(NV), d = r.below(NV);
            slot& a = *vs[i];
            u32 k   = r.below(keys);
            enum { P, R, TR } kind = P;
            if (NT && r.below(3) == 0) kind = TR;
            else if (!share && !is("C04") && !is("C05") && !is("C06") && r.below(3) == 0) kind = R;
            if (is("C07") && kind == P && r.below(2)) kind = r.below(2) ? R : TR;
            u32 calls = 0, seen_in = 0;
            long a0;
            u32 nv = NAT_KIND == 0 ? 0 : r.below(4) ? fresh++ : 5;
            // op: 0,1 insert (map: 1 set) 2 update 3 update_if_exists 4,5 erase 6 bulk insert 7 bulk erase
            u32 op = r.below(8);
            if (NAT_KIND == 0 && (op == 2 || op == 3)) op = op == 2 ? 0 : 4;
            if (share && op >= 6) op -= 6;
            auto fn_elem = [&](auto x) {
                ++calls;
                fallible();
#if NAT_KIND == 2
                seen_in = x.val.k;
                x.val   = El{nv};
                return x;
#else
                seen_in = x.k;
                return El{nv};
#endif
            };
            auto apply_model = [&](M& m) {
                switch (op) {
                case 0: case 1: m[k] = nv; break;
                case 2: m[k] = nv; break;
                case 3: if (m.count(k)) m[k] = nv; break;
                case 4: case 5: m.erase(k); break;
                case 6: for (u32 q = 0; q < 12; ++q) m[(k + q) % keys] = NAT_KIND ? nv + q : 0; break;
                case 7: for (u32 q = 0; q < 12; ++q) m.erase((k + q * 5) % keys); break;
                }
            };
            if (op == 6) fresh += 12;
            auto check_calls = [&](const M& before) {
                if (op != 2 && op != 3) return;
                u32 want = op == 2 || before.count(k) ? 1 : 0;
                if (calls != want) fail(CONTENT, "the function is called %u times, not %u", calls, want);
                u32 was = before.count(k) ? before.at(k) : 0;
                if (calls && seen_in != was) fail(CONTENT, "the function sees %u, not %u", seen_in, was);
            };
            const char* names[] = {"insert", "set", "update", "update_if_exists", "erase", "erase", "insert x12", "erase x12"};
            if (kind == P) {
                say("v%u = v%u.%s(%u, %u) of %zu", d, i, names[op], k, nv, a.m.size());
                V res;
                M rm = a.m;
                const V& s = a.v;
                auto bfr   = share || all ? shape_of(s.impl()) : shape{};
                persistent([&] {
                    calls = 0;
                    a0    = total_allocs;
                    switch (op) {
                    case 0: res = s.insert(mk(k, nv)); break;
#if NAT_KIND == 1
                    case 1: res = s.set(El{k}, El{nv}); break;
#else
                    case 1: res = s.insert(mk(k, nv)); break;
#endif
#if NAT_KIND
                    case 2: res = s.update(El{k}, fn_elem); break;
                    case 3: res = s.update_if_exists(El{k}, fn_elem); break;
#endif
                    case 4: case 5: res = s.erase(El{k}); break;
                    case 6: { V x = s; for (u32 q = 0; q < 12; ++q) x = std::as_const(x).insert(mk((k + q) % keys, nv + q)); res = x; break; }
                    case 7: { V x = s; for (u32 q = 0; q < 12; ++q) x = std::as_const(x).erase(El{(k + q * 5) % keys}); res = x; break; }
                    }
                    a0 = total_allocs - a0;
                });
                M before = rm;
                apply_model(rm);
                check_calls(before);
                if (share || all) {
                    auto aft = shape_of(res.impl());
                    bool noop = (op == 3 || op == 4 || op == 5) && !before.count(k);
#ifndef NAT_NO_INTERNALS
                    if (noop && res.impl().root != s.impl().root)
                        fail(SHARE, "an operation that changes nothing makes another tree");
#endif
                    if (noop && counted_blocks && a0)
                        fail(SHARE, "an operation that changes nothing allocates %ld blocks", a0);
                    if (op < 6 && !aft.at.empty()) {
                        u64 h = hash_of(k);
                        size_t fresh_nodes = 0, path = 1;
                        for (auto& q : aft.at) {
                            u64 pm = q.second.second * NAT_B >= 64 ? ~u64{0} : (u64{1} << (q.second.second * NAT_B)) - 1;
                            bool on = (h & pm) == q.second.first;
                            if (on) ++path;
                            if (!bfr.at.count(q.first)) {
                                ++fresh_nodes;
                                if (!on)
                                    fail(SHARE, "%s makes a new node away from the path of the key", names[op]);
                            }
                        }
                        size_t pb = 1;
                        for (auto& q : bfr.at) {
                            u64 pm = q.second.second * NAT_B >= 64 ? ~u64{0} : (u64{1} << (q.second.second * NAT_B)) - 1;
                            if ((h & pm) == q.second.first) ++pb;
                        }
                        if (counted_blocks && (size_t) a0 > 2 * std::max(path, pb) + 2)
                            fail(SHARE, "%s allocates %ld blocks on a path of %zu nodes", names[op], a0, std::max(path, pb));
                    }
                }
                vs[d]->v = std::move(res);
                vs[d]->m = std::move(rm);
            } else if (kind == R) {
                bool own = r.below(3) != 0;
                V x;
                M xm = a.m;
                if (own) { x = std::move(a.v); a.v = V{}; a.m.clear(); }
                else x = a.v;
                say("v%u = move(%s v%u).%s(%u, %u) of %zu", d, own ? "move of" : "copy of", i, names[op], k, nv, xm.size());
                V res;
                bool ok = consuming([&] {
                    switch (op) {
                    case 0: res = std::move(x).insert(mk(k, nv)); break;
#if NAT_KIND == 1
                    case 1: res = std::move(x).set(El{k}, El{nv}); break;
#else
                    case 1: res = std::move(x).insert(mk(k, nv)); break;
#endif
#if NAT_KIND
                    case 2: res = std::move(x).update(El{k}, fn_elem); break;
                    case 3: res = std::move(x).update_if_exists(El{k}, fn_elem); break;
#endif
                    case 4: case 5: res = std::move(x).erase(El{k}); break;
                    case 6: for (u32 q = 0; q < 12; ++q) x = std::move(x).insert(mk((k + q) % keys, nv + q)); res = std::move(x); break;
                    case 7: for (u32 q = 0; q < 12; ++q) x = std::move(x).erase(El{(k + q * 5) % keys}); res = std::move(x); break;
                    }
                });
                if (ok) {
                    check_calls(xm);
                    apply_model(xm);
                    vs[d]->v = std::move(res);
                    vs[d]->m = xm;
                }
            } else {
                u32 ti   = r.below(NT);
                tslot& t = *ts[ti];
                switch (r.below(8)) {
                case 0:
                    say("t%u = v%u.transient()", ti, i);
                    t.t = a.v.transient();
                    t.m = a.m;
                    break;
                case 1:
                    say("t%u = move(v%u).transient()", ti, i);
                    t.t = std::move(a.v).transient();
                    t.m = a.m;
                    a.v = V{};
                    a.m.clear();
                    break;
                case 2:
                    say("v%u = t%u.persistent()", d, ti);
                    vs[d]->v = t.t.persistent();
                    vs[d]->m = t.m;
                    break;
                case 3: {
                    say("t%u = copy of t%u", 1 - ti, ti);
                    T c = t.t;
                    ts[1 - ti]->t = c;
                    ts[1 - ti]->m = t.m;
                    break;
                }
                default: {
                    u32 len = 1 + r.below(4);
                    bool ok = true;
                    while (len-- && ok) {
                        k     = r.below(keys);
                        calls = 0;
                        say("t%u.%s(%u, %u) of %zu", ti, names[op], k, nv, t.m.size());
                        M before = t.m;
                        ok = consuming([&] {
                            switch (op) {
                            case 0: t.t.insert(mk(k, nv)); break;
#if NAT_KIND == 1
                            case 1: t.t.set(El{k}, El{nv}); break;
#else
                            case 1: t.t.insert(mk(k, nv)); break;
#endif
#if NAT_KIND
                            case 2: t.t.update(El{k}, fn_elem); break;
                            case 3: t.t.update_if_exists(El{k}, fn_elem); break;
#endif
                            case 4: case 5: t.t.erase(El{k}); break;
                            case 6: for (u32 q = 0; q < 12; ++q) t.t.insert(mk((k + q) % keys, nv + q)); break;
                            case 7: for (u32 q = 0; q < 12; ++q) t.t.erase(El{(k + q * 5) % keys}); break;
                            }
                        });
                        if (ok) { check_calls(before); apply_model(t.m); }
                        op = NAT_KIND == 0 ? (r.below(2) ? 0 : 4) : r.below(6);
                        nv = NAT_KIND == 0 ? 0 : fresh++;
                    }
                    if (!ok) {
                        t.t = T{};
                        t.m.clear();
                    }
                    if (r.below(4) == 0) {
                        say("v%u = move(t%u).persistent()", d, ti);
                        vs[d]->v = std::move(t.t).persistent();
                        vs[d]->m = t.m;
                        t.t = T{};
                        t.m.clear();
                    }
                }
                }
                check(CONTENT, t.t, t.m, "transient", keys);
                if (is("C11") || all) { check_iter(t.t, t.m); check_chunks(ITER, t.t, t.m, r); }
            }
            bool others = (scope_mask & OTHERS) || step + 1 == ops;
            for (size_t x = 0; x < NV; ++x)
                if (others || (x == d && kind != TR))
                    check(x == d && kind != TR ? CONTENT : OTHERS, vs[x]->v, vs[x]->m, "a live value", keys, x == d);
            if (others)
                for (auto& t : ts) check(OTHERS, t->t, t->m, "a live transient", keys, false);
            slot& s = *vs[d];
            if (is("C11") || all) { check_iter(s.v, s.m); check_chunks(ITER, s.v, s.m, r); }
            if (is("C19") || all) { check_chunks(ALGO, s.v, s.m, r); check_algo(s.v, s.m, r); }
            if (is("C20") || all) {
                shape_of(s.v.impl());
                for (auto& t : ts) shape_of(t->t.impl());
            }
            if (is("C08") || is("C19") || all)
                for (size_t x = 0; x < NV; ++x) {
                    check_diff(vs[x]->v, vs[x]->m, s.v, s.m);
                    check_diff(s.v, s.m, vs[x]->v, vs[x]->m);
                }
            if (is("C09") || all) {
                std::vector<V> xs;
                std::vector<M> ms;
                for (auto& x : vs) { xs.push_back(x->v); ms.push_back(x->m); }
                V f;
                std::vector<std::pair<u32, u32>> es(s.m.begin(), s.m.end());
                for (size_t q = es.size(); q > 1; --q) std::swap(es[q - 1], es[r.below(q)]);
                for (auto& p : es) f = f.insert(mk(p.first, p.second));
                xs.push_back(f); ms.push_back(s.m);
                if (!es.empty()) {
                    auto p = es[0];
                    xs.push_back(std::as_const(s.v).erase(El{p.first}).insert(mk(p.first, p.second))); ms.push_back(s.m);
                    xs.push_back(std::as_const(s.v).insert(mk(p.first, p.second))); ms.push_back(s.m);
                    xs.push_back(std::as_const(s.v).erase(El{p.first})); ms.push_back(s.m); ms.back().erase(p.first);
                    xs.push_back(xs.back().insert(mk(keys + 3, NAT_KIND ? 7 : 0))); ms.push_back(ms.back()); ms.back()[keys + 3] = NAT_KIND ? 7 : 0;
                    xs.push_back(std::as_const(f).insert(mk(p.first, 3))); ms.push_back(s.m); ms.back()[p.first] = NAT_KIND ? 3 : 0;
                    xs.push_back(f.erase(El{p.first}).insert(mk(keys + 9, p.second))); ms.push_back(s.m); ms.back().erase(p.first); ms.back()[keys + 9] = p.second;
                }
                for (size_t x = 0; x < xs.size(); ++x)
                    for (size_t y = 0; y < xs.size(); ++y) {
                        bool eq = xs[x] == xs[y], ne = xs[x] != xs[y], ex = ms[x] == ms[y];
                        if (eq != ex || ne == ex)
                            fail(EQ, "two values of %zu and %zu elements, forms %zu and %zu of v%u: == is %d, != is %d, the contents are %s",
                                 ms[x].size(), ms[y].size(), x, y, d, eq, ne, ex ? "equal" : "different");
                    }
            }
        }
    }
    if (counted_elems && live_elems != elems0)
        fail(LIFE, "%ld elements are never destroyed", live_elems - elems0);
    if (counted_blocks && live_blocks != blocks0)
        fail(LIFE, "%ld blocks are never given back", live_blocks - blocks0);
}
