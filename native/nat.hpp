// Native bounded tier: runs the same postconditions as the contracts on concrete histories of the real
// containers, against standard-library models.  Labelled bounded; also the source of replayable failing inputs.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <numeric>
#include <set>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <unordered_map>
#include <utility>
#include <vector>

namespace nat {
using u32 = uint32_t;
using u64 = uint64_t;

// ---- what a failure is about
enum cat : u32 {
    CONTENT = 1,   // the result of the operation
    OTHERS  = 2,   // another live value changed
    EQ      = 4,   // equality
    ITER    = 8,   // traversal
    LIFE    = 16,  // element and block accounting
    FAULT   = 32,  // behaviour of a throwing operation
    INV     = 64,  // representation
    SHARE   = 128, // sharing, allocations
    ALGO    = 256,
    DIFF    = 512,
    OTHER   = 1024
};
inline u32 scope_mask = ~0u;
inline bool tracing   = false;
struct abandon
{};

inline void say(const char* f, ...)
{
    if (!tracing)
        return;
    va_list ap;
    va_start(ap, f);
    vprintf(f, ap);
    va_end(ap);
    putchar('\n');
    fflush(stdout);
}

[[noreturn]] inline void fail(u32 c, const char* f, ...)
{
    char buf[600];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    if (!(c & scope_mask)) {
        // the history is about another property from here on
        say("(outside this property: %s)", buf);
        fflush(stdout);
        _exit(42);
    }
    printf("FAIL %s\n", buf);
    fflush(stdout);
    _exit(1);
}

inline u64 hist_hash = 0, hist_steps = 0; // the decisions of this history
struct rng
{
    u64 s;
    explicit rng(u64 x) : s{x * 0x9e3779b97f4a7c15ull + 0x1234567} { next(); next(); }
    u64 next()
    {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s * 0x2545F4914F6CDD1Dull;
    }
    u32 below(u64 n)
    {
        u32 x     = n ? (u32) ((next() >> 20) % n) : 0;
        hist_hash = hist_hash * 0x100000001b3ull + x + 1;
        ++hist_steps;
        return x;
    }
    bool chance(u32 num, u32 den) { return below(den) < num; }
};

// ---- faults
struct boom
{
    int x;
};
inline long fault_at = -1; // the n-th fallible step throws
inline long fault_seen = 0;
inline bool fault_fired = false;
inline bool faults_on = false;
inline void fallible(bool oom = false)
{
    if (!faults_on)
        return;
    if (fault_seen++ == fault_at) {
        fault_fired = true;
        if (oom)
            throw std::bad_alloc{};
        throw boom{1};
    }
}

// ---- tracked elements
#ifndef NAT_MOVE_NOEXCEPT
#define NAT_MOVE_NOEXCEPT 1
#endif
inline long live_elems = 0;
struct El
{
    u32 k;
    u32 v;
    const El* self;
    void reg() { self = this; ++live_elems; }
    void need(const char* what) const
    {
        if (self != this)
            fail(LIFE, "an element that is not constructed is %s", what);
    }
    El() : k{0}, v{0} { reg(); }
    El(u32 k_, u32 v_ = 0) : k{k_}, v{v_} { reg(); }
    El(const El& o) : k{o.k}, v{o.v}
    {
        o.need("copied");
        fallible();
        reg();
    }
    El(El&& o) noexcept(NAT_MOVE_NOEXCEPT) : k{o.k}, v{o.v}
    {
        o.need("moved from");
#if !NAT_MOVE_NOEXCEPT
        fallible();
#endif
        o.k = o.v = 0xbadbad;
        reg();
    }
    El& operator=(const El& o)
    {
        o.need("copied");
        need("assigned");
        fallible();
        k = o.k;
        v = o.v;
        return *this;
    }
    El& operator=(El&& o) noexcept(NAT_MOVE_NOEXCEPT)
    {
        o.need("moved from");
        need("assigned");
#if !NAT_MOVE_NOEXCEPT
        fallible();
#endif
        auto a = o.k, b = o.v;
        o.k = o.v = 0xbadbad;
        k = a;
        v = b;
        return *this;
    }
    ~El()
    {
        need("destroyed");
        self = nullptr;
        --live_elems;
        k = v = 0xdeaddead;
    }
    friend bool operator==(const El& a, const El& b)
    {
        a.need("compared");
        b.need("compared");
        return a.k == b.k && a.v == b.v;
    }
    friend bool operator!=(const El& a, const El& b) { return !(a == b); }
    u64 code() const
    {
        need("read");
        return (u64{k} << 32) | v;
    }
};

// ---- a heap that checks sizes and counts blocks
inline long live_blocks   = 0;
inline long total_allocs  = 0;
struct blk_hdr
{
    u64 size;
    u64 magic;
};
struct chk_heap
{
    template <typename... Tags>
    static void* allocate(std::size_t n, Tags...)
    {
        fallible(true);
        auto p = (blk_hdr*) malloc(n + sizeof(blk_hdr));
        p->size  = n;
        p->magic = 0xfeedc0defeedc0deull;
        memset(p + 1, 0xa5, n);
        ++live_blocks;
        ++total_allocs;
        return p + 1;
    }
    template <typename... Tags>
    static void deallocate(std::size_t n, void* q, Tags...)
    {
        auto p = (blk_hdr*) q - 1;
        if (p->magic != 0xfeedc0defeedc0deull)
            fail(LIFE, "a pointer that is no live block is given back");
        if (p->size != n)
            fail(LIFE, "a block of %zu bytes is given back as %zu bytes", (size_t) p->size, n);
        p->magic = 0xdead;
        --live_blocks;
        free(p);
    }
};
// a heap for the garbage collected policies: blocks stay until the end of the case
inline std::vector<void*>& gc_blocks()
{
    static auto v = new std::vector<void*>;
    return *v;
}
struct leak_heap
{
    template <typename... Tags>
    static void* allocate(std::size_t n, Tags...)
    {
        fallible(true);
        ++total_allocs;
        auto p = calloc(1, n);
#ifndef NAT_THREADS
        gc_blocks().push_back(p);
#endif
        return p;
    }
    template <typename... Tags>
    static void deallocate(std::size_t, void*, Tags...)
    {}
};
inline void gc_reset()
{
    // blocks of function-local statics (empty nodes) live on: keep everything, memory is returned at exit
}

// ---- driver
struct options
{
    std::string prop = "all";
    u64 seed         = 1;
    u64 first = 0, count = 100, stride = 1;
    u32 ops      = 60;
    double secs  = 0;
    int progress = -1;
};
extern options opt;
void run_case(u64 seed, u64 n, u32 ops);
} // namespace nat
