// Ghost element type with an observable lifetime, ghost heap, and the knobs of the harnesses.
#pragma once
#include "vp.h"
#include <atomic>
#include <new>
#include <type_traits>
#include <utility>

enum : u64 { ST_LIVE = 0x11fe, ST_MOVED = 0x30ed, ST_DEAD = 0xdead };

static u64 g_elems;       // elements constructed and not yet destroyed
static bool g_may_throw;  // copies and allocations may throw
static u64 g_allocs;      // blocks allocated
static u64 g_frees;

struct vp_boom
{
    int x;
};

inline void maybe_throw()
{
    if (g_may_throw)
        if (vp_bool("throws"))
            throw vp_boom{1};
}

#ifdef VP_NO_LIFETIME
#define LIFETIME(...)
#else
#define LIFETIME(...) __VA_ARGS__
#endif

struct E
{
    u64 k;
    u64 v;
    u64 st;

    E(u64 k_, u64 v_)
        : k{k_}
        , v{v_}
        , st{ST_LIVE}
    {
        ++g_elems;
    }
    E() : E(0, 0) {}
    E(const E& o)
        : k{o.k}
        , v{o.v}
    {
        vp_assert(o.st == ST_LIVE, "life: only a live element is copied");
        maybe_throw();
        st = ST_LIVE;
        ++g_elems;
    }
    E(E&& o)
#ifndef VP_MOVE_THROWS
        noexcept
#endif
        : k{o.k}
        , v{o.v}
    {
        vp_assert(o.st == ST_LIVE, "life: only a live element is moved from");
#ifdef VP_MOVE_THROWS
        maybe_throw();
#endif
        st   = ST_LIVE;
        o.st = ST_MOVED;
        ++g_elems;
    }
    E& operator=(const E& o)
    {
        vp_assert(o.st == ST_LIVE, "life: only a live element is copied");
        vp_assert(st == ST_LIVE || st == ST_MOVED, "life: only a constructed element is assigned");
        maybe_throw();
        k  = o.k;
        v  = o.v;
        st = ST_LIVE;
        return *this;
    }
    E& operator=(E&& o)
#ifndef VP_MOVE_THROWS
        noexcept
#endif
    {
        vp_assert(o.st == ST_LIVE, "life: only a live element is moved from");
        vp_assert(st == ST_LIVE || st == ST_MOVED, "life: only a constructed element is assigned");
#ifdef VP_MOVE_THROWS
        maybe_throw();
#endif
        k  = o.k;
        v  = o.v;
        st = ST_LIVE;
        if (this != &o)
            o.st = ST_MOVED;
        return *this;
    }
    ~E()
    {
        vp_assert(st == ST_LIVE || st == ST_MOVED, "life: only a constructed element is destroyed");
        st = ST_DEAD;
        --g_elems;
    }
};

inline bool operator==(const E& a, const E& b)
{
    vp_assert(vp_and(a.st == ST_LIVE, b.st == ST_LIVE), "life: only live elements are compared");
#ifdef VP_EQ_COARSE // elements may be equal and still be told apart
    return a.k == b.k;
#else
    return vp_and(a.k == b.k, a.v == b.v);
#endif
}
inline bool operator!=(const E& a, const E& b) { return !(a == b); }

static void (*g_on_alloc)(); // what others may do meanwhile

struct vp_heap
{
    template <typename... Tags>
    static void* allocate(std::size_t n, Tags...)
    {
        if (g_may_throw)
            if (vp_bool("oom"))
                throw std::bad_alloc{};
        ++g_allocs;
        if (g_on_alloc)
            g_on_alloc();
        return vp_alloc(n, "block");
    }
    template <typename... Tags>
    static void deallocate(std::size_t n, void* p, Tags...)
    {
        ++g_frees;
        vp_free(p, n);
    }
};
