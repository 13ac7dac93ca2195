// C16: atom against the contracts of a lock and of a reference count, other threads stepping at every point where
// this thread does not hold the lock; the spinlock against the contract of a lock; the garbage-collected atom
// against the contract of an atomic pointer.
#define VP_EQ_COARSE
#include "elem.hpp"
#include <immer/atom.hpp>
#include <immer/box.hpp>
#include <immer/heap/heap_policy.hpp>
#include <immer/lock/spinlock_policy.hpp>
#include <immer/memory_policy.hpp>

// ---- ghost state: every box known, who refers to it, and the critical sections this thread went through
struct holder_info
{
    void* h;
    E* value;
    int* rc;
    int mine; // references this thread holds (the atom's, while it holds the lock, included)
    u64 env;  // references of other threads
    bool dead;
};
constexpr unsigned MAXH = 12;
static holder_info g_h[MAXH];
static unsigned g_nh;
static bool g_held, g_env_on;
struct section_t
{
    void* acq;
    void* rel;
    u64 ak, av, rk, rv;
};
static section_t g_sec[8];
static unsigned g_nsec;
static void** g_cell; // the atom's pointer
static void* g_cur;   // what the atom holds while this thread has not locked it
static unsigned g_calls;
static void* g_fresh_of_env(void);

inline holder_info* info(const void* h)
{
    for (unsigned i = 0; i < g_nh; ++i)
        if (g_h[i].h == h)
            return &g_h[i];
    vp_assert(false, "atom: only boxes are referred to");
    return nullptr;
}
static void (*g_destroy)(void*);
inline void sync(holder_info& x)
{
    bool atoms = !g_held && g_cur == x.h;
    *x.rc = (int) (x.mine + x.env + (atoms ? 1 : 0));
}
// Between two steps of this thread the others take and drop references of their own.
static void others()
{
    if (!g_env_on)
        return;
    vp_ghost_begin();
    for (unsigned i = 0; i < g_nh; ++i) {
        auto& x = g_h[i];
        if (x.dead || (x.mine == 0 && !(g_cur == x.h)))
            continue;
        bool atoms = !g_held && g_cur == x.h;
        u64 e      = vp_u64("references of others");
        vp_assume(e < 0x100000);
        if (!atoms)
            vp_assume(vp_implies(x.env == 0, e == 0)); // nobody left to copy it from
        x.env = e;
        sync(x);
    }
    vp_ghost_end();
}
// Before this thread takes the lock, another one may have stored a new box or one this thread still has; a box
// neither the atom nor this thread refers to is gone.  (Between two critical sections this thread cannot see the
// atom's box, which the guard on it enforces, so what the others store there matters only at the next one.)
static void others_store()
{
    if (!g_env_on)
        return;
    vp_ghost_begin();
    g_env_on   = false;
    unsigned n = 2;
    for (unsigned i = 0; i < g_nh; ++i)
        if (!g_h[i].dead && g_h[i].h != g_cur && g_h[i].mine)
            ++n;
    unsigned c = vp_case(n, "other thread");
    if (c) {
        auto& o = *info(g_cur);
        if (c == 1)
            g_cur = g_fresh_of_env();
        else
            for (unsigned i = 0, m = 2; i < g_nh; ++i)
                if (!g_h[i].dead && g_h[i].h != g_cur && g_h[i].mine && m++ == c) {
                    vp_assume(g_h[i].env != 0);
                    g_cur = g_h[i].h;
                    break;
                }
        if (o.mine == 0) {
            o.dead = true;
            g_destroy(o.h);
        }
        *g_cell = g_cur;
        sync(*info(g_cur));
    }
    g_env_on = true;
    vp_ghost_end();
}

// ---- the contract of a reference count (C17): each step indivisible
struct rc_policy
{
    mutable int refcount;
    rc_policy()
        : refcount{1}
    {
        if (g_nh == MAXH)
            vp_limit("more boxes than the harness keeps track of");
        g_h[g_nh++] = {this, nullptr, &refcount, 1, 0, false};
    }
    rc_policy(immer::disowned)
        : refcount{0}
    {}
    void inc()
    {
        others();
        vp_ghost_begin();
        auto x = info(this);
        vp_assert(!x->dead && x->mine >= 1, "atom: a reference is taken only to a box this thread is keeping alive");
        ++x->mine;
        sync(*x);
        vp_ghost_end();
    }
    bool dec()
    {
        others();
        vp_ghost_begin();
        auto x = info(this);
        vp_assert(!x->dead && x->mine >= 1, "atom: only a reference this thread has is released");
        --x->mine;
        sync(*x);
        bool r = x->mine == 0 && x->env == 0 && !(!g_held && g_cur == x->h);
        if (r)
            x->dead = true;
        vp_ghost_end();
        return r;
    }
    bool unique()
    {
        others();
        return refcount == 1;
    }
};
// ---- the contract of a lock
struct lock_policy
{
    void acquired()
    {
        others();
        others_store();
        vp_ghost_begin();
        vp_assert(!g_held, "atom: the lock is not taken twice");
        g_held = true;
        auto x = info(g_cur);
        ++x->mine;
        vp_transparent(g_cell);
        if (g_nsec == 8)
            vp_limit("more critical sections than the harness keeps track of");
        g_sec[g_nsec].acq = g_cur;
        g_sec[g_nsec].ak  = x->value->k;
        g_sec[g_nsec].av  = x->value->v;
        vp_ghost_end();
    }
    bool try_lock()
    {
        if (vp_bool("lock taken by another"))
            return false;
        acquired();
        return true;
    }
    void lock() { acquired(); }
    void unlock()
    {
        others();
        vp_ghost_begin();
        vp_assert(g_held, "atom: only a lock taken is released");
        g_cur = *g_cell;
        vp_assert(g_cur != nullptr, "atom: the atom always holds a box");
        auto x = info(g_cur);
        vp_assert(!x->dead && x->mine >= 1, "atom: the box left in the atom is kept alive by it");
        if (!x->value)
            x->value = (E*) ((char*) x->h + 8);
        --x->mine;
        g_sec[g_nsec].rel = g_cur;
        g_sec[g_nsec].rk  = x->value->k;
        g_sec[g_nsec].rv  = x->value->v;
        ++g_nsec;
        g_held = false;
        sync(*x);
        vp_guard(g_cell, 8, "atom: the shared box is accessed only inside the critical section");
        vp_ghost_end();
    }
    struct scoped_lock
    {
        lock_policy& l;
        explicit scoped_lock(lock_policy& x)
            : l{x}
        {
            l.lock();
        }
        scoped_lock(const scoped_lock&) = delete;
        ~scoped_lock() { l.unlock(); }
    };
};

using MP     = immer::memory_policy<immer::heap_policy<vp_heap>, rc_policy, lock_policy>;
using box_t  = immer::box<E, MP>;
using atom_t = immer::atom<E, MP>;

static void destroy(void* h)
{
    auto x = (box_t::holder*) h;
    x->~holder();
    vp_free(x, sizeof(box_t::holder));
}
inline void know(const box_t& b, u64 env)
{
    auto x   = info(b.impl_);
    x->value = (E*) &b.impl_->value;
    x->env   = env;
    sync(*x);
}
static void* g_fresh_of_env()
{
    box_t b{E{vp_u64("other.k"), vp_u64("other.v")}};
    auto h = b.impl_;
    auto x = info(h);
    x->value = (E*) &h->value;
    x->mine = 0;
    x->env  = 1;
    b.impl_ = nullptr;
    return h;
}

static atom_t* g_atom;
static u64 g_blocks0, g_elems0;
struct scene
{
    box_t* mine; // a box of this thread
    scene()
    {
        g_destroy = destroy;
        // the atom may hold the very box this thread has
        bool same = vp_bool("the atom holds this thread's box");
        mine      = new box_t{E{vp_u64("my.k"), vp_u64("my.v")}};
        know(*mine, 0);
        u64 e = vp_u64("my box, others");
        vp_assume(e < 0x100000);
        know(*mine, e);
        g_atom = (atom_t*) vp_raw(sizeof(atom_t), "the atom");
        if (same) {
            new (g_atom) atom_t{*mine};
        } else {
            box_t b{E{vp_u64("atom.k"), vp_u64("atom.v")}};
            u64 f = vp_u64("atom's box, others");
            vp_assume(f < 0x100000);
            know(b, f);
            new (g_atom) atom_t{b};
        }
        g_cell = (void**) &g_atom->impl_.impl_.impl_;
        g_cur  = *g_cell;
        --info(g_cur)->mine;
        vp_guard(g_cell, 8, "atom: the shared box is accessed only inside the critical section");
        for (unsigned i = 0; i < g_nh; ++i)
            if (!g_h[i].dead)
                sync(g_h[i]);
        g_env_on = true;
    }
    void done(unsigned handles)
    {
        g_env_on = false;
        vp_assert(!g_held, "atom: the lock is released on every path");
        int sum = 0;
        for (unsigned i = 0; i < g_nh; ++i)
            sum += g_h[i].mine;
        vp_assert(sum == (int) handles, "rc: this thread keeps exactly the references of its own handles");
        unsigned n = 0;
        for (unsigned i = 0; i < g_nh; ++i)
            n += !g_h[i].dead;
        vp_assert(vp_live() == n + 1, "mem: every box nobody refers to is returned to the heap, and no other");
    }
};
// no critical section changes what the atom holds
inline void unchanged()
{
    for (unsigned i = 0; i < g_nsec; ++i)
        vp_assert(g_sec[i].acq == g_sec[i].rel, "atom: an operation that only reads stores nothing");
}
// the only critical section that stores
inline section_t* the_store()
{
    section_t* r = nullptr;
    for (unsigned i = 0; i < g_nsec; ++i)
        if (g_sec[i].acq != g_sec[i].rel) {
            vp_assert(r == nullptr, "atom: the operation takes effect at one point");
            r = &g_sec[i];
        }
    if (!r && g_nsec)
        r = &g_sec[g_nsec - 1]; // stores what was there
    vp_assert(r != nullptr, "atom: the operation takes effect at one point");
    return r;
}
inline bool any_section(u64 k, u64 v)
{
    bool r = false;
    for (unsigned i = 0; i < g_nsec; ++i)
        r = vp_or(r, vp_and(g_sec[i].ak == k, g_sec[i].av == v));
    return r;
}

VP_HARNESS(load)
{
    scene s;
    unsigned how = vp_case(3, "load / conversion to a box / conversion to a value");
    if (how == 2) {
        E v = *g_atom;
        unchanged();
        vp_assert(any_section(v.k, v.v), "atom: load returns the value at one point of it");
        s.done(1);
        return;
    }
    const atom_t& a = *g_atom;
    box_t r = how == 0 ? a.load() : a.operator box_t();
    unchanged();
    vp_assert(any_section(r.get().k, r.get().v), "atom: load returns the value at one point of it");
    s.done(2);
}
VP_HARNESS(store)
{
    scene s;
    u64 mk = s.mine->get().k, mv = s.mine->get().v;
    unsigned how = vp_case(4, "store a copy / the box / assign a copy / assign the box");
    if (how == 0)
        g_atom->store(*s.mine);
    else if (how == 1)
        g_atom->store(std::move(*s.mine));
    else if (how == 2)
        *g_atom = *s.mine;
    else
        *g_atom = std::move(*s.mine);
    auto w = the_store();
    vp_assert(vp_and(w->rk == mk, w->rv == mv), "atom: store stores its argument");
    bool moved = how & 1;
    s.done(moved ? (s.mine->impl_ ? 1 : 0) : 1);
}
VP_HARNESS(exchange)
{
    scene s;
    u64 mk = s.mine->get().k, mv = s.mine->get().v;
    bool move = vp_bool("move");
    box_t r = move ? g_atom->exchange(std::move(*s.mine)) : g_atom->exchange(*s.mine);
    auto w  = the_store();
    vp_assert(vp_and(w->rk == mk, w->rv == mv), "atom: exchange stores its argument");
    vp_assert(vp_and(r.get().k == w->ak, r.get().v == w->av), "atom: exchange returns the value it replaces");
    s.done(1 + (s.mine->impl_ ? 1 : 0));
}
static void update_(bool throwing)
{
    scene s;
    bool threw = false;
    {
        try {
            box_t r = g_atom->update([&](const E& x) {
                vp_ghost_begin();
                ++g_calls;
                vp_assert(!g_held, "atom: the function is called outside the critical section");
                // the invariant of the retry loop: this thread holds its own box and one snapshot, no lock
                int sum = 0;
                for (unsigned i = 0; i < g_nh; ++i)
                    sum += g_h[i].mine;
                vp_assert(sum == 2, "rc: an attempt of update holds one snapshot");
                unchanged();
                if (g_calls == 3)
                    vp_end(); // the state is one of those at the second call: by induction
                vp_ghost_end();
                if (throwing)
                    if (vp_bool("the function throws"))
                        throw vp_boom{1};
                return E{vp_uf2("f.k", x.k, x.v), vp_uf2("f.v", x.k, x.v)};
            });
            auto w = the_store();
            vp_assert(vp_and(w->rk == vp_uf2("f.k", w->ak, w->av), w->rv == vp_uf2("f.v", w->ak, w->av)),
                      "atom: update installs the function of the value it replaces");
            vp_assert(vp_and(r.get().k == w->rk, r.get().v == w->rv), "atom: update returns what it installs");
            vp_assert(g_calls >= 1, "atom: update calls the function");
            vp_cover("update returns");
            s.done(2);
        } catch (vp_boom&) {
            threw = true;
        }
    }
    if (threw) {
        unchanged();
        vp_cover("update throws");
        s.done(1);
    }
}
VP_HARNESS(update) { update_(false); }
VP_HARNESS(update_throw) { update_(true); }
VP_HARNESS(destroy)
{
    scene s;
    g_env_on = false;
    // nobody else uses an atom that is destroyed
    vp_transparent(g_cell);
    g_held = true;
    auto x = info(g_cur);
    ++x->mine;
    g_atom->~atom_t();
    g_held = false;
    g_cur  = nullptr;
    s.done(1);
}

// ---- the atom of the garbage-collected policies: one atomic pointer
using GMP     = immer::memory_policy<immer::heap_policy<vp_heap>, immer::no_refcount_policy, lock_policy, immer::gc_transience_policy>;
using gbox_t  = immer::box<E, GMP>;
using gatom_t = immer::atom<E, GMP>;
static gatom_t* g_gatom;
enum { LOAD, STORE, RMW, CAS, FENCE };
struct gstep
{
    E *old, *now;
    bool write;
};
static gstep g_st[8];
static unsigned g_nst;
static void g_others(int, void* p, int)
{
    if (vp_bool("another thread stores")) {
        gbox_t b{E{vp_u64("other.k"), vp_u64("other.v")}};
        *(void**) g_gatom = b.impl_;
        b.impl_ = nullptr;
    }
}
inline E* value_at(u64 p) { return &((gbox_t::holder*) p)->value; }
static void g_mine(int kind, void* p, int o, u64 old, u64 now)
{
    if (kind == FENCE)
        return;
    vp_assert(p == (void*) g_gatom, "atom: only the atom's pointer is accessed");
    bool acq = o == 2 || o == 4 || o == 5, rel = o == 3 || o == 4 || o == 5;
    if (kind != STORE)
        vp_assert(acq, "atom: a box read is ordered after its making");
    if (kind != LOAD)
        vp_assert(rel, "atom: a box stored is made before it is seen");
    if (g_nst == 8)
        vp_limit("more steps than the harness keeps track of");
    auto& s = g_st[g_nst++];
    s.old   = kind == STORE ? nullptr : value_at(old);
    s.now   = value_at(now);
    s.write = kind != LOAD;
}
static gbox_t* g_scene()
{
    auto b = new gbox_t{E{vp_u64("my.k"), vp_u64("my.v")}};
    gbox_t a{E{vp_u64("atom.k"), vp_u64("atom.v")}};
    g_gatom = new (vp_raw(sizeof(gatom_t), "the atom")) gatom_t{vp_bool("the atom holds this thread's box") ? *b : a};
    vp_env(g_others, g_mine);
    return b;
}
inline gstep* g_the_write()
{
    gstep* r = nullptr;
    for (unsigned i = 0; i < g_nst; ++i)
        if (g_st[i].write) {
            vp_assert(!r, "atom: the operation takes effect at one point");
            r = &g_st[i];
        }
    vp_assert(r != nullptr, "atom: the operation takes effect at one point");
    return r;
}
inline bool same(const E& a, const E& b) { return vp_and(a.k == b.k, a.v == b.v); }
VP_HARNESS(gc_load)
{
    g_scene();
    const gatom_t& a = *g_gatom;
    gbox_t r = a.load();
    vp_env(nullptr, nullptr);
    bool any = false;
    for (unsigned i = 0; i < g_nst; ++i) {
        vp_assert(!g_st[i].write, "atom: an operation that only reads stores nothing");
        any = vp_or(any, same(*g_st[i].now, r.get()));
    }
    vp_assert(any, "atom: load returns the value at one point of it");
}
VP_HARNESS(gc_store)
{
    auto b = g_scene();
    if (vp_bool("assign"))
        *g_gatom = *b;
    else
        g_gatom->store(*b);
    vp_env(nullptr, nullptr);
    vp_assert(same(*g_the_write()->now, b->get()), "atom: store stores its argument");
}
VP_HARNESS(gc_exchange)
{
    auto b   = g_scene();
    gbox_t r = g_gatom->exchange(*b);
    vp_env(nullptr, nullptr);
    auto w = g_the_write();
    vp_assert(w->old != nullptr, "atom: exchange reads and stores in one step");
    vp_assert(same(*w->now, b->get()), "atom: exchange stores its argument");
    vp_assert(same(*w->old, r.get()), "atom: exchange returns the value it replaces");
}
VP_HARNESS(gc_update)
{
    g_scene();
    gbox_t r = g_gatom->update([&](const E& x) {
        ++g_calls;
        for (unsigned i = 0; i < g_nst; ++i)
            vp_assert(!g_st[i].write, "atom: the operation takes effect at one point");
        if (g_calls == 3)
            vp_end(); // no attempt leaves anything behind: by induction
        return E{vp_uf2("f.k", x.k, x.v), vp_uf2("f.v", x.k, x.v)};
    });
    vp_env(nullptr, nullptr);
    auto w = g_the_write();
    vp_assert(w->old != nullptr, "atom: update reads and stores in one step");
    vp_assert(vp_and(w->now->k == vp_uf2("f.k", w->old->k, w->old->v), w->now->v == vp_uf2("f.v", w->old->k, w->old->v)),
              "atom: update installs the function of the value it replaces");
    vp_assert(same(*w->now, r.get()), "atom: update returns what it installs");
    vp_cover("update returns");
}

// ---- the spinlock meets the contract of a lock
static immer::spinlock_policy* g_spin;
static bool g_mine_lock;
static unsigned g_fails;
static bool g_got;
static u64 g_clears;
static void s_others(int, void* p, int)
{
    if (!g_mine_lock)
        *(bool*) &g_spin->v_ = vp_bool("taken by another");
}
static void s_mine(int kind, void* p, int o, u64 old, u64 now)
{
    bool acq = o == 2 || o == 4 || o == 5, rel = o == 3 || o == 4 || o == 5;
    if (kind == FENCE || kind == LOAD)
        return;
    if (kind == RMW || kind == CAS) {
        vp_assert(now != 0, "atom: taking the lock sets the flag");
        vp_assert(!g_mine_lock, "atom: the lock is not taken twice");
        if (old == 0) {
            vp_assert(acq, "atom: taking the lock is an acquire");
            g_mine_lock = true;
            g_got       = true;
        } else if (++g_fails > 20)
            vp_end(); // bounded: at most 20 failed attempts
    } else {
        vp_assert(g_mine_lock, "atom: only a lock taken is released");
        vp_assert(now == 0, "atom: releasing the lock clears the flag");
        vp_assert(rel, "atom: releasing the lock is a release");
        g_mine_lock = false;
        ++g_clears;
    }
}
static void s_scene()
{
    g_spin = new (vp_raw(sizeof(immer::spinlock_policy), "lock")) immer::spinlock_policy;
    vp_assert(*(bool*) &g_spin->v_ == false, "atom: a new lock is free");
    vp_env(s_others, s_mine);
}
VP_HARNESS(spin_try_lock)
{
    s_scene();
    bool r = g_spin->try_lock();
    vp_assert(vp_iff(r, g_mine_lock), "atom: try_lock tells whether it took the lock");
}
VP_HARNESS(spin_lock)
{
    s_scene();
    g_spin->lock();
    vp_assert(g_mine_lock, "atom: lock returns with the lock taken");
    vp_cover("taken");
}
VP_HARNESS(spin_unlock)
{
    s_scene();
    *(bool*) &g_spin->v_ = true;
    g_mine_lock = true;
    g_spin->unlock();
    vp_assert(!g_mine_lock && g_clears == 1, "atom: unlock releases the lock");
}
VP_HARNESS(spin_scoped)
{
    s_scene();
    {
        immer::spinlock_policy::scoped_lock l{*g_spin};
        vp_assert(g_mine_lock, "atom: a scoped lock holds the lock");
    }
    vp_assert(!g_mine_lock && g_clears == 1, "atom: a scoped lock releases the lock once");
}
