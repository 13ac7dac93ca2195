// C14 (and the array part of C09 - C13): every operation of array and array_transient, for every length and every
// capacity.  A node of elements is known by the sequence it holds (ghost fields below); the elements themselves
// are told by their own operations, which find themselves inside such a node.  What runs over all elements of a node
// (util.hpp: uninitialized_copy, destroy_n; std: equal, uninitialized_fill_n) is decided by contract here; the bodies of
// the first two are run over ranges of up to four elements at the end.
#include "elem.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/heap/heap_policy.hpp>
#include <immer/lock/no_lock_policy.hpp>
#include <immer/memory_policy.hpp>
#include <immer/refcount/unsafe_refcount_policy.hpp>

struct A;
bool in_node(const void*);
void made_in(const void* p, u64 k);
u64 read_in(const void* p, bool taking);
void put_in(const void* p, u64 k);
void gone_in(const void* p);

struct A
{
    u64 k;
    u64 st;
    explicit A(u64 k_)
        : k{k_}
        , st{ST_LIVE}
    {
        ++g_elems;
    }
    u64 read(bool taking) const
    {
        if (in_node(this))
            return read_in(this, taking);
        vp_assert(st == ST_LIVE, "life: only a live element is copied or moved from");
        if (taking)
            const_cast<A*>(this)->st = ST_MOVED;
        return k;
    }
    void make(u64 k_)
    {
        if (in_node(this))
            return made_in(this, k_);
        k  = k_;
        st = ST_LIVE;
        ++g_elems;
    }
    void put(u64 k_)
    {
        if (in_node(this))
            return put_in(this, k_);
        vp_assert(st == ST_LIVE || st == ST_MOVED, "life: only a constructed element is assigned");
        k  = k_;
        st = ST_LIVE;
    }
    A(const A& o)
    {
        u64 x = o.read(false);
        maybe_throw();
        make(x);
    }
    A(A&& o)
#ifndef VP_MOVE_THROWS
        noexcept
#endif
    {
#ifdef VP_MOVE_THROWS
        maybe_throw();
#endif
        make(o.read(true));
    }
    A& operator=(const A& o)
    {
        u64 x = o.read(false);
        maybe_throw();
        put(x);
        return *this;
    }
    A& operator=(A&& o)
#ifndef VP_MOVE_THROWS
        noexcept
#endif
    {
#ifdef VP_MOVE_THROWS
        maybe_throw();
#endif
        put(o.read(true));
        return *this;
    }
    ~A()
    {
        if (in_node(this)) {
            gone_in(this);
            return;
        }
        vp_assert(st == ST_LIVE || st == ST_MOVED, "life: only a constructed element is destroyed");
        st = ST_DEAD;
        --g_elems;
    }
};
inline bool operator==(const A& a, const A& b)
{
    vp_limit("comparison of single elements");
    return false;
}

struct heap
{
    template <typename... Tags>
    static void* allocate(std::size_t n, Tags...);
    template <typename... Tags>
    static void deallocate(std::size_t n, void* p, Tags...);
};

#ifdef VP_GC
using MP = immer::memory_policy<immer::heap_policy<heap>, immer::no_refcount_policy, immer::default_lock_policy,
                                immer::gc_transience_policy, false, false>;
constexpr bool GC = true;
#else
#ifdef VP_UNSAFE
using RC = immer::unsafe_refcount_policy;
#else
using RC = immer::refcount_policy;
#endif
#ifdef VP_NO_TRANSIENT // && are the persistent operations
using MP = immer::memory_policy<immer::heap_policy<heap>, RC, immer::no_lock_policy, immer::no_transience_policy, true, false>;
#else
using MP = immer::memory_policy<immer::heap_policy<heap>, RC, immer::no_lock_policy>;
#endif
constexpr bool GC = false;
#endif
using arr    = immer::array<A, MP>;
using tra    = immer::array_transient<A, MP>;
using impl_t = std::decay_t<decltype(std::declval<arr>().impl())>;
using wc_t   = immer::detail::arrays::with_capacity<A, MP>;
using nc_t   = immer::detail::arrays::no_capacity<A, MP>;
using node_t = wc_t::node_t;
constexpr bool CAP = std::is_same<impl_t, wc_t>::value; // array has a capacity
constexpr u64 HUGE_ = u64(1) << 62;
constexpr u64 MANY  = u64(1) << 40;
constexpr u64 HDR   = 0;

enum slot
{
    N,      // elements constructed in it
    ID,     // the sequence its elements were copied from
    FILL,   // bool: all of it is FILLV instead
    FILLV,
    CAPAC,  // room
    MODS,   // elements that differ: their number, and up to three of (index, value)
    MI0, MV0, MI1, MV1, MI2, MV2,
    TAKEN,  // bool: one element is moved from
    TAKENI,
    FROZEN, // bool: somebody else sees it
    COUNTED // bool: a node (not a range of the user)
};

inline const void* base(const void* p) { return vp_base(p); }
bool in_node(const void* p) { return vp_is_opaque(p); }
inline u64 data_off(const void* b) { return vp_ggetb(b, COUNTED) ? (u64) ((node_t*) b)->data() - (u64) b : 0; }
inline u64 index_of(const void* p)
{
    auto b = base(p);
    u64 d  = (const char*) p - (const char*) b;
    d -= vp_ggetb(b, COUNTED) ? (const char*) ((node_t*) b)->data() - (const char*) b : 0;
    vp_assert(vp_and((d & 15) == 0, d >> 4 <= MANY * 4), "mem: an element lies where an element may lie");
    return d >> 4;
}
inline u64 elem_at(const void* b, u64 i)
{
    u64 v = vp_ite(vp_ggetb(b, FILL), vp_gget(b, FILLV), vp_uf2("S", vp_gget(b, ID), i));
    u64 m = vp_gget(b, MODS);
    for (u64 j = 0; j < m; ++j)
        v = vp_ite(vp_gget(b, MI0 + 2 * j) == i, vp_gget(b, MV0 + 2 * j), v);
    return v;
}
inline void mod(const void* b, u64 i, u64 v)
{
    u64 m = vp_gget(b, MODS);
    if (m >= 3)
        vp_limit("changes of one node");
    vp_gset(b, MI0 + 2 * m, i);
    vp_gset(b, MV0 + 2 * m, v);
    vp_gset(b, MODS, m + 1);
}
inline void writable(const void* b) { vp_assert(!vp_ggetb(b, FROZEN), "frame: a node which somebody else sees is not changed"); }

void made_in(const void* p, u64 k)
{
    auto b = base(p);
    u64 i  = index_of(p);
    writable(b);
    vp_assert(i == vp_gget(b, N), "life: an element is constructed where none is");
    vp_assert(i < vp_gget(b, CAPAC), "mem: an element is constructed inside the block");
    mod(b, i, k);
    vp_gset(b, N, i + 1);
}
u64 read_in(const void* p, bool taking)
{
    auto b = base(p);
    u64 i  = index_of(p);
    vp_assert(i < vp_gget(b, N), "life: only a live element is copied or moved from");
    vp_assert(!vp_and(vp_ggetb(b, TAKEN), vp_gget(b, TAKENI) == i), "life: only a live element is copied or moved from");
    u64 v = elem_at(b, i);
    if (taking) {
        writable(b);
        if (vp_ggetb(b, TAKEN))
            vp_limit("two elements moved from");
        vp_gsetb(b, TAKEN, true);
        vp_gset(b, TAKENI, i);
    }
    return v;
}
void put_in(const void* p, u64 k)
{
    auto b = base(p);
    u64 i  = index_of(p);
    writable(b);
    vp_assert(i < vp_gget(b, N), "life: only a constructed element is assigned");
    mod(b, i, k);
    if (vp_ggetb(b, TAKEN) && vp_gget(b, TAKENI) == i)
        vp_gsetb(b, TAKEN, false);
}
void gone_in(const void* p)
{
    auto b = base(p);
    u64 i  = index_of(p);
    writable(b);
    vp_assert(i + 1 == vp_gget(b, N), "life: elements are destroyed from the end, once");
    vp_gset(b, N, i);
}

// a block becomes a node of elements when its header is there; until then it is plain
inline void become(const void* b, u64 cap, bool counted = true)
{
    vp_gset(b, N, 0);
    vp_gset(b, ID, 0);
    vp_gsetb(b, FILL, false);
    vp_gset(b, FILLV, 0);
    vp_gset(b, CAPAC, cap);
    vp_gset(b, MODS, 0);
    vp_gsetb(b, TAKEN, false);
    vp_gset(b, TAKENI, 0);
    vp_gsetb(b, FROZEN, false);
    vp_gsetb(b, COUNTED, counted);
}
inline u64 room(const void* p)
{
    const node_t* n = (const node_t*) p;
    return (vp_object_size(p) - (u64) ((const char*) n->data() - (const char*) n)) >> 4;
}
inline void seal(const void* p)
{
    if (vp_is_opaque(p))
        return;
    const node_t* n = (const node_t*) p;
    if (!vp_ghas(p, N))
        become(p, room(p));
    vp_opaque(n->data(), HUGE_);
}
template <typename... Tags>
void* heap::allocate(std::size_t n, Tags...)
{
    if (g_may_throw)
        if (vp_bool("oom"))
            throw std::bad_alloc{};
    ++g_allocs;
    return vp_alloc(n, "block");
}
template <typename... Tags>
void heap::deallocate(std::size_t n, void* p, Tags...)
{
    ++g_frees;
    if (vp_is_opaque(p)) {
        vp_assert(vp_gget(p, N) == 0, "life: the elements of a node are destroyed before its memory is given back");
        writable(p);
    }
    vp_free(p, n);
}

// ---- what runs over all elements
static A* copied(const A* first, const A* last, A* out)
{
    auto s = base(first), d = base(out);
    u64 n  = (u64) ((const char*) last - (const char*) first);
    vp_assert(vp_same_object(first, last), "mem: a range is within one node");
    if (!vp_is_opaque(first))
        vp_limit("copy from elsewhere");
    vp_assert(vp_and((n & 15) == 0, n >> 4 <= MANY * 4), "mem: a range has a beginning and an end");
    n >>= 4;
    vp_assert(index_of(first) == 0, "view: elements are copied from the first on");
    vp_assert(n <= vp_gget(s, N), "life: only live elements are copied");
    vp_assert(!vp_ggetb(s, TAKEN), "life: only live elements are copied");
    seal(d);
    vp_assert(vp_and(index_of(out) == 0, vp_gget(d, N) == 0), "life: elements are constructed where none are");
    vp_assert(n <= vp_gget(d, CAPAC), "mem: elements are constructed inside the block");
    if (g_may_throw && n > 0 && vp_bool("copy throws"))
        throw vp_boom{1};
    vp_gset(d, N, n);
    vp_gset(d, ID, vp_gget(s, ID));
    vp_gsetb(d, FILL, vp_ggetb(s, FILL));
    vp_gset(d, FILLV, vp_gget(s, FILLV));
    u64 m = vp_gget(s, MODS);
    vp_gset(d, MODS, m);
    for (u64 j = 0; j < 2 * m; ++j)
        vp_gset(d, MI0 + j, vp_gget(s, MI0 + j));
    return out + n;
}
static A* copied_c(const A* first, const A* last, A* out) { return copied(first, last, out); }
VP_CONTRACT(ar_copy, "immer::detail::uninitialized_copy<A\\*, A\\*, A\\*>", copied)
VP_CONTRACT(ar_copy_c, "immer::detail::uninitialized_copy<A const\\*, A const\\*, A\\*>", copied_c)

static A* destroyed(A* first, u64 n)
{
    auto b = base(first);
    if (!vp_is_opaque(first)) {
        if (vp_ghas(b, COUNTED))
            vp_limit("not sealed");
        vp_assert(n == 0, "life: only constructed elements are destroyed");
        return first;
    }
    u64 i = index_of(first);
    if (n != 0)
        writable(b);
    vp_assert(n <= vp_gget(b, N), "life: only constructed elements are destroyed");
    vp_assert(i + n == vp_gget(b, N), "life: elements are destroyed from the end, once");
    vp_gset(b, N, i);
    return first + n;
}
VP_CONTRACT(ar_destroy, "immer::detail::destroy_n<A\\*, unsigned long>", destroyed)

static A* filled(A* out, u64 n, const A* v)
{
    auto d = base(out);
    seal(d);
    u64 k = v->k;
    vp_assert(v->st == ST_LIVE, "life: only live elements are copied");
    vp_assert(vp_and(index_of(out) == 0, vp_gget(d, N) == 0), "life: elements are constructed where none are");
    vp_assert(n <= vp_gget(d, CAPAC), "mem: elements are constructed inside the block");
    if (g_may_throw && n > 0 && vp_bool("copy throws"))
        throw vp_boom{1};
    vp_gset(d, N, n);
    vp_gsetb(d, FILL, true);
    vp_gset(d, FILLV, k);
    return out + n;
}
VP_CONTRACT(ar_fill, "std::uninitialized_fill_n<A\\*, unsigned long, A>", filled)

static u64 J; // any index
static bool same(const A* f1, const A* l1, const A* f2)
{
    auto a = base(f1), b = base(f2);
    u64 n  = (u64) ((const char*) l1 - (const char*) f1) >> 4;
    vp_assert(vp_and(index_of(f1) == 0, index_of(f2) == 0), "eq: contents are compared from the first on");
    vp_assert(vp_and(n <= vp_gget(a, N), n <= vp_gget(b, N)), "life: only live elements are compared");
    bool r = vp_bool("equal");
    if (r)
        vp_assume(vp_implies(J < n, elem_at(a, J) == elem_at(b, J)));
    else {
        u64 w = vp_u64("where they differ");
        vp_assume(vp_and(w < n, elem_at(a, w) != elem_at(b, w)));
        vp_gset(a, MI2, w);
    }
    return r;
}
VP_CONTRACT(ar_equal, "bool std::equal<A const\\*, A const\\*>", same)

// ---- values
static u64 blocks0, elems0;
static wc_t* g_wc;
static nc_t* g_nc;
static u32 g_wc_rc, g_nc_rc;
static u64 g_handles; // made by the harness and still there

inline u32 rc(const node_t* n)
{
#ifdef VP_GC
    return 0;
#else
    return *(u32*) &const_cast<node_t*>(n)->refs();
#endif
}
inline void set_rc(const node_t* n, u32 c)
{
#ifndef VP_GC
    *(u32*) &const_cast<node_t*>(n)->refs() = c;
#endif
}
inline node_t* new_node(u64 cap)
{
    auto p = new (vp_alloc(node_t::sizeof_n(cap), "node")) node_t{};
    become(p, room(p));
    return p;
}
static void begin()
{
    vp_symbolic_sizes(true);
    J    = vp_u64("j");
    g_wc = const_cast<wc_t*>(&wc_t::empty());
    g_nc = const_cast<nc_t*>(&nc_t::empty());
    for (auto n : {g_wc->ptr, g_nc->ptr}) {
        seal(n);
        vp_gsetb(n, FROZEN, true);
        vp_assume(room(n) < 2);
    }
    g_wc_rc = vp_u32("rc of empty");
    g_nc_rc = vp_u32("rc of empty");
    vp_assume(vp_and(vp_and(g_wc_rc > 0, g_wc_rc < 0x40000000), vp_and(g_nc_rc > 0, g_nc_rc < 0x40000000)));
    set_rc(g_wc->ptr, g_wc_rc);
    set_rc(g_nc->ptr, g_nc_rc);
    vp_enable("ar_*", 2);
}
static void mark()
{
    blocks0 = vp_live();
    elems0  = g_elems;
}
// what an array or a transient refers to, and what its other owners know of it
struct subject
{
    node_t* n;
    u64 id, size, cap;
    u32 others;
    subject(const char* nm, u64 id_, bool with_cap)
        : id{id_}
    {
        size   = vp_u64("size");
        cap    = vp_u64("capacity");
        others = vp_u32("other owners");
        vp_assume(vp_and(vp_and(size <= cap, cap < MANY), others < 0x40000000));
        if (!with_cap)
            vp_assume(cap == size);
        n = new_node(cap);
        vp_gset(n, N, size);
        vp_gset(n, ID, id);
        vp_gsetb(n, FROZEN, true);
        seal(n);
        set_rc(n, others + 1);
    }
    // the value as the others know it, when mine of the references are left
    void intact(u32 mine)
    {
        if (!GC) {
            if (mine == 0) {
                bool lives = vp_is_alive(n);
                vp_assert(vp_iff(lives, others != 0), "rc: a node lives exactly as long as somebody refers to it");
                if (!lives)
                    return;
            }
            vp_assert(vp_is_alive(n), "mem: a node referred to is live");
            vp_assert(rc(n) == others + mine, "rc: the count is the number of owners");
        } else
            vp_assert(vp_is_alive(n), "mem: a node referred to is live");
        vp_assert(vp_gget(n, N) == size, "frame: the elements of a value stay for its other owners");
        vp_assert(vp_gget(n, MODS) == 0 && !vp_ggetb(n, TAKEN), "frame: a value does not change for its other owners");
    }
};
inline u64 size_of(const arr& a) { return a.size(); }
template <typename Impl>
inline u64 cap_of(const Impl& i);
template <>
inline u64 cap_of(const wc_t& i)
{
    return i.capacity;
}
template <>
inline u64 cap_of(const nc_t& i)
{
    return i.size;
}
inline void set_cap(wc_t& i, u64 c) { i.capacity = c; }
inline void set_cap(nc_t&, u64) {}
// i holds n elements, the one at J (if it is one of them) being v; refs is the number of owners of its node
template <typename Impl>
inline void is(const Impl& i, u64 n, u64 v, u32 refs, const char* nm)
{
    vp_assert(vp_is_alive(i.ptr), "mem: an array refers to a live node");
    seal(i.ptr);
    vp_assert(i.size == n, nm);
    vp_assert(vp_gget(i.ptr, N) == i.size, "life: exactly the elements of an array are constructed");
    vp_assert(!vp_ggetb(i.ptr, TAKEN), "life: the elements of an array are live");
    vp_assert(vp_implies(J < n, elem_at(i.ptr, J) == v), nm);
    vp_assert(vp_and(i.size <= cap_of(i), vp_object_size(i.ptr) == node_t::sizeof_n(cap_of(i))),
              "wf: the capacity is what was allocated and no less than the size");
#ifndef VP_GC
    bool e = i.ptr == g_wc->ptr || i.ptr == g_nc->ptr;
    if (!e)
        vp_assert(rc(i.ptr) == refs, "rc: the count is the number of owners");
#endif
}
inline u64 S(u64 id, u64 i) { return vp_uf2("S", id, i); }

static void done(u64 blocks)
{
    g_may_throw = false;
    vp_assert(g_elems == elems0, "life: no element outside is leaked or destroyed twice");
    if (!GC)
        vp_assert(vp_live() == blocks0 + blocks, "mem: exactly the new nodes are allocated");
}
static u64 g_calls, g_arg;
struct F
{
    A operator()(A x) const
    {
        ++g_calls;
        g_arg = x.k;
        maybe_throw();
        x.k = vp_uf1("f", x.k);
        return x;
    }
};

enum op_t
{
    PUSH,
    SET,
    UPDATE,
    TAKE
};
struct op
{
    op_t o;
    u64 i, v;
    explicit op(op_t o_, u64 size)
        : o{o_}
        , i{vp_u64("index")}
        , v{vp_u64("value")}
    {
        if (o == SET || o == UPDATE)
            vp_assume(i < size);
        if (o == TAKE)
            vp_assume(i <= size);
    }
    u64 size(u64 n) const { return o == PUSH ? n + 1 : o == TAKE ? i : n; }
    u64 at(u64 id, u64 n) const
    {
        return o == PUSH     ? vp_ite(J == n, v, S(id, J))
               : o == SET    ? vp_ite(J == i, v, S(id, J))
               : o == UPDATE ? vp_ite(J == i, vp_uf1("f", S(id, J)), S(id, J))
                             : S(id, J);
    }
};

// ---- persistent: on a const array; shares nothing but changes nothing
static void persistent(op_t o, bool throwing)
{
    begin();
    subject s{"s", 1, CAP};
    {
        op x{o, s.size};
        mark();
        alignas(arr) char mem[sizeof(arr)];
        impl_t* im = (impl_t*) mem;
        im->ptr    = s.n;
        im->size   = s.size;
        set_cap(*im, s.cap);
        const arr& a = *(arr*) mem;
        g_may_throw  = throwing;
        try {
            A val{x.v};
            arr r = o == PUSH     ? a.push_back(val)
                    : o == SET    ? a.set(x.i, val)
                    : o == UPDATE ? a.update(x.i, F{})
                                  : a.take(x.i);
            g_may_throw = false;
            is(r.impl(), x.size(s.size), x.at(s.id, s.size), 1, "view: the result is that of the operation on the sequence");
            if (o == UPDATE)
                vp_assert(vp_and(g_calls == 1, g_arg == S(s.id, x.i)), "view: the function is called once, with the element");
            vp_assert(im->ptr == s.n && vp_and(im->size == s.size, cap_of(*im) == s.cap), "frame: a persistent operation does not change its operand");
            s.intact(1);
            vp_cover("done");
        } catch (const vp_boom&) {
            vp_cover("throws");
        } catch (const std::bad_alloc&) {
            vp_cover("no memory");
        }
        g_may_throw = false;
        vp_assert(im->ptr == s.n && vp_and(im->size == s.size, cap_of(*im) == s.cap), "frame: a persistent operation does not change its operand");
        s.intact(1);
        done(0); // with the result gone
    }
}
VP_HARNESS(array_push_back) { persistent(PUSH, false); }
VP_HARNESS(array_set) { persistent(SET, false); }
VP_HARNESS(array_update) { persistent(UPDATE, false); }
VP_HARNESS(array_take) { persistent(TAKE, false); }
VP_HARNESS(array_push_back_throw) { persistent(PUSH, true); }
VP_HARNESS(array_set_throw) { persistent(SET, true); }
VP_HARNESS(array_update_throw) { persistent(UPDATE, true); }
VP_HARNESS(array_take_throw) { persistent(TAKE, true); }

// ---- in place: on an rvalue array
static void rvalue(op_t o, bool throwing)
{
    begin();
    subject s{"s", 1, CAP};
    op x{o, s.size};
    mark();
    alignas(arr) char mem[sizeof(arr)];
    impl_t* im = (impl_t*) mem;
    im->ptr    = s.n;
    im->size   = s.size;
    set_cap(*im, s.cap);
    if (CAP)
        vp_gsetb(s.n, FROZEN, GC || s.others != 0);
    arr& a      = *(arr*) mem;
    bool thrown = false;
    g_may_throw = throwing;
    try {
        A val{x.v};
        arr r = o == PUSH     ? std::move(a).push_back(val)
                : o == SET    ? std::move(a).set(x.i, val)
                : o == UPDATE ? std::move(a).update(x.i, F{})
                              : std::move(a).take(x.i);
        g_may_throw = false;
        is(r.impl(), x.size(s.size), x.at(s.id, s.size), 1, "view: the result is that of the operation on the sequence");
        if (o == UPDATE)
            vp_assert(vp_and(g_calls == 1, g_arg == S(s.id, x.i)), "view: the function is called once, with the element");
        if (r.impl().ptr != s.n)
            s.intact(!CAP ? 1 : 0);
        vp_gsetb(r.impl().ptr, FROZEN, false);
        vp_cover("done");
    } catch (const vp_boom&) {
        thrown = true;
        vp_cover("throws");
    } catch (const std::bad_alloc&) {
        thrown = true;
        vp_cover("no memory");
    }
    g_may_throw = false;
    if (thrown) {
        vp_assert(vp_is_alive(im->ptr), "throw: the array can be destroyed");
        if (s.others != 0 || GC)
            s.intact(1);
    }
    if (!CAP)
        vp_gsetb(s.n, FROZEN, GC || s.others != 0);
    a.~arr();
    if (!GC) {
        if (s.others)
            s.intact(0);
        else
            vp_assert(!vp_is_alive(s.n), "rc: a node lives exactly as long as somebody refers to it");
        vp_assert(vp_live() == blocks0 - (s.others ? 0 : 1), "mem: exactly the new nodes are allocated");
    } else
        s.intact(0);
    vp_assert(g_elems == elems0, "life: no element outside is leaked or destroyed twice");
}
VP_HARNESS(array_push_back_mut) { rvalue(PUSH, false); }
VP_HARNESS(array_set_mut) { rvalue(SET, false); }
VP_HARNESS(array_update_mut) { rvalue(UPDATE, false); }
VP_HARNESS(array_take_mut) { rvalue(TAKE, false); }
VP_HARNESS(array_push_back_mut_throw) { rvalue(PUSH, true); }
VP_HARNESS(array_set_mut_throw) { rvalue(SET, true); }
VP_HARNESS(array_update_mut_throw) { rvalue(UPDATE, true); }
VP_HARNESS(array_take_mut_throw) { rvalue(TAKE, true); }

// ---- transients
struct transient
{
    alignas(tra) char mem[sizeof(tra)];
    bool owned; // GC: the node is its own
    tra& t() { return *(tra*) mem; }
    // refers to the node of s; others may see it unless it is the only owner
    void make(subject& s)
    {
        new (mem) tra();
        auto& im    = t().impl_;
        set_rc(im.ptr, rc(im.ptr) - 1); // the reference it had to the empty node
        im.ptr      = s.n;
        im.size     = s.size;
        im.capacity = s.cap;
        owned       = false;
#ifdef VP_GC
        owned = vp_bool("owned");
        if (owned)
            s.n->ownee() = (wc_t::edit_t) t();
        vp_gsetb(s.n, FROZEN, !owned);
#else
        vp_gsetb(s.n, FROZEN, s.others != 0);
#endif
    }
    bool only(subject& s) { return GC ? owned : s.others == 0; }
};
static void in_transient(op_t o, bool throwing)
{
    begin();
    subject s{"s", 1, true};
    op x{o, s.size};
    transient t;
    t.make(s);
    bool only = t.only(s);
    mark();
    bool thrown = false;
    g_may_throw = throwing;
    try {
        A val{x.v};
        if (o == PUSH)
            t.t().push_back(val);
        else if (o == SET)
            t.t().set(x.i, val);
        else if (o == UPDATE)
            t.t().update(x.i, F{});
        else
            t.t().take(x.i);
        g_may_throw = false;
        is(t.t().impl_, x.size(s.size), x.at(s.id, s.size), 1, "view: the transient holds the result of the operation on the sequence");
        if (o == UPDATE)
            vp_assert(vp_and(g_calls == 1, g_arg == S(s.id, x.i)), "view: the function is called once, with the element");
        if (t.t().impl_.ptr != s.n)
            s.intact(0);
        else if (o != TAKE || x.i != s.size)
            vp_assert(only, "frame: a shared node is not changed");
        vp_cover("done");
        if (vp_bool("go on")) { // what it holds is its own, and is not what it gives away
            arr p = t.t().persistent();
            is(p.impl(), x.size(s.size), x.at(s.id, s.size), p.impl().ptr == t.t().impl_.ptr ? 2 : 1, "view: persistent() gives what the transient holds");
            vp_gsetb(p.impl().ptr, FROZEN, true);
            u64 n = x.size(s.size), w = x.at(s.id, s.size), v2 = vp_u64("value");
            t.t().push_back(A{v2});
            is(t.t().impl_, n + 1, vp_ite(J == n, v2, w), 1, "view: the transient goes on from what it held");
            is(p.impl(), n, w, 1, "frame: a value is not changed by the transient which it came from");
            vp_gsetb(p.impl().ptr, FROZEN, false);
            vp_cover("went on");
        }
        vp_gsetb(t.t().impl_.ptr, FROZEN, false);
    } catch (const vp_boom&) {
        thrown = true;
        vp_cover("throws");
    } catch (const std::bad_alloc&) {
        thrown = true;
        vp_cover("no memory");
    }
    g_may_throw = false;
    if (thrown) {
        vp_assert(vp_is_alive(t.t().impl_.ptr), "throw: the transient can be destroyed");
        if (!only)
            s.intact(1);
    }
    t.t().~tra();
    if (!GC) {
        if (s.others)
            s.intact(0);
        else
            vp_assert(!vp_is_alive(s.n), "rc: a node lives exactly as long as somebody refers to it");
        vp_assert(vp_live() == blocks0 - (s.others ? 0 : 1), "mem: exactly the new nodes are allocated");
    } else if (!only)
        s.intact(0);
    vp_assert(g_elems == elems0, "life: no element outside is leaked or destroyed twice");
}
VP_HARNESS(array_t_push_back) { in_transient(PUSH, false); }
VP_HARNESS(array_t_set) { in_transient(SET, false); }
VP_HARNESS(array_t_update) { in_transient(UPDATE, false); }
VP_HARNESS(array_t_take) { in_transient(TAKE, false); }
VP_HARNESS(array_t_push_back_throw) { in_transient(PUSH, true); }
VP_HARNESS(array_t_set_throw) { in_transient(SET, true); }
VP_HARNESS(array_t_update_throw) { in_transient(UPDATE, true); }
VP_HARNESS(array_t_take_throw) { in_transient(TAKE, true); }

// ---- handles: copies, moves, assignments of arrays; transient() and persistent(); copies of transients
static void put(arr& a, subject& s)
{
    impl_t& im = const_cast<impl_t&>(a.impl());
    im.ptr     = s.n;
    im.size    = s.size;
    set_cap(im, s.cap);
}
struct value
{
    alignas(arr) char mem[sizeof(arr)];
    arr& a() { return *(arr*) mem; }
    explicit value(subject& s) { put(a(), s); }
};
VP_HARNESS(array_handles)
{
    begin();
    subject s{"s", 1, CAP}, r{"r", 2, CAP};
    value x{s}, y{r};
    mark();
    unsigned how = vp_case(7, "copy / move / assign copy / assign move / itself / destroy / swap");
    if (how == 0) {
        arr c = x.a();
        is(c.impl(), s.size, S(1, J), s.others + 2, "view: a copy holds the same");
        s.intact(2);
        vp_assert(c.identity() == x.a().identity(), "share: a copy shares everything");
    } else if (how == 1) {
        {
            arr c = std::move(x.a());
            is(c.impl(), s.size, S(1, J), s.others + 1, "view: a moved array holds the same");
            s.intact(1);
            x.a().~arr();
            vp_gsetb(s.n, FROZEN, s.others != 0);
        }
        s.intact(0);
    } else if (how == 2) {
        vp_gsetb(r.n, FROZEN, r.others != 0);
        y.a() = x.a();
        is(y.a().impl(), s.size, S(1, J), s.others + 2, "view: an assigned array holds the same");
        s.intact(2);
        r.intact(0);
    } else if (how == 3) {
        vp_gsetb(r.n, FROZEN, r.others != 0);
        y.a() = std::move(x.a());
        is(y.a().impl(), s.size, S(1, J), s.others + 1, "view: an assigned array holds the same");
        x.a().~arr();
        s.intact(1);
        r.intact(0);
    } else if (how == 4) {
        arr& z = x.a();
        if (vp_bool("move"))
            x.a() = std::move(z);
        else
            x.a() = z;
        is(x.a().impl(), s.size, S(1, J), s.others + 1, "view: assigning an array to itself changes nothing");
        s.intact(1);
    } else if (how == 5) {
        vp_gsetb(s.n, FROZEN, s.others != 0);
        x.a().~arr();
        s.intact(0);
    } else {
        using std::swap;
        swap(x.a(), y.a());
        is(y.a().impl(), s.size, S(1, J), s.others + 1, "view: swap exchanges the contents");
        is(x.a().impl(), r.size, S(2, J), r.others + 1, "view: swap exchanges the contents");
        s.intact(1);
        r.intact(1);
    }
    vp_assert(g_elems == elems0, "life: no element outside is leaked or destroyed twice");
    vp_cover("done");
}
static void to_transient(bool throwing)
{
    begin();
    subject s{"s", 1, CAP};
    value x{s};
    mark();
    bool moved  = vp_bool("from an rvalue");
    u64 v       = vp_u64("value"), i = vp_u64("index");
    bool pushes = vp_bool("push");
    g_may_throw = throwing;
    try {
        tra t = moved ? std::move(x.a()).transient() : x.a().transient();
        bool all = g_may_throw;
        g_may_throw = false;
        is(t.impl_, s.size, S(1, J), s.others + (moved && CAP ? 1 : 2), "view: a transient holds what the array holds");
        if (moved)
            x.a().~arr();
        s.intact(moved ? 1 : 2);
        bool frozen = GC || !moved || s.others != 0;
        vp_gsetb(s.n, FROZEN, frozen);
        g_may_throw = all;
        try {
            if (pushes)
                t.push_back(A{v});
            else {
                vp_assume(i < s.size);
                t.set(i, A{v});
            }
            g_may_throw = false;
            is(t.impl_, pushes ? s.size + 1 : s.size, vp_ite(J == (pushes ? s.size : i), v, S(1, J)), 1, "view: the transient holds the result");
            if (!moved)
                is(x.a().impl(), s.size, S(1, J), s.others + 1, "frame: a value is not changed by a transient made from it");
            vp_cover("done");
        } catch (const vp_boom&) {
            g_may_throw = false;
            vp_cover("throws");
        } catch (const std::bad_alloc&) {
            g_may_throw = false;
            vp_cover("no memory");
        }
        if (moved && s.others == 0 && !GC && vp_is_alive(s.n))
            vp_gsetb(s.n, FROZEN, false);
    } catch (const std::bad_alloc&) {
        g_may_throw = false;
        vp_cover("no transient");
        if (moved && !GC)
            vp_limit("a transient that cannot be made");
    }
    g_may_throw = false;
    if (!moved)
        s.intact(1);
    else if (!GC)
        vp_assert(vp_iff(vp_is_alive(s.n), s.others != 0), "rc: a node lives exactly as long as somebody refers to it");
    vp_assert(g_elems == elems0, "life: no element outside is leaked or destroyed twice");
}
VP_HARNESS(array_transient) { to_transient(false); }
VP_HARNESS(array_transient_throw) { to_transient(true); }

// copying, moving and assigning a transient, then changing one of the two
VP_HARNESS(array_t_handles)
{
    begin();
    subject s{"s", 1, true}, r{"r", 2, true};
    transient t, q;
    t.make(s);
    q.make(r);
    bool only = t.only(s);
    mark();
    unsigned how = vp_case(4, "copy / move / assign copy / assign move");
    u64 v        = vp_u64("value");
    alignas(tra) char mem[sizeof(tra)];
    tra* c = how < 2 ? (tra*) mem : &q.t();
    if (how == 0)
        new (mem) tra(t.t());
    else if (how == 1)
        new (mem) tra(std::move(t.t()));
    else if (how == 2)
        q.t() = t.t();
    else
        q.t() = std::move(t.t());
    is(c->impl_, s.size, S(1, J), s.others + (how % 2 ? 1 : 2), "view: the transient holds the same");
    if (how >= 2)
        r.intact(how == 3 ? 1 : 0);
    vp_gsetb(s.n, FROZEN, how % 2 ? !only : true);
    unsigned second = vp_case(2, "the copy / the original");
    if (second == 0) {
        c->push_back(A{v});
        is(c->impl_, s.size + 1, vp_ite(J == s.size, v, S(1, J)), 1, "view: the transient holds the result");
        if (how % 2 == 0)
            is(t.t().impl_, s.size, S(1, J), s.others + 1, "frame: a transient is not changed through a copy of it");
    } else if (how % 2 == 0) {
        t.t().push_back(A{v});
        is(t.t().impl_, s.size + 1, vp_ite(J == s.size, v, S(1, J)), 1, "view: the transient holds the result");
        is(c->impl_, s.size, S(1, J), s.others + 1, "frame: a copy of a transient is not changed through the original");
    } else { // what is left of a moved-from transient can be used
        if (how == 3)
            vp_gsetb(r.n, FROZEN, !(GC ? false : r.others == 0));
        t.t().push_back(A{v});
        is(c->impl_, s.size, S(1, J), s.others + 1, "frame: what was moved from a transient is not changed through it");
        if (how == 1)
            is(t.t().impl_, 1, v, 1, "view: a moved-from transient is empty");
    }
    vp_cover("done");
}

// ---- made from elements
static void made(bool throwing)
{
    begin();
    u64 n        = vp_u64("n"), v = vp_u64("v");
    unsigned how = vp_case(3, "range / fill / nothing");
    vp_assume(n < MANY);
    auto u = (A*) vp_raw(MANY * 16, "range of the user");
    become(u, MANY, false);
    vp_gset(u, N, n);
    vp_gset(u, ID, 7);
    vp_gsetb(u, FROZEN, true);
    vp_opaque(u, HUGE_);
    mark();
    g_may_throw = throwing;
    try {
        arr a = how == 0 ? arr((const A*) u, (const A*) u + n) : how == 1 ? arr(n, A{v}) : arr{};
        g_may_throw = false;
        is(a.impl(), how == 2 ? 0 : n, how == 1 ? v : S(7, J), 1, "view: an array holds what it is made of");
        vp_cover("made");
    } catch (const vp_boom&) {
        vp_cover("throws");
    } catch (const std::bad_alloc&) {
        vp_cover("no memory");
    }
    done(0);
#ifndef VP_GC
    vp_assert(rc(g_wc->ptr) == g_wc_rc && rc(g_nc->ptr) == g_nc_rc, "rc: the empty node has as many owners as refer to it");
#endif
}
VP_HARNESS(array_made) { made(false); }
VP_HARNESS(array_made_throw) { made(true); }

// ---- reading
static const A *g_cf, *g_cl;
struct chunk
{
    bool operator()(const A* f, const A* l) const
    {
        ++g_calls;
        g_cf = f;
        g_cl = l;
        return vp_bool("go on");
    }
};
template <typename T>
static void reads(const T& a, subject& s)
{
    u64 i         = vp_u64("index");
    const A* data = s.n->data();
    vp_assert(a.size() == s.size && a.empty() == (s.size == 0), "view: size");
    bool there = false;
    try {
        const A& e = a.at(i);
        there      = true;
        vp_assert(&e == data + i, "view: at gives the element at the index");
    } catch (const std::out_of_range&) {
    }
    vp_assert(there == (i < s.size), "view: at throws exactly for an index that is none");
    if (i < s.size) {
        vp_assert(&a[i] == data + i, "view: [] gives the element at the index");
        vp_assert(&a.front() == data && &a.back() == data + (s.size - 1), "view: front and back");
    }
    vp_assert(a.begin() == data && a.end() == data + s.size, "iter: the iterators go over exactly the elements");
    vp_assert(a.rbegin().base() == data + s.size && a.rend().base() == data, "iter: the iterators go over exactly the elements");
    vp_assert(a.data() == data, "view: data");
    a.impl_.for_each_chunk(chunk{});
    vp_assert(g_calls == 1 && g_cf == data && g_cl == data + s.size, "iter: the chunk is all the elements");
    a.impl_.for_each_chunk_p(chunk{});
    vp_assert(g_calls == 2 && g_cf == data && g_cl == data + s.size, "iter: the chunk is all the elements");
    vp_cover("read");
}
VP_HARNESS(array_read)
{
    begin();
    subject s{"s", 1, CAP};
    value x{s};
    reads(x.a(), s);
    s.intact(1);
}
VP_HARNESS(array_t_read)
{
    begin();
    subject s{"s", 1, true};
    transient t;
    t.make(s);
    reads(t.t(), s);
    if (!GC)
        s.intact(1);
}
VP_HARNESS(array_equals)
{
    begin();
    subject s{"s", 1, CAP};
    unsigned how = vp_case(2, "the same / another");
    subject r{"r", 2, CAP};
    value x{s}, y{how == 0 ? s : r};
    bool e = x.a() == y.a();
    if (how == 0)
        vp_assert(e, "eq: a value equals itself");
    else if (e)
        vp_assert(vp_and(s.size == r.size, vp_implies(J < s.size, S(1, J) == S(2, J))), "eq: equal arrays hold the same");
    else {
        if (s.size == r.size) {
            vp_assert(vp_ghas(s.n, MI2), "eq: arrays of one size that are not equal were compared");
            u64 w = vp_gget(s.n, MI2);
            vp_assert(vp_and(w < s.size, S(1, w) != S(2, w)), "eq: arrays that are not equal differ");
        }
    }
    s.intact(1);
    vp_cover("compared");
}
VP_HARNESS(array_not_equals)
{
    begin();
    subject s{"s", 1, CAP}, r{"r", 2, CAP};
    value x{s}, y{r};
    bool e = x.a() != y.a();
    if (!e)
        vp_assert(vp_and(s.size == r.size, vp_implies(J < s.size, S(1, J) == S(2, J))), "eq: != is the negation of ==");
    else if (s.size == r.size)
        vp_assert(vp_ghas(s.n, MI2), "eq: != is the negation of ==");
}
// data_mut of a transient: the storage is its own
static void data_mut(bool throwing)
{
    begin();
    subject s{"s", 1, true};
    transient t;
    t.make(s);
    bool only = t.only(s);
    mark();
    g_may_throw = throwing;
    try {
        A* d        = t.t().data_mut();
        g_may_throw = false;
        vp_assert(d == t.t().impl_.ptr->data(), "view: data_mut is the storage of the transient");
        is(t.t().impl_, s.size, S(1, J), 1, "view: data_mut changes nothing by itself");
        if (t.t().impl_.ptr != s.n)
            s.intact(0);
        else
            vp_assert(only, "frame: the storage given for writing is nobody else's");
        vp_cover("done");
    } catch (const vp_boom&) {
        g_may_throw = false;
        if (!only)
            s.intact(1);
    } catch (const std::bad_alloc&) {
        g_may_throw = false;
        if (!only)
            s.intact(1);
    }
    vp_gsetb(t.t().impl_.ptr, FROZEN, GC ? !only : s.others != 0 && t.t().impl_.ptr == s.n);
    if (!GC) {
        t.t().~tra();
        vp_assert(vp_iff(vp_is_alive(s.n), s.others != 0), "rc: a node lives exactly as long as somebody refers to it");
    }
}
VP_HARNESS(array_t_data_mut) { data_mut(false); }
VP_HARNESS(array_t_data_mut_throw) { data_mut(true); }

// ---- the loops (bounded: up to four elements)
static void loops(bool throwing)
{
    unsigned n = vp_case(5, "n");
    alignas(A) char a[4 * sizeof(A)], b[4 * sizeof(A)];
    A *src = (A*) a, *dst = (A*) b;
    u64 w[4];
    for (unsigned i = 0; i < n; ++i)
        new (src + i) A{w[i] = vp_u64("w")};
    u64 e0      = g_elems;
    g_may_throw = throwing;
    try {
        A* r        = immer::detail::uninitialized_copy(src, src + n, dst);
        g_may_throw = false;
        vp_assert(r == dst + n, "view: as many are copied as there are");
        for (unsigned i = 0; i < n; ++i)
            vp_assert(dst[i].st == ST_LIVE && dst[i].k == w[i], "view: a copy holds the same");
        vp_assert(g_elems == e0 + n, "life: each is constructed once");
        immer::detail::destroy_n(dst, u64(n));
        for (unsigned i = 0; i < n; ++i)
            vp_assert(dst[i].st == ST_DEAD, "life: each is destroyed");
        vp_cover("done");
    } catch (const vp_boom&) {
        g_may_throw = false;
        vp_assert(n > 0, "throw: only a copy throws");
        vp_cover("throws");
    }
    vp_assert(g_elems == e0, "life: what was constructed is destroyed");
    for (unsigned i = 0; i < n; ++i)
        vp_assert(src[i].st == ST_LIVE && src[i].k == w[i], "frame: the source does not change");
}
VP_HARNESS(array_loops) { loops(false); }
VP_HARNESS(array_loops_throw) { loops(true); }
