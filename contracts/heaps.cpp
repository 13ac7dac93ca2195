// C18: every heap adaptor against the contract of a heap, over a parent that meets it.
#define IMMER_ENABLE_DEBUG_SIZE_HEAP 1
#include "elem.hpp"
#include <immer/heap/cpp_heap.hpp>
#include <immer/heap/heap_policy.hpp>
#include <immer/heap/identity_heap.hpp>
#include <immer/heap/malloc_heap.hpp>
#include <immer/heap/tags.hpp>

static u64 g_in[3], g_out[3]; // blocks taken from, given back to each parent
// a parent that meets the contract of a heap and demands it of its user
template <int I>
struct parent
{
    template <typename... Tags>
    static void* allocate(size_t n, Tags...)
    {
        maybe_throw();
        ++g_in[I];
        auto p = vp_alloc(n, "block");
        vp_gset(p, 0, I);
        return p;
    }
    template <typename... Tags>
    static void deallocate(size_t n, void* p, Tags...)
    {
        vp_assert(vp_ghas(p, 0) && vp_gget(p, 0) == I, "heap: a block is given back to the heap it came from");
        ++g_out[I];
        vp_free(p, n);
    }
};
using P0 = parent<0>;
using P1 = parent<1>;

inline size_t any_size(size_t least, size_t most)
{
    vp_symbolic_sizes(true);
    size_t n = vp_u64("size");
    vp_assume(vp_and(n >= least, n <= most));
    return n;
}
// [p, p + n) is inside a live block, aligned for anything
inline void usable(void* p, size_t n)
{
    vp_assert(p != nullptr && vp_is_alive(p), "heap: a block handed out is live");
    u64 off = (char*) p - (char*) vp_base(p);
    vp_assert(off % alignof(std::max_align_t) == 0, "heap: a block is aligned for every type");
    vp_assert(vp_and(off <= vp_object_size(p), vp_object_size(p) - off >= n), "heap: a block has the size asked for");
}

// ---- heaps at the bottom
template <typename H>
static void bottom()
{
    u64 live = vp_live();
    size_t n = any_size(1, 1 << 30);
    auto p   = H::allocate(n);
    usable(p, n);
    vp_assert(vp_live() == live + 1, "heap: one block is taken");
    auto q = H::allocate(any_size(1, 1 << 30), immer::norefs_tag{});
    vp_assert(!vp_same_object(p, q), "heap: blocks in use are disjoint");
    H::deallocate(n, p);
    vp_assert(!vp_is_alive(p) && vp_is_alive(q), "heap: a block given back is returned, and no other");
}
VP_HARNESS(cpp_heap) { bottom<immer::cpp_heap>(); }
VP_HARNESS(malloc_heap)
{
    bottom<immer::malloc_heap>();
    vp_malloc_fails(true);
    try {
        auto p = immer::malloc_heap::allocate(8);
        vp_assert(p != nullptr, "heap: a failed allocation throws");
    } catch (std::bad_alloc&) {
        vp_cover("bad_alloc");
    }
}

// ---- adaptors without state: what they pass on
template <typename H>
static void stateless(size_t most)
{
    size_t n = any_size(1, most);
    auto p   = H::allocate(n, immer::norefs_tag{});
    usable(p, n);
    vp_assert(g_in[0] + g_in[1] == 1, "heap: one block is taken of the parent");
    auto q = H::allocate(n);
    vp_assert(!vp_same_object(p, q), "heap: blocks in use are disjoint");
    *(char*) p = 1;
    ((char*) p)[vp_conc(n) - 1] = 1; // all of it is the user's
    H::deallocate(n, p, immer::norefs_tag{});
    vp_assert(!vp_is_alive(p) && vp_is_alive(q), "heap: a block given back is returned, and no other");
    H::deallocate(n, q);
    vp_assert(g_out[0] + g_out[1] == 2 && vp_live() == 0, "heap: every block is returned");
}
template <typename H>
static void stateless_throw()
{
    g_may_throw = true;
    try {
        auto p = H::allocate(any_size(1, 4096));
        vp_assert(p != nullptr, "heap: a failed allocation throws");
        vp_assert(vp_live() == 1, "heap: one block is taken of the parent");
    } catch (vp_boom&) {
        vp_assert(vp_live() == 0, "heap: a failed allocation keeps nothing");
        vp_cover("throws");
    }
}
struct payload
{
    u64 a = 1, b = 2;
    alignas(std::max_align_t) u64 c = 3;
};
VP_HARNESS(identity) { stateless<immer::identity_heap<P0>>(40); }
VP_HARNESS(identity_throw) { stateless_throw<immer::identity_heap<P0>>(); }
VP_HARNESS(debug_size) { stateless<immer::debug_size_heap<P0>>(40); }
VP_HARNESS(debug_size_throw) { stateless_throw<immer::debug_size_heap<P0>>(); }
VP_HARNESS(with_data) { stateless<immer::with_data<payload, P0>>(40); }
VP_HARNESS(with_data_throw) { stateless_throw<immer::with_data<payload, P0>>(); }
VP_HARNESS(split) { stateless<immer::split_heap<24, P0, P1>>(40); }
VP_HARNESS(split_any)
{
    using H  = immer::split_heap<100, P0, P1>;
    size_t n = any_size(1, ~size_t{0} >> 1);
    auto p   = H::allocate(n);
    vp_assert(vp_iff(g_in[0] == 1, n <= 100), "heap: blocks up to the split size come from the small heap");
    H::deallocate(n, p);
    vp_assert(vp_live() == 0, "heap: every block is returned");
}
VP_HARNESS(debug_size_any)
{
    using H  = immer::debug_size_heap<P0>;
    size_t n = any_size(1, size_t{1} << 40);
    auto p   = H::allocate(n);
    usable(p, n);
    H::deallocate(n, p);
    vp_assert(vp_live() == 0, "heap: every block is returned");
}
VP_HARNESS(with_data_any)
{
    using H  = immer::with_data<payload, P0>;
    size_t n = any_size(1, size_t{1} << 40);
    auto p   = H::allocate(n);
    usable(p, n);
    H::deallocate(n, p);
    vp_assert(vp_live() == 0, "heap: every block is returned");
}

// ---- free lists.  The invariant: the list has count nodes, at most Limit, each a live block of the parent of
// full size that nobody uses.  The first node is explicit, the rest of the list an unknown object.
constexpr size_t SZ = 40, FULL = SZ + sizeof(immer::free_list_node);
struct list_state
{
    immer::free_list_node *first, *rest;
    u64 count;
};
template <typename Head>
static list_state any_list(Head& h, u64 limit)
{
    list_state s{};
    s.count    = vp_u64("nodes in the list");
    vp_assume(s.count <= limit);
    if (s.count == 0) {
        h.data  = nullptr;
        h.count = 0;
        return s;
    }
    s.first = (immer::free_list_node*) P0::allocate(FULL);
    if (s.count == 1)
        s.rest = nullptr;
    else {
        s.rest = (immer::free_list_node*) P0::allocate(FULL);
        vp_opaque(s.rest, FULL);
    }
    s.first->next = s.rest;
    h.data        = s.first;
    h.count       = s.count;
    return s;
}
template <typename H, typename Head>
static void fl_allocate(Head& h, u64 limit, bool throwing)
{
    auto s      = any_list(h, limit);
    u64 in      = g_in[0];
    size_t n    = any_size(sizeof(immer::free_list_node), FULL);
    g_may_throw = throwing;
    try {
        auto p      = H::allocate(n);
        g_may_throw = false;
        usable(p, n);
        if (s.count == 0) {
            vp_assert(g_in[0] == in + 1, "heap: an empty list takes one block of the parent");
            vp_assert(vp_object_size(p) == FULL, "heap: a block that may enter the list has the full size");
            vp_assert(h.data == nullptr && h.count == 0, "heap: the list stays empty");
        } else {
            vp_assert(p == s.first && g_in[0] == in, "heap: a list with nodes hands out one of them");
            vp_assert(h.data == s.rest, "heap: a node handed out leaves the list");
            vp_assert(h.count == s.count - 1, "heap: the count of the list is its length");
        }
    } catch (vp_boom&) {
        vp_assert(s.count == 0 && h.data == nullptr && h.count == 0, "heap: a failed allocation changes nothing");
        vp_cover("throws");
    }
    vp_assert(g_out[0] == 0, "heap: allocating gives nothing back");
}
template <typename H, typename Head>
static void fl_deallocate(Head& h, u64 limit)
{
    auto s   = any_list(h, limit);
    size_t n = any_size(sizeof(immer::free_list_node), FULL);
    auto p   = P0::allocate(FULL); // as handed out before
    H::deallocate(n, p);
    if (s.count >= limit) {
        vp_assert(!vp_is_alive(p) && g_out[0] == 1, "heap: a full list returns the block to the parent");
        vp_assert(h.data == s.first && h.count == s.count, "heap: a full list keeps its nodes");
    } else {
        vp_assert(vp_is_alive(p) && g_out[0] == 0, "heap: a list with room keeps the block");
        vp_assert(h.data == p && ((immer::free_list_node*) p)->next == s.first, "heap: the block enters the list");
        vp_assert(h.count == s.count + 1, "heap: the count of the list is its length");
    }
    vp_assert(h.count <= limit, "heap: a list never keeps more than its limit");
    if (s.first)
        vp_assert(vp_is_alive(s.first), "heap: nodes in the list stay");
}
constexpr u64 LIMIT = 1000;
using unsafe_fl = immer::unsafe_free_list_heap<SZ, LIMIT, P0>;
using unsafe_im = immer::detail::unsafe_free_list_heap_impl<immer::detail::unsafe_free_list_storage, SZ, LIMIT, P0>;
using tl_fl     = immer::thread_local_free_list_heap<SZ, LIMIT, P0>;
using tl_im     = immer::detail::unsafe_free_list_heap_impl<immer::detail::thread_local_free_list_storage, SZ, LIMIT, P0>;
using atomic_fl = immer::free_list_heap<SZ, LIMIT, P0>;
VP_HARNESS(unsafe_allocate) { fl_allocate<unsafe_fl>(unsafe_im::storage::head(), LIMIT, false); }
VP_HARNESS(unsafe_allocate_throw) { fl_allocate<unsafe_fl>(unsafe_im::storage::head(), LIMIT, true); }
VP_HARNESS(unsafe_deallocate) { fl_deallocate<unsafe_fl>(unsafe_im::storage::head(), LIMIT); }
VP_HARNESS(thread_allocate) { fl_allocate<tl_fl>(tl_im::storage::head(), LIMIT, false); }
VP_HARNESS(thread_allocate_throw) { fl_allocate<tl_fl>(tl_im::storage::head(), LIMIT, true); }
VP_HARNESS(thread_deallocate) { fl_deallocate<tl_fl>(tl_im::storage::head(), LIMIT); }
VP_HARNESS(atomic_allocate) { fl_allocate<atomic_fl>(atomic_fl::head(), LIMIT, false); }
VP_HARNESS(atomic_allocate_throw) { fl_allocate<atomic_fl>(atomic_fl::head(), LIMIT, true); }
VP_HARNESS(atomic_deallocate) { fl_deallocate<atomic_fl>(atomic_fl::head(), LIMIT); }
// bounded: clear on lists of at most 4 nodes
template <typename H, typename Head>
static void fl_clear(Head& h)
{
    unsigned n = vp_case(5, "nodes");
    h.data     = nullptr;
    for (unsigned i = 0; i < n; ++i) {
        auto p  = (immer::free_list_node*) P0::allocate(FULL);
        p->next = h.data;
        h.data  = p;
    }
    h.count = n;
    H::clear();
    vp_assert(h.data == nullptr && h.count == 0, "heap: clearing empties the list");
    vp_assert(g_out[0] == n && vp_live() == 0, "heap: clearing returns every node to the parent");
}
VP_HARNESS(unsafe_clear) { fl_clear<unsafe_im>(unsafe_im::storage::head()); }
VP_HARNESS(thread_clear) { fl_clear<tl_im>(tl_im::storage::head()); }
VP_HARNESS(thread_exit)
{
    auto& h    = tl_im::storage::head();
    auto p     = (immer::free_list_node*) P0::allocate(FULL);
    p->next    = nullptr;
    h.data     = p;
    h.count    = 1;
    using head_t = std::remove_reference_t<decltype(h)>;
    h.~head_t();
    vp_assert(vp_live() == 0, "heap: what a thread keeps is returned when it ends");
}

// ---- the shipped compositions, bounded: four operations on up to three blocks of any sizes
template <typename H, size_t Small>
static void history()
{
    void* p[3];
    size_t n[3];
    bool in[3] = {};
    for (int step = 0; step < 4; ++step) {
        unsigned i = vp_case(3, "block");
        if (!in[i]) {
            n[i]  = any_size(1, Small + 50);
            p[i]  = H::allocate(n[i]);
            in[i] = true;
            usable(p[i], n[i]);
            for (int j = 0; j < 3; ++j)
                if (j != (int) i && in[j])
                    vp_assert(!vp_same_object(p[i], p[j]), "heap: blocks in use are disjoint");
            *(char*) p[i] = (char) (i + 1);
        } else {
            vp_assert(*(char*) p[i] == (char) (i + 1), "heap: the contents are the user's until given back");
            H::deallocate(n[i], p[i]);
            in[i] = false;
        }
    }
    for (int j = 0; j < 3; ++j)
        if (in[j]) {
            vp_assert(vp_is_alive(p[j]), "heap: a block handed out is live");
            vp_assert(*(char*) p[j] == (char) (j + 1), "heap: the contents are the user's until given back");
        }
}
VP_HARNESS(policy_plain) { history<immer::heap_policy<P0>::optimized<32>::type, 32>(); }
VP_HARNESS(policy_free_list) { history<immer::free_list_heap_policy<P0, 1>::optimized<32>::type, 32>(); }
VP_HARNESS(policy_unsafe_free_list) { history<immer::unsafe_free_list_heap_policy<P0, 1>::optimized<32>::type, 32>(); }
VP_HARNESS(policy_free_list_base) { history<immer::free_list_heap_policy<P0, 1>::type, 32>(); }

struct obj : immer::enable_optimized_heap_policy<obj, immer::unsafe_free_list_heap_policy<P0, 1>>
{
    u64 a[3];
};
VP_HARNESS(optimized_new)
{
    auto p = new obj;
    usable(p, sizeof(obj));
    auto q = new obj;
    vp_assert(!vp_same_object(p, q), "heap: blocks in use are disjoint");
    delete p;
    delete q;
    vp_assert(vp_live() == 1, "heap: what the list does not keep is returned");
    auto r = new obj;
    usable(r, sizeof(obj));
    vp_assert(vp_live() == 1, "heap: a list with nodes hands out one of them");
}
