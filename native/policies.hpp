#pragma once
#include "nat.hpp"
#include <immer/heap/heap_policy.hpp>
#include <immer/lock/no_lock_policy.hpp>
#include <immer/lock/spinlock_policy.hpp>
#include <immer/memory_policy.hpp>
#include <immer/refcount/no_refcount_policy.hpp>
#include <immer/refcount/refcount_policy.hpp>
#include <immer/refcount/unsafe_refcount_policy.hpp>
#include <immer/transience/gc_transience_policy.hpp>
#include <immer/transience/no_transience_policy.hpp>
#ifndef NAT_POL
#define NAT_POL 0
#endif
#define NAT_MERGE_FAULTS (NAT_POL != 2)
#if NAT_POL == 0
using MP = immer::memory_policy<immer::heap_policy<nat::chk_heap>, immer::refcount_policy, immer::default_lock_policy,
                                immer::no_transience_policy, false, true>;
constexpr bool counted_blocks = true, counted_elems = true;
#elif NAT_POL == 1
using MP = immer::memory_policy<immer::heap_policy<nat::chk_heap>, immer::unsafe_refcount_policy,
                                immer::no_lock_policy, immer::no_transience_policy, true, true>;
constexpr bool counted_blocks = true, counted_elems = true;
#elif NAT_POL == 2
using MP = immer::memory_policy<immer::heap_policy<nat::leak_heap>, immer::no_refcount_policy,
                                immer::default_lock_policy, immer::gc_transience_policy, false, false>;
constexpr bool counted_blocks = false, counted_elems = false;
#elif NAT_POL == 3
using MP = immer::default_memory_policy;
constexpr bool counted_blocks = false, counted_elems = true;
#endif
