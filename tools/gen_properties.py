#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

RB = "immer/detail/rbts/"
HA = "immer/detail/hamts/"

p("C01", "vector operations denote operations on a mathematical sequence",
  "For every immer::vector value, whatever sequence of operations built it, size(), operator[], at(), front(), back(), push_back, set, update, take and the constructors agree with the same operation on the finite sequence the vector stands for, and at() throws std::out_of_range exactly for indices >= size().",
  ["inputs", "histories"], "every sequence, every length and tree height, every index, every construction history",
  "Tests push a few hundred or thousand elements and compare; index arithmetic depends on size, shift and leaf/branch bits, and heights or boundary sizes that are not sampled are never run.",
  ["immer/vector.hpp", RB+"rbtree.hpp", RB+"operations.hpp", RB+"position.hpp", RB+"node.hpp"],
  [("tail offset and push_tail", RB+"rbtree.hpp"), ("update_visitor / get_visitor", RB+"operations.hpp"), ("index arithmetic of positions", RB+"position.hpp")],
  [("size/shift/root/tail", "radix tree plus tail", RB+"rbtree.hpp")])

p("C02", "flex_vector slicing, concatenation, insert, erase denote sequence operations",
  "For every pair of flex_vector values, whatever mixture of operations built them, operator+, take, drop, insert, erase, push_front, push_back, set and update give exactly the sequence that the same operation gives on the sequences the operands stand for, for every valid position.",
  ["inputs", "histories"], "every pair of relaxed or regular trees, heights, node fill patterns and cut points",
  "Relaxed trees have unboundedly many shapes; tests concat a few hundred sizes from a handful of generators.",
  ["immer/flex_vector.hpp", RB+"rrbtree.hpp", RB+"operations.hpp", RB+"position.hpp", RB+"node.hpp"],
  [("concat_trees / concat_merger / concat_rebalance_plan", RB+"operations.hpp"), ("slice_left/right visitors", RB+"operations.hpp"), ("relaxed size tables", RB+"node.hpp")],
  [("relaxed sizes", "cumulative sizes of the children of an irregular node", RB+"node.hpp")])

p("C03", "vector and flex_vector mutable operations equal the persistent ones",
  "Every sequence of mutating operations on a vector_transient or flex_vector_transient, and every operation called on an rvalue vector or flex_vector, leaves exactly the contents that the corresponding persistent operations give, under every memory policy the library ships.",
  ["inputs", "histories", "configurations"], "every operation sequence, every ownership/sharing state of every node, reference-counted and garbage-collected policies",
  "In-place mutation depends on which nodes are uniquely owned at that moment; tests sample few sharing patterns.",
  ["immer/vector_transient.hpp", "immer/flex_vector_transient.hpp", RB+"rbtree.hpp", RB+"rrbtree.hpp", RB+"operations.hpp"],
  [("can_mutate / edit ownership", RB+"node.hpp"), ("*_mut_visitor", RB+"operations.hpp"), ("concat_*_mut", RB+"rrbtree.hpp")])

p("C04", "set operations denote mathematical set operations for every hash function",
  "For every immer::set value, every element and every hash and equality pair in which equal elements hash equally, insert, erase, count, find, size and empty agree with the mathematical set, including when arbitrarily many elements share a complete hash or any prefix of it.",
  ["inputs", "histories"], "every trie shape, hash value, collision pattern, depth and element",
  "Tests use integer hashes and one collision generator; deep tries and collisions at the maximum depth are barely reached, and a mistake in bitmap arithmetic at one branch is sampled only by luck.",
  ["immer/set.hpp", HA+"champ.hpp", HA+"node.hpp", HA+"bits.hpp"],
  [("do_add / do_sub / get", HA+"champ.hpp"), ("copy_inner_* / copy_collision_* / make_merged", HA+"node.hpp")],
  [("nodemap/datamap", "which slots hold a child or a value", HA+"node.hpp")])

p("C05", "map operations denote finite-map operations for every hash function",
  "For every immer::map value, set, insert, update, update_if_exists, erase, count, find, operator[], at and size agree with the finite map it stands for: the last value written for a key is the one read, no other key changes, update calls the function exactly once with the current (or default) value, and at throws exactly for absent keys.",
  ["inputs", "histories"], "every trie shape, hash value, collision pattern, depth, key and update function",
  "As for sets; additionally tests never vary the function's argument, the binding of other keys, or update at every node kind.",
  ["immer/map.hpp", HA+"champ.hpp", HA+"node.hpp"],
  [("do_update / do_update_if_exists / do_add / do_sub / get", HA+"champ.hpp")])

p("C06", "table operations denote a set of records keyed by their id",
  "For every immer::table value, insert, update, update_if_exists, erase, count, find, operator[], at and size behave as a finite map from each record's key to that record: inserting replaces the record with the same key and leaves every other record as it was.",
  ["inputs", "histories"], "every trie shape, key hash, collision pattern and record",
  "Tests use a handful of records and integer ids.",
  ["immer/table.hpp", HA+"champ.hpp", HA+"node.hpp"],
  [("table_key projection, combine_value", "immer/table.hpp"), ("do_update / do_add / do_sub", HA+"champ.hpp")])

p("C07", "set, map and table transients and rvalue operations equal the persistent ones",
  "Every sequence of mutating operations on a set_transient, map_transient or table_transient, and every operation called on an rvalue set, map or table, leaves exactly the contents and size that the corresponding persistent operations give, under every memory policy the library ships.",
  ["inputs", "histories", "configurations"], "every operation sequence and every sharing/ownership state of nodes and of their value arrays",
  "A trie node and its value array are shared and owned independently, giving combinations the tests do not enumerate.",
  ["immer/set_transient.hpp", "immer/map_transient.hpp", "immer/table_transient.hpp", HA+"champ.hpp", HA+"node.hpp"],
  [("do_add_mut / do_update_mut / do_sub_mut", HA+"champ.hpp"), ("ensure_mutable_values, move_inner_*", HA+"node.hpp")])

p("C08", "diff reports exactly the difference between two values",
  "For every pair of sets, maps or tables, diff calls added exactly once for each key only in the second, removed exactly once for each key only in the first, changed exactly once for each key in both whose values differ, and nothing else, passing the stored elements of the right side.",
  ["inputs", "histories"], "every pair of tries, shared or not, at every depth and collision pattern",
  "Tests diff pairs from one generator; the node-against-value and collision cases at depth are rarely produced.",
  ["immer/algorithm.hpp", HA+"champ.hpp"],
  [("champ::diff and helpers", HA+"champ.hpp")])

p("C09", "== holds exactly when two containers hold equal contents",
  "For every two values of the same container type, operator== is true if and only if they have the same contents (same elements in the same order for sequences, same elements or bindings for sets, maps and tables), however each was built and whatever they share; operator!= is its negation, and equality is symmetric.",
  ["inputs", "histories"], "every pair of values of every container, every pair of construction histories",
  "Equality takes shortcuts on node identity and on tree alignment; tests compare few pairs of differently-built values.",
  ["immer/vector.hpp", "immer/flex_vector.hpp", "immer/set.hpp", "immer/map.hpp", "immer/table.hpp", "immer/array.hpp", "immer/box.hpp", RB+"rrbtree.hpp", RB+"rbtree.hpp", RB+"operations.hpp", HA+"champ.hpp"],
  [("rrbtree::equals, equals_visitor", RB+"rrbtree.hpp"), ("champ::equals", HA+"champ.hpp")])

p("C10", "a value never changes through an operation on another handle",
  "No operation on any container, transient or rvalue, including one that throws, changes what any other live container value, transient or iterator observes: each keeps its size, contents and order for as long as it lives.",
  ["inputs", "histories"], "every operation, every set of values sharing structure, every history mixing persistent and transient use",
  "Persistence is a statement about all other values in existence; tests re-check only the immediate source and only sometimes.",
  ["immer/vector.hpp", "immer/flex_vector.hpp", "immer/set.hpp", "immer/map.hpp", "immer/table.hpp", "immer/array.hpp", RB+"operations.hpp", RB+"node.hpp", HA+"champ.hpp", HA+"node.hpp"],
  [("path copying", RB+"operations.hpp"), ("can_mutate", HA+"node.hpp"), ("transience policies", "immer/transience/gc_transience_policy.hpp")])

p("C11", "traversal visits exactly the contents, in order where there is one",
  "begin()..end(), reverse iteration, random-access iterator arithmetic and for_each_chunk (whole or over a range, with or without early exit) visit exactly the elements of the container: each index once and in order for sequences, each element once for sets, maps and tables, and iterator arithmetic obeys the random-access laws.",
  ["inputs", "histories"], "every container value, tree shape, range and iterator displacement",
  "Tests iterate a few shapes from the start; jumps across relaxed boundaries and sparse or deep tries are sampled thinly.",
  [RB+"rbtree_iterator.hpp", RB+"rrbtree_iterator.hpp", HA+"champ_iterator.hpp", RB+"operations.hpp", "immer/detail/iterator_facade.hpp"],
  [("champ_iterator::ensure_valid_", HA+"champ_iterator.hpp"), ("region_for / for_each_chunk_*_visitor", RB+"operations.hpp")])

p("C12", "elements and memory are released exactly once, when no longer referenced",
  "Under the reference-counting policies, in every history that ends with all handles destroyed, every element ever constructed is destroyed exactly once and every block allocated is returned exactly once with the size it was allocated with; before that, nothing reachable from a live handle is destroyed, and no read or write leaves a live block or touches an element that is not constructed.",
  ["inputs", "histories"], "every operation sequence and sharing pattern of every container",
  "Tests for leaks count a few dropped values; ownership has to balance on every branch of every operation.",
  [RB+"node.hpp", RB+"operations.hpp", RB+"rrbtree.hpp", HA+"node.hpp", HA+"champ.hpp", "immer/detail/arrays/no_capacity.hpp", "immer/detail/arrays/with_capacity.hpp", "immer/detail/util.hpp"],
  [("inc/dec and delete_*", HA+"node.hpp"), ("dec_visitor", RB+"operations.hpp")])

p("C13", "an operation that throws has no effect and leaks nothing",
  "If an element copy, move, assignment, an update function or an allocation throws during a persistent operation on any container, the exception reaches the caller, every existing value keeps its contents, and nothing is leaked or destroyed twice; a transient or rvalue operation that throws leaves its object destructible, every other value unchanged, and likewise leaks nothing.",
  ["inputs", "fault_sequences"], "every operation, every reachable shape, every single throw point",
  "Tests throw from copies in a loop at shallow shapes; allocation failure is not injected, and most handlers never run.",
  [RB+"node.hpp", RB+"operations.hpp", RB+"rrbtree.hpp", RB+"rbtree.hpp", HA+"node.hpp", HA+"champ.hpp", "immer/detail/util.hpp", "immer/detail/arrays/no_capacity.hpp"],
  [("IMMER_TRY/IMMER_CATCH handlers", HA+"node.hpp"), ("uninitialized_copy/move/fill", "immer/detail/util.hpp")])

p("C14", "array and array_transient denote sequences",
  "For every immer::array value and array_transient, push_back, set, update, take, operator[], at, size, iteration and the constructors agree with the sequence it stands for, whatever its length and spare capacity, and persistent operations leave the source as it was.",
  ["inputs", "histories"], "every length, capacity, index and sharing state",
  "Tests use fixed lengths and one growth pattern.",
  ["immer/array.hpp", "immer/array_transient.hpp", "immer/detail/arrays/no_capacity.hpp", "immer/detail/arrays/with_capacity.hpp", "immer/detail/arrays/node.hpp"],
  [("with_capacity::recommend_up, push_back_mut", "immer/detail/arrays/with_capacity.hpp"), ("node::copy_n", "immer/detail/arrays/node.hpp")])

p("C15", "box is an immutable value with sharing",
  "A box holds the value it was made with for as long as any copy of it lives; update on an lvalue gives a box with the function's result and leaves the original, update on an rvalue gives the same result without changing any other copy, and comparison of boxes agrees with comparison of the values held.",
  ["inputs", "histories"], "every value, every sharing state of the box, every update function",
  "Tests check a few ints and strings; the uniquely-owned and shared branches of rvalue update are barely sampled.",
  ["immer/box.hpp"],
  [("box::update overloads", "immer/box.hpp"), ("reference counting of holder", "immer/box.hpp")])

p("C16", "atom operations are atomic under every interference between critical sections",
  "Whatever other threads do between its steps, each atom load, store, exchange and update reads and writes the shared box only inside its critical section (or by one atomic step), releases the lock on every path, and takes effect at one point: load returns the value at that point, exchange the previous one, and update installs the function of the value it replaces and returns what it installed.",
  ["schedules", "inputs"], "every value other threads may leave at every acquisition of the lock or atomic step, every number of retries",
  "A test runs threads a few times and samples few schedules; lost updates need an interleaving between load and store.",
  ["immer/atom.hpp", "immer/lock/spinlock_policy.hpp", "immer/box.hpp"],
  [("refcount_atom_impl / gc_atom_impl", "immer/atom.hpp"), ("spinlock_policy", "immer/lock/spinlock_policy.hpp")])

p("C17", "reference counts tell exactly the last owner, under any interleaving",
  "For the thread-safe policy, each acquisition and each release of a reference is one indivisible step on the count, exactly the release that drops the last reference reports it, that report is ordered after every other owner's earlier accesses, and unique() holds only when the count is exactly one; the unsafe policy satisfies the same for one thread and the no-op policy never reports a last owner or uniqueness.",
  ["schedules", "inputs"], "every count value and every interleaving of any number of owners",
  "Tests call inc and dec a few times; a non-atomic or wrongly ordered step is not visible in a sampled run on one architecture.",
  ["immer/refcount/refcount_policy.hpp", "immer/refcount/unsafe_refcount_policy.hpp", "immer/refcount/no_refcount_policy.hpp", "immer/refcount/enable_intrusive_ptr.hpp"],
  [("refcount_policy::inc/dec/unique", "immer/refcount/refcount_policy.hpp")])

p("C18", "every heap hands out distinct, large-enough blocks and takes each back once",
  "For every heap and heap adaptor, in every sequential history of allocations and deallocations, a block handed out is at least the requested size, suitably aligned and disjoint from every block still in use, its contents are the user's until it is given back, and free lists never keep more than their limit and return everything else to the parent heap with the size they took it with.",
  ["histories", "inputs", "configurations"], "every sequential history and request size, every composition of adaptors",
  "Tests allocate and free one or two blocks per heap; free-list contents and limits depend on the whole history.",
  ["immer/heap/free_list_heap.hpp", "immer/heap/unsafe_free_list_heap.hpp", "immer/heap/thread_local_free_list_heap.hpp", "immer/heap/with_data.hpp", "immer/heap/split_heap.hpp", "immer/heap/debug_size_heap.hpp", "immer/heap/heap_policy.hpp", "immer/heap/malloc_heap.hpp", "immer/heap/cpp_heap.hpp"],
  [("free list push/pop", "immer/heap/unsafe_free_list_heap.hpp"), ("size routing", "immer/heap/split_heap.hpp")])

p("C19", "the algorithms agree with the elementwise ones over the container",
  "immer::accumulate, for_each, for_each_chunk, for_each_chunk_p, all_of, update, update_if_exists, diff and the container constructors from ranges agree with the corresponding standard algorithm over the container's elements in iteration order, for whole containers and for iterator ranges, and stop as soon as the predicate says so.",
  ["inputs"], "every container value, every range, every function and predicate outcome",
  "Tests run them on one container per type with one predicate.",
  ["immer/algorithm.hpp"],
  [("for_each_chunk and users", "immer/algorithm.hpp")])

p("C20", "every operation leaves a well-formed, balanced and canonical representation",
  "After every operation the container's internal tree is well formed: all leaves at one depth, sizes and size tables consistent, height logarithmic in size even after any mixture of concatenations and slices; a hash trie keeps each element on the path of its hash and every non-root subtree holds at least two elements, so that equal sets have equal shape, and element counts match size().",
  ["inputs", "histories"], "every operation, operand shape and history",
  "The deep check exists only as a debug option and runs on the few shapes tests produce; degeneration shows up only in long histories.",
  [RB+"rrbtree.hpp", RB+"operations.hpp", RB+"node.hpp", HA+"champ.hpp", HA+"node.hpp"],
  [("check_tree", RB+"rrbtree.hpp"), ("check_champ", HA+"champ.hpp"), ("concat_rebalance_plan", RB+"operations.hpp")])

p("C21", "an operation copies only one path and shares the rest",
  "A single-element persistent operation on a vector, set, map or table allocates at most a fixed number of blocks per tree level and shares every untouched subtree with its source, and an operation that changes nothing (erasing an absent key, updating an absent key if it exists, taking the whole of a sequence) shares the whole value.",
  ["inputs", "histories"], "every shape, depth and position",
  "Tests check identity in a few no-op cases and never count what an operation copies.",
  [RB+"operations.hpp", RB+"node.hpp", HA+"champ.hpp", HA+"node.hpp"],
  [("copy_inner_replace and siblings", HA+"node.hpp"), ("update_visitor, push_tail_visitor", RB+"operations.hpp")])

p("C22", "concurrent use of separate handles to shared structure is free of data races",
  "Any number of threads may read, copy, update and drop their own handles to values that share structure, and use the default heaps concurrently, without a data race, and every thread sees its own values as in a sequential run.",
  ["schedules"], "every interleaving of any number of threads",
  "No test explores schedules; a race in reference counting or in the lock-free free list needs particular interleavings.",
  ["immer/heap/free_list_heap.hpp", "immer/refcount/refcount_policy.hpp", RB+"operations.hpp", HA+"champ.hpp"],
  [("lock-free free list", "immer/heap/free_list_heap.hpp"), ("reference counts", "immer/refcount/refcount_policy.hpp")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
