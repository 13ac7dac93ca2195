From 9a031195201aba6b496b48f21c10e85d2d8cd966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 01/12] fix: compare the whole tree in rrbtree::equals when the
 trees differ in depth or one is all tail

---
 immer/detail/rbts/rrbtree.hpp | 40 +++++++++++++----------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 843921b..4a4b8cf 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -289,33 +289,23 @@ struct rrbtree
             return true;
         auto tail_off       = tail_offset();
         auto tail_off_other = other.tail_offset();
+        // everything before the tail of `this` has to be in the tree that the
+        // other one is compared against, so the shallower tree comes first...
+        if (tail_off > 0 && (tail_off_other == 0 || other.shift < shift))
+            return other.equals(*this);
         // compare trees
-        if (tail_off > 0 && tail_off_other > 0) {
-            // other.shift != shift is a theoretical possibility for
-            // relaxed trees that sadly we haven't managed to exercise
-            // in tests yet...
-            if (other.shift >= shift) {
-                if (!visit_maybe_relaxed_sub(other.root,
-                                             other.shift,
-                                             tail_off_other,
-                                             equals_visitor::rrb{},
-                                             iter_t{other},
-                                             root,
-                                             shift,
-                                             tail_off))
-                    return false;
-            } else {
-                if (!visit_maybe_relaxed_sub(root,
-                                             shift,
-                                             tail_off,
-                                             equals_visitor::rrb{},
-                                             iter_t{*this},
-                                             other.root,
-                                             other.shift,
-                                             tail_off_other))
-                    return false;
-            }
+        if (tail_off > 0) {
+            if (!visit_maybe_relaxed_sub(other.root,
+                                         other.shift,
+                                         tail_off_other,
+                                         equals_visitor::rrb{},
+                                         iter_t{other},
+                                         root,
+                                         shift,
+                                         tail_off))
+                return false;
         }
+        // compare tails
         return tail_off == tail_off_other
                    ? make_leaf_sub_pos(tail, tail_size())
                          .visit(equals_visitor{}, other.tail)
-- 
2.43.0


From ac1008c429a09da1a32bf014cf226913dfa7aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 02/12] fix: keep the tail of the left operand alive in
 concat_mut_lr_r

---
 immer/detail/rbts/rrbtree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 4a4b8cf..36a20b9 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -1194,6 +1194,7 @@ struct rrbtree
                 // are tagged with `er`
                 auto res =
                     l.push_tail(l.root, l.shift, tail_offst, l.tail, tail_size);
+                l.tail->inc(); // note: leak if mutably concatenated
                 r = {l.size + r.size, get<0>(res), get<1>(res), r.tail->inc()};
                 return;
             } else if (tail_size + r.size <= branches<BL>) {
-- 
2.43.0


From 06c4fcadb0c5937fc3e053358b47e57ca33e3c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 03/12] fix: descend below six levels in rrb trees with small
 nodes

---
 immer/config.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/immer/config.hpp b/immer/config.hpp
index af34e5f..9d93965 100644
--- a/immer/config.hpp
+++ b/immer/config.hpp
@@ -111,7 +111,9 @@
 // #define IMMER_PREFETCH(p)    __builtin_prefetch(p)
 #endif
 
-#define IMMER_DESCENT_DEEP 0
+// The unrolled descent stops at six levels, less than a tree with small nodes can
+// have.
+#define IMMER_DESCENT_DEEP 1
 
 #ifndef IMMER_ENABLE_DEBUG_SIZE_HEAP
 #ifdef NDEBUG
-- 
2.43.0


From f0c9895f4e6508f40d16c0d272f09f697a137b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 04/12] fix: destroy the elements added to the left tail when a
 mutable concat fails

---
 immer/detail/rbts/rrbtree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 36a20b9..305a932 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -817,7 +817,7 @@ struct rrbtree
                     }
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy_n(r.tail->leaf() + tail_size, remaining);
+                    detail::destroy_n(l.tail->leaf() + tail_size, remaining);
                     IMMER_RETHROW;
                 }
             }
@@ -1095,7 +1095,7 @@ struct rrbtree
                     }
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy_n(r.tail->leaf() + tail_size, remaining);
+                    detail::destroy_n(l.tail->leaf() + tail_size, remaining);
                     IMMER_RETHROW;
                 }
             }
-- 
2.43.0


From 784a3185e09d0ffaf535005ac3fbfde5231a3b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 05/12] fix: do not destroy the replaced element twice when
 copy_collision_replace fails

---
 immer/detail/hamts/node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/hamts/node.hpp b/immer/detail/hamts/node.hpp
index 1801984..d9cc256 100644
--- a/immer/detail/hamts/node.hpp
+++ b/immer/detail/hamts/node.hpp
@@ -503,7 +503,7 @@ struct node
                     detail::uninitialized_copy(pos + 1, srcp + n, dstp);
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy(dst->collisions(), dstp);
+                    detail::destroy(dst->collisions() + 1, dstp);
                     IMMER_RETHROW;
                 }
             }
-- 
2.43.0


From ac6038690b1fb1d918f97199f12431576632dbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:13 +0000
Subject: [PATCH 06/12] fix: keep the trie whole when a mutable erase throws

The node that held the erased element was destroyed before its parent had been
replaced, so an exception in between left a dangling child and lost the element
moved out of it.
---
 immer/detail/hamts/champ.hpp | 51 +++++++++---------------------------
 1 file changed, 13 insertions(+), 38 deletions(-)

diff --git a/immer/detail/hamts/champ.hpp b/immer/detail/hamts/champ.hpp
index 0e04d57..b4b6476 100644
--- a/immer/detail/hamts/champ.hpp
+++ b/immer/detail/hamts/champ.hpp
@@ -1314,13 +1314,6 @@ struct champ
         sub_result_mut()
             : kind{kind_t::nothing}
             , mutated{false} {};
-        sub_result_mut(T* x, bool m)
-            : kind{kind_t::singleton}
-            , owned{m}
-            , mutated{m}
-        {
-            data.singleton = x;
-        };
         sub_result_mut(T* x, bool o, bool m)
             : kind{kind_t::singleton}
             , owned{o}
@@ -1337,13 +1330,15 @@ struct champ
         };
     };
 
+    // A singleton that is returned stays where it is, in a node that its parent
+    // still holds: the parent releases it once it has been replaced, so nothing is
+    // lost if that throws.  It can be moved from when it is `owned`.
     template <typename K>
     sub_result_mut do_sub_mut(edit_t e,
                               node_t* node,
                               const K& k,
                               hash_t hash,
-                              shift_t shift,
-                              void* store) const
+                              shift_t shift) const
     {
         auto mutate = node->can_mutate(e);
         if (shift == max_shift<B>) {
@@ -1352,14 +1347,8 @@ struct champ
             for (auto cur = fst; cur != lst; ++cur) {
                 if (Equal{}(*cur, k)) {
                     if (node->collision_count() <= 2) {
-                        if (mutate) {
-                            auto r = new (store)
-                                T{std::move(node->collisions()[cur == fst])};
-                            node_t::delete_collision(node);
-                            return sub_result_mut{r, true};
-                        } else {
-                            return sub_result_mut{fst + (cur == fst), false};
-                        }
+                        return sub_result_mut{
+                            fst + (cur == fst), mutate, false};
                     } else {
                         auto r = mutate
                                      ? node_t::move_collision_remove(node, cur)
@@ -1377,7 +1366,7 @@ struct champ
                 auto children = node->children();
                 auto child    = children[offset];
                 auto result =
-                    mutate ? do_sub_mut(e, child, k, hash, shift + B, store)
+                    mutate ? do_sub_mut(e, child, k, hash, shift + B)
                            : do_sub(child, k, hash, shift + B);
                 switch (result.kind) {
                 case sub_result::nothing:
@@ -1385,12 +1374,7 @@ struct champ
                 case sub_result::singleton:
                     if (node->datamap() == 0 && node->children_count() == 1 &&
                         shift > 0) {
-                        if (mutate) {
-                            node_t::delete_inner(node);
-                            if (!result.mutated && child->dec())
-                                node_t::delete_deep_shift(child, shift + B);
-                        }
-                        return {result.data.singleton, result.owned, mutate};
+                        return {result.data.singleton, result.owned, false};
                     } else {
                         auto r =
                             mutate ? node_t::move_inner_replace_inline(
@@ -1406,9 +1390,7 @@ struct champ
                                          bit,
                                          offset,
                                          *result.data.singleton);
-                        if (result.owned)
-                            detail::destroy_at(result.data.singleton);
-                        if (!result.mutated && mutate && child->dec())
+                        if (mutate && child->dec())
                             node_t::delete_deep_shift(child, shift + B);
                         return {node_t::owned_values(r, e), mutate};
                     }
@@ -1445,14 +1427,8 @@ struct champ
                         return {node_t::owned_values_safe(r, e), mutate};
                     } else if (nv == 2) {
                         if (shift > 0) {
-                            if (mutate_values) {
-                                auto r = new (store)
-                                    T{std::move(node->values()[!offset])};
-                                node_t::delete_inner(node);
-                                return {r, true};
-                            } else {
-                                return {node->values() + !offset, false};
-                            }
+                            return {
+                                node->values() + !offset, mutate_values, false};
                         } else {
                             auto& v = node->values()[!offset];
                             auto r  = node_t::make_inner_n(
@@ -1479,9 +1455,8 @@ struct champ
     template <typename K>
     void sub_mut(edit_t e, const K& k)
     {
-        auto store = aligned_storage_for<T>{};
-        auto hash  = Hash{}(k);
-        auto res   = do_sub_mut(e, root, k, hash, 0, &store);
+        auto hash = Hash{}(k);
+        auto res  = do_sub_mut(e, root, k, hash, 0);
         switch (res.kind) {
         case sub_result::nothing:
             break;
-- 
2.43.0


From b10b8eaaaa7450caf7b39c0be419147e6c38242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 07/12] fix: destroy the elements dropped by array take on a
 mutable array

---
 immer/detail/arrays/with_capacity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index c80f706..0069147 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -302,7 +302,7 @@ struct with_capacity
     {
         assert(sz <= size);
         if (ptr->can_mutate(e)) {
-            detail::destroy_n(data() + size, size - sz);
+            detail::destroy_n(data() + sz, size - sz);
             size = sz;
         } else {
             auto cap = recommend_down(sz, capacity);
-- 
2.43.0


From 1d423c3279e3376c8ae5f30ceda1633347fb2f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 08/12] fix: keep blocks from the free list heap policies
 aligned for any type

---
 immer/heap/free_list_node.hpp | 14 +++++++++++++-
 immer/heap/heap_policy.hpp    | 11 +++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/immer/heap/free_list_node.hpp b/immer/heap/free_list_node.hpp
index acab477..f5300ad 100644
--- a/immer/heap/free_list_node.hpp
+++ b/immer/heap/free_list_node.hpp
@@ -10,6 +10,8 @@
 
 #include <immer/heap/with_data.hpp>
 
+#include <cstddef>
+
 namespace immer {
 
 struct free_list_node
@@ -17,8 +19,18 @@ struct free_list_node
     free_list_node* next;
 };
 
+// The node of a block that is in a free list, padded such that the data that
+// follows it keeps the alignment that the heap underneath gives.
+struct alignas(std::max_align_t) free_list_header
+{
+    free_list_node node;
+};
+
+constexpr auto free_list_padding =
+    sizeof(free_list_header) - sizeof(free_list_node);
+
 template <typename Base>
-struct with_free_list_node : with_data<free_list_node, Base>
+struct with_free_list_node : with_data<free_list_header, Base>
 {};
 
 } // namespace immer
diff --git a/immer/heap/heap_policy.hpp b/immer/heap/heap_policy.hpp
index 1a858c5..50f680e 100644
--- a/immer/heap/heap_policy.hpp
+++ b/immer/heap/heap_policy.hpp
@@ -109,9 +109,11 @@ struct free_list_heap_policy
         using type =
             split_heap<Size,
                        with_free_list_node<thread_local_free_list_heap<
-                           Size,
+                           Size + free_list_padding,
                            Limit,
-                           free_list_heap<Size, Limit, debug_size_heap<Heap>>>>,
+                           free_list_heap<Size + free_list_padding,
+                                          Limit,
+                                          debug_size_heap<Heap>>>>,
                        debug_size_heap<Heap>>;
     };
 };
@@ -131,8 +133,9 @@ struct unsafe_free_list_heap_policy
     {
         using type = split_heap<
             Size,
-            with_free_list_node<
-                unsafe_free_list_heap<Size, Limit, debug_size_heap<Heap>>>,
+            with_free_list_node<unsafe_free_list_heap<Size + free_list_padding,
+                                                      Limit,
+                                                      debug_size_heap<Heap>>>,
             debug_size_heap<Heap>>;
     };
 };
-- 
2.43.0


From 522498aa9e62b7291b761d0b11c0d3b0d5c5749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 09/12] fix: compute offsets in huge vectors with the width of
 the size

Slicing on the left a vector of more than 2^32 elements computed the size of
what is before a child of a regular node with 32 bits, and descended into the
wrong position.
---
 immer/detail/rbts/position.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/immer/detail/rbts/position.hpp b/immer/detail/rbts/position.hpp
index cbdd1c2..3fc600d 100644
--- a/immer/detail/rbts/position.hpp
+++ b/immer/detail/rbts/position.hpp
@@ -654,7 +654,7 @@ decltype(auto) towards_sub_oh_regular(
     assert(offset_hint == p.index(idx));
     auto is_leaf = p.shift() == BL;
     auto child   = p.node()->inner()[offset_hint];
-    auto lsize   = offset_hint << p.shift();
+    auto lsize   = size_t{offset_hint} << p.shift();
     auto size    = p.this_size();
     auto is_full = (size - lsize) >= (size_t{1} << p.shift());
     return is_full
@@ -870,7 +870,7 @@ struct regular_sub_pos
     void each_right_sub_(Visitor v, count_t i, Args&&... args)
     {
         auto last  = count() - 1;
-        auto lsize = size_ - (last << shift_);
+        auto lsize = size_ - (size_t{last} << shift_);
         auto n     = node()->inner() + i;
         auto e     = node()->inner() + last;
         if (shift() == BL) {
-- 
2.43.0


From 4dda94f19e8eb732a16e8e90b71fda2837f11dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 10/12] fix: keep transient vectors intact when making the
 sizes of a node mutable fails

push_tail_mut and slice_right_mut updated the child in place before they
allocated a table of sizes of their own, so an exception from that
allocation left a tree whose sizes do not match (or hit an assertion).
They also kept using the previous table after giving up their reference
to it.
---
 immer/detail/rbts/operations.hpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index d5ff679..61b7774 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -688,7 +688,17 @@ struct push_tail_mut_visitor
 
         if (new_idx >= branches<B>)
             return nullptr;
-        else if (idx == new_idx) {
+
+        if (mutate) {
+            // nothing must fail once the child has been updated in place, and
+            // the shared sizes might be gone once we do not refer to them
+            auto relaxed = node->ensure_mutable_relaxed(e);
+            if (relaxed != pos.relaxed())
+                return visit_relaxed(
+                    make_relaxed_pos(node, level, relaxed), e, tail, ts);
+        }
+
+        if (idx == new_idx) {
             new_child =
                 mutate ? pos.last_oh_csh(this_t{}, idx, children, e, tail, ts)
                        : pos.last_oh_csh(
@@ -921,6 +931,15 @@ struct slice_right_mut_visitor
             return res;
         } else {
             using std::get;
+            if (mutate) {
+                // nothing must fail once the child has been updated in place,
+                // and the shared sizes might be gone once we do not refer to
+                // them
+                auto relaxed = node->ensure_mutable_relaxed(e);
+                if (relaxed != pos.relaxed())
+                    return visit_relaxed(
+                        make_relaxed_pos(node, pos.shift(), relaxed), last, e);
+            }
             auto subs =
                 mutate ? pos.towards_oh(no_collapse_t{}, last, idx, e)
                        : pos.towards_oh(no_collapse_no_mut_t{}, last, idx, e);
@@ -1261,8 +1280,14 @@ struct slice_left_mut_visitor
             return r;
         } else {
             using std::get;
-            auto newn     = mutate ? (node->ensure_mutable_relaxed(e), node)
-                                   : node_t::make_inner_r_e(e);
+            if (mutate) {
+                // the shared sizes might be gone once we do not refer to them
+                auto relaxed = node->ensure_mutable_relaxed(e);
+                if (relaxed != pos.relaxed())
+                    return visit_relaxed(
+                        make_relaxed_pos(node, pos.shift(), relaxed), first, e);
+            }
+            auto newn           = mutate ? node : node_t::make_inner_r_e(e);
             auto newr     = newn->relaxed();
             auto newcount = count - idx;
             auto new_child_size = child_size - child_dropped_size;
-- 
2.43.0


From a713b69b8ff4dcba25bd9d9a4fd3fe3f98b228cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 11/12] fix: give back a table of sizes with the size it was
 allocated with

---
 immer/detail/rbts/node.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/immer/detail/rbts/node.hpp b/immer/detail/rbts/node.hpp
index 55a512b..fdf5211 100644
--- a/immer/detail/rbts/node.hpp
+++ b/immer/detail/rbts/node.hpp
@@ -880,8 +880,7 @@ struct node
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
                         if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
+                            heap::deallocate(node_t::max_sizeof_relaxed, src_r);
                     }
                     node_t::ownee(dst_r) = e;
                     return dst_r;
@@ -907,8 +906,7 @@ struct node
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
                         if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
+                            heap::deallocate(node_t::max_sizeof_relaxed, src_r);
                     }
                     node_t::ownee(dst_r) = ec;
                     return dst_r;
@@ -932,8 +930,7 @@ struct node
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
                         if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
+                            heap::deallocate(node_t::max_sizeof_relaxed, src_r);
                     }
                     dst_r->d.count                   = n;
                     node_t::ownee(dst_r)             = e;
-- 
2.43.0


From e66e44a71b78128de80d979637e65397b19f30b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:37 +0000
Subject: [PATCH 12/12] fix: a moved-from transient does not keep the identity
 that owns the moved nodes

---
 immer/flex_vector_transient.hpp           | 12 +++++++++---
 immer/transience/gc_transience_policy.hpp | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/immer/flex_vector_transient.hpp b/immer/flex_vector_transient.hpp
index 5c419ae..ea9d905 100644
--- a/immer/flex_vector_transient.hpp
+++ b/immer/flex_vector_transient.hpp
@@ -206,7 +206,8 @@ public:
     }
     void append(flex_vector_transient&& r)
     {
-        concat_mut_lr_l(impl_, *this, r.impl_, r);
+        auto r_owner = owner_t{std::move(static_cast<owner_t&>(r))};
+        concat_mut_lr_l(impl_, *this, r.impl_, r_owner);
     }
 
     /*!
@@ -221,7 +222,8 @@ public:
     }
     void prepend(flex_vector_transient&& l)
     {
-        concat_mut_lr_r(l.impl_, l, impl_, *this);
+        auto l_owner = owner_t{std::move(static_cast<owner_t&>(l))};
+        concat_mut_lr_r(l.impl_, l_owner, impl_, *this);
     }
 
     /*!
@@ -233,7 +235,11 @@ public:
         this->owner_t::operator=(owner_t{});
         return impl_;
     }
-    IMMER_NODISCARD persistent_type persistent() && { return std::move(impl_); }
+    IMMER_NODISCARD persistent_type persistent() &&
+    {
+        owner_t{std::move(static_cast<owner_t&>(*this))};
+        return std::move(impl_);
+    }
 
 private:
     friend persistent_type;
diff --git a/immer/transience/gc_transience_policy.hpp b/immer/transience/gc_transience_policy.hpp
index a569ed8..e67a728 100644
--- a/immer/transience/gc_transience_policy.hpp
+++ b/immer/transience/gc_transience_policy.hpp
@@ -57,7 +57,13 @@ struct gc_transience_policy
 
                 mutable std::atomic<void*> token_;
 
-                operator edit() { return {token_}; }
+                operator edit()
+                {
+                    // a moved-from owner gets a new identity when used again
+                    if (!token_.load())
+                        token_ = make_token_();
+                    return {token_};
+                }
 
                 owner()
                     : token_{make_token_()}
@@ -68,7 +74,7 @@ struct gc_transience_policy
                     o.token_ = make_token_();
                 }
                 owner(owner&& o) noexcept
-                    : token_{o.token_.load()}
+                    : token_{o.token_.exchange(nullptr)}
                 {}
                 owner& operator=(const owner& o)
                 {
@@ -78,7 +84,7 @@ struct gc_transience_policy
                 }
                 owner& operator=(owner&& o) noexcept
                 {
-                    token_ = o.token_.load();
+                    token_ = o.token_.exchange(nullptr);
                     return *this;
                 }
             };
-- 
2.43.0

