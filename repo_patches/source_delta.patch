From f19595e1dd012e51ad1775c9c933c03bb2e1835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 01/14] fix: array take in place destroyed elements past the
 end instead of the dropped ones

---
 immer/detail/arrays/with_capacity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index c80f706..0069147 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -302,7 +302,7 @@ struct with_capacity
     {
         assert(sz <= size);
         if (ptr->can_mutate(e)) {
-            detail::destroy_n(data() + size, size - sz);
+            detail::destroy_n(data() + sz, size - sz);
             size = sz;
         } else {
             auto cap = recommend_down(sz, capacity);
-- 
2.43.0


From 2bfaa870fa1db4285372706d16d0e4436bb836c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 02/14] fix: replacing in a collision node destroyed the first
 element twice when a copy throws

---
 immer/detail/hamts/node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/hamts/node.hpp b/immer/detail/hamts/node.hpp
index 1801984..d9cc256 100644
--- a/immer/detail/hamts/node.hpp
+++ b/immer/detail/hamts/node.hpp
@@ -503,7 +503,7 @@ struct node
                     detail::uninitialized_copy(pos + 1, srcp + n, dstp);
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy(dst->collisions(), dstp);
+                    detail::destroy(dst->collisions() + 1, dstp);
                     IMMER_RETHROW;
                 }
             }
-- 
2.43.0


From 37bd971b1a1e81a19bce1e95f07f3ebf2c8abb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 03/14] fix: copying a moved-from box dereferenced a null
 pointer

---
 immer/box.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/immer/box.hpp b/immer/box.hpp
index ddf0363..26b92d1 100644
--- a/immer/box.hpp
+++ b/immer/box.hpp
@@ -99,7 +99,8 @@ public:
     box(const box& other)
         : impl_(other.impl_)
     {
-        impl_->inc();
+        if (impl_)
+            impl_->inc();
     }
     box& operator=(box&& other)
     {
-- 
2.43.0


From 3236edc106b24a6532c341da03001e11e720a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 04/14] fix: failed transient append destroyed elements of the
 right operand instead of the appended copies

---
 immer/detail/rbts/rrbtree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 843921b..c830775 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -827,7 +827,7 @@ struct rrbtree
                     }
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy_n(r.tail->leaf() + tail_size, remaining);
+                    detail::destroy_n(l.tail->leaf() + tail_size, remaining);
                     IMMER_RETHROW;
                 }
             }
@@ -1105,7 +1105,7 @@ struct rrbtree
                     }
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy_n(r.tail->leaf() + tail_size, remaining);
+                    detail::destroy_n(l.tail->leaf() + tail_size, remaining);
                     IMMER_RETHROW;
                 }
             }
-- 
2.43.0


From 03890a570aa87b1e26a4821fca702affcb8c7dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 05/14] fix: shared relaxed size table released with the size
 of an inner node

---
 immer/detail/rbts/node.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/immer/detail/rbts/node.hpp b/immer/detail/rbts/node.hpp
index 55a512b..08d13f3 100644
--- a/immer/detail/rbts/node.hpp
+++ b/immer/detail/rbts/node.hpp
@@ -880,8 +880,11 @@ struct node
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
                         if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
+                            heap::deallocate(
+                                node_t::ownee(src_r).owned()
+                                    ? node_t::max_sizeof_relaxed
+                                    : node_t::sizeof_relaxed_n(src_r->d.count),
+                                src_r);
                     }
                     node_t::ownee(dst_r) = e;
                     return dst_r;
@@ -907,8 +910,11 @@ struct node
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
                         if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
+                            heap::deallocate(
+                                node_t::ownee(src_r).owned()
+                                    ? node_t::max_sizeof_relaxed
+                                    : node_t::sizeof_relaxed_n(src_r->d.count),
+                                src_r);
                     }
                     node_t::ownee(dst_r) = ec;
                     return dst_r;
@@ -932,8 +938,11 @@ struct node
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
                         if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
+                            heap::deallocate(
+                                node_t::ownee(src_r).owned()
+                                    ? node_t::max_sizeof_relaxed
+                                    : node_t::sizeof_relaxed_n(src_r->d.count),
+                                src_r);
                     }
                     dst_r->d.count                   = n;
                     node_t::ownee(dst_r)             = e;
-- 
2.43.0


From e0fc3347c289e8bcf17d718a10376cc75a589aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 06/14] fix: set_transient.hpp did not declare the set it
 converts to

---
 immer/set_transient.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/immer/set_transient.hpp b/immer/set_transient.hpp
index 0eb5914..deea9ad 100644
--- a/immer/set_transient.hpp
+++ b/immer/set_transient.hpp
@@ -15,6 +15,13 @@
 
 namespace immer {
 
+template <typename T,
+          typename Hash,
+          typename Equal,
+          typename MemoryPolicy,
+          detail::hamts::bits_t B>
+class set;
+
 /*!
  * Mutable version of `immer::set`.
  *
-- 
2.43.0


From d5e5a2f60ed99d8811dba02a0b2414eea887bb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 07/14] fix: erasing in place left a dangling child behind when
 the collapsing node could not be rebuilt

---
 immer/detail/hamts/champ.hpp | 44 +++++++++++-------------------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/immer/detail/hamts/champ.hpp b/immer/detail/hamts/champ.hpp
index 0e04d57..ab9b014 100644
--- a/immer/detail/hamts/champ.hpp
+++ b/immer/detail/hamts/champ.hpp
@@ -1342,8 +1342,7 @@ struct champ
                               node_t* node,
                               const K& k,
                               hash_t hash,
-                              shift_t shift,
-                              void* store) const
+                              shift_t shift) const
     {
         auto mutate = node->can_mutate(e);
         if (shift == max_shift<B>) {
@@ -1352,14 +1351,10 @@ struct champ
             for (auto cur = fst; cur != lst; ++cur) {
                 if (Equal{}(*cur, k)) {
                     if (node->collision_count() <= 2) {
-                        if (mutate) {
-                            auto r = new (store)
-                                T{std::move(node->collisions()[cur == fst])};
-                            node_t::delete_collision(node);
-                            return sub_result_mut{r, true};
-                        } else {
-                            return sub_result_mut{fst + (cur == fst), false};
-                        }
+                        // the caller releases this node once it has taken
+                        // the remaining value out of it
+                        return sub_result_mut{
+                            fst + (cur == fst), mutate, false};
                     } else {
                         auto r = mutate
                                      ? node_t::move_collision_remove(node, cur)
@@ -1377,7 +1372,7 @@ struct champ
                 auto children = node->children();
                 auto child    = children[offset];
                 auto result =
-                    mutate ? do_sub_mut(e, child, k, hash, shift + B, store)
+                    mutate ? do_sub_mut(e, child, k, hash, shift + B)
                            : do_sub(child, k, hash, shift + B);
                 switch (result.kind) {
                 case sub_result::nothing:
@@ -1385,12 +1380,7 @@ struct champ
                 case sub_result::singleton:
                     if (node->datamap() == 0 && node->children_count() == 1 &&
                         shift > 0) {
-                        if (mutate) {
-                            node_t::delete_inner(node);
-                            if (!result.mutated && child->dec())
-                                node_t::delete_deep_shift(child, shift + B);
-                        }
-                        return {result.data.singleton, result.owned, mutate};
+                        return {result.data.singleton, result.owned, false};
                     } else {
                         auto r =
                             mutate ? node_t::move_inner_replace_inline(
@@ -1406,9 +1396,7 @@ struct champ
                                          bit,
                                          offset,
                                          *result.data.singleton);
-                        if (result.owned)
-                            detail::destroy_at(result.data.singleton);
-                        if (!result.mutated && mutate && child->dec())
+                        if (mutate && child->dec())
                             node_t::delete_deep_shift(child, shift + B);
                         return {node_t::owned_values(r, e), mutate};
                     }
@@ -1445,14 +1433,9 @@ struct champ
                         return {node_t::owned_values_safe(r, e), mutate};
                     } else if (nv == 2) {
                         if (shift > 0) {
-                            if (mutate_values) {
-                                auto r = new (store)
-                                    T{std::move(node->values()[!offset])};
-                                node_t::delete_inner(node);
-                                return {r, true};
-                            } else {
-                                return {node->values() + !offset, false};
-                            }
+                            return {node->values() + !offset,
+                                    mutate_values,
+                                    false};
                         } else {
                             auto& v = node->values()[!offset];
                             auto r  = node_t::make_inner_n(
@@ -1479,9 +1462,8 @@ struct champ
     template <typename K>
     void sub_mut(edit_t e, const K& k)
     {
-        auto store = aligned_storage_for<T>{};
-        auto hash  = Hash{}(k);
-        auto res   = do_sub_mut(e, root, k, hash, 0, &store);
+        auto hash = Hash{}(k);
+        auto res  = do_sub_mut(e, root, k, hash, 0);
         switch (res.kind) {
         case sub_result::nothing:
             break;
-- 
2.43.0


From ffd37d82b0d75f5b2e758e3ff65cfb6360c4e6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 08/14] fix: leave an array transient empty when its contents
 are moved out by persistent()

persistent() && copied the implementation, so that the moved-from transient
kept both the storage of the returned array and, with token based transience,
the token that allows editing it in place.
---
 immer/array_transient.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/array_transient.hpp b/immer/array_transient.hpp
index 08000b2..76c00f2 100644
--- a/immer/array_transient.hpp
+++ b/immer/array_transient.hpp
@@ -188,7 +188,7 @@ public:
     }
     IMMER_NODISCARD persistent_type persistent() &&
     {
-        return persistent_type{std::move(impl_)};
+        return persistent_type{impl_t{std::move(impl_)}};
     }
 
 private:
-- 
2.43.0


From 7bb9f57375177ddbe86dd3e3c0d17fd7dbd77c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 09/14] fix: keep blocks of the free list heaps aligned for any
 type

The default heap puts a free_list_node in front of every block, which moved
the block off the alignment that the underlying heap guarantees, so that
elements with stricter alignment than a pointer were misaligned.
---
 immer/heap/free_list_node.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/immer/heap/free_list_node.hpp b/immer/heap/free_list_node.hpp
index acab477..dda173e 100644
--- a/immer/heap/free_list_node.hpp
+++ b/immer/heap/free_list_node.hpp
@@ -10,9 +10,12 @@
 
 #include <immer/heap/with_data.hpp>
 
+#include <cstddef>
+
 namespace immer {
 
-struct free_list_node
+// Aligned such that what follows it in a block is aligned for any type.
+struct alignas(std::max_align_t) free_list_node
 {
     free_list_node* next;
 };
-- 
2.43.0


From dc8eae8419d69716480ffe35ab45b034caa4a3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 10/14] fix: take blocks from the shared free list without the
 ABA problem

Between reading the successor of the first node and exchanging the head for
it, another thread could take that node and put it back with a different
successor. The stale one then became the head: a block in use by a thread
was handed out again.
---
 immer/heap/free_list_heap.hpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/immer/heap/free_list_heap.hpp b/immer/heap/free_list_heap.hpp
index 15ae01d..d41bee8 100644
--- a/immer/heap/free_list_heap.hpp
+++ b/immer/heap/free_list_heap.hpp
@@ -36,14 +36,16 @@ struct free_list_heap : Base
         assert(size <= sizeof(free_list_node) + Size);
         assert(size >= sizeof(free_list_node));
 
-        free_list_node* n;
-        do {
-            n = head().data;
-            if (!n) {
-                auto p = base_t::allocate(Size + sizeof(free_list_node));
-                return static_cast<free_list_node*>(p);
-            }
-        } while (!head().data.compare_exchange_weak(n, n->next));
+        // Take the whole list, since no other thread can reuse a node that is
+        // ours alone; reading the successor of a node that is still on the
+        // list and then exchanging the head would suffer from the ABA problem.
+        auto n = head().data.exchange(nullptr);
+        if (!n) {
+            auto p = base_t::allocate(Size + sizeof(free_list_node));
+            return static_cast<free_list_node*>(p);
+        }
+        if (n->next)
+            put_back(n->next);
         head().count.fetch_sub(1u, std::memory_order_relaxed);
         return n;
     }
@@ -68,6 +70,19 @@ struct free_list_heap : Base
     }
 
 private:
+    static void put_back(free_list_node* first)
+    {
+        free_list_node* none = nullptr;
+        if (head().data.compare_exchange_strong(none, first))
+            return;
+        auto last = first;
+        while (last->next)
+            last = last->next;
+        do {
+            last->next = head().data;
+        } while (!head().data.compare_exchange_weak(last->next, first));
+    }
+
     struct head_t
     {
         std::atomic<free_list_node*> data;
-- 
2.43.0


From e814c35451b3c1331245067a1b8c8e5d08349e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 11/14] fix: allow the free lists' small blocks that were
 allowed before aligning them

Their blocks are always large enough for a free_list_node.
---
 immer/heap/free_list_heap.hpp        | 4 ++--
 immer/heap/unsafe_free_list_heap.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/immer/heap/free_list_heap.hpp b/immer/heap/free_list_heap.hpp
index d41bee8..a954c9f 100644
--- a/immer/heap/free_list_heap.hpp
+++ b/immer/heap/free_list_heap.hpp
@@ -34,7 +34,7 @@ struct free_list_heap : Base
     static void* allocate(std::size_t size, Tags...)
     {
         assert(size <= sizeof(free_list_node) + Size);
-        assert(size >= sizeof(free_list_node));
+        assert(size >= sizeof(free_list_node*));
 
         // Take the whole list, since no other thread can reuse a node that is
         // ours alone; reading the successor of a node that is still on the
@@ -54,7 +54,7 @@ struct free_list_heap : Base
     static void deallocate(std::size_t size, void* data, Tags...)
     {
         assert(size <= sizeof(free_list_node) + Size);
-        assert(size >= sizeof(free_list_node));
+        assert(size >= sizeof(free_list_node*));
 
         // we use relaxed, because we are fine with temporarily having
         // a few more/less buffers in free list
diff --git a/immer/heap/unsafe_free_list_heap.hpp b/immer/heap/unsafe_free_list_heap.hpp
index 9b41dfc..6315e16 100644
--- a/immer/heap/unsafe_free_list_heap.hpp
+++ b/immer/heap/unsafe_free_list_heap.hpp
@@ -48,7 +48,7 @@ public:
     static void* allocate(std::size_t size, Tags...)
     {
         assert(size <= sizeof(free_list_node) + Size);
-        assert(size >= sizeof(free_list_node));
+        assert(size >= sizeof(free_list_node*));
 
         auto n = storage::head().data;
         if (!n) {
@@ -64,7 +64,7 @@ public:
     static void deallocate(std::size_t size, void* data, Tags...)
     {
         assert(size <= sizeof(free_list_node) + Size);
-        assert(size >= sizeof(free_list_node));
+        assert(size >= sizeof(free_list_node*));
 
         if (storage::head().count >= Limit)
             base_t::deallocate(Size + sizeof(free_list_node), data);
-- 
2.43.0


From 05a4025c469b2d78bf897a36ef90ece6506b7219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 12/14] fix: flex_vector::erase(pos, lpos) && compiles with
 policies without transient rvalues

---
 immer/flex_vector.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/immer/flex_vector.hpp b/immer/flex_vector.hpp
index f970db9..d7cfb0f 100644
--- a/immer/flex_vector.hpp
+++ b/immer/flex_vector.hpp
@@ -488,11 +488,14 @@ public:
     }
     IMMER_NODISCARD decltype(auto) erase(size_type pos, size_type lpos) &&
     {
+        using result_t =
+            decltype(std::move(*this).take(pos) + std::declval<flex_vector>());
         if (lpos > pos) {
             auto rs = drop(lpos);
-            return std::move(*this).take(pos) + std::move(rs);
+            return static_cast<result_t>(std::move(*this).take(pos) +
+                                         std::move(rs));
         } else {
-            return std::move(*this);
+            return static_cast<result_t>(std::move(*this));
         }
     }
 
-- 
2.43.0


From 7952c9b709d034aa7616e2a9eb0854289d32cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 13/14] fix: array take with more elements than there are, as
 documented

---
 immer/detail/arrays/no_capacity.hpp   | 2 ++
 immer/detail/arrays/with_capacity.hpp | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/immer/detail/arrays/no_capacity.hpp b/immer/detail/arrays/no_capacity.hpp
index a24f6da..b4af772 100644
--- a/immer/detail/arrays/no_capacity.hpp
+++ b/immer/detail/arrays/no_capacity.hpp
@@ -201,6 +201,8 @@ struct no_capacity
 
     no_capacity take(std::size_t sz) const
     {
+        if (sz > size)
+            sz = size;
         auto p = node_t::copy_n(sz, ptr, sz);
         return {p, sz};
     }
diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index 0069147..b67436f 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -292,7 +292,8 @@ struct with_capacity
 
     with_capacity take(std::size_t sz) const
     {
-        assert(sz <= size);
+        if (sz > size)
+            sz = size;
         auto cap = recommend_down(sz, capacity);
         auto p   = node_t::copy_n(cap, ptr, sz);
         return {p, sz, cap};
@@ -300,7 +301,8 @@ struct with_capacity
 
     void take_mut(edit_t e, std::size_t sz)
     {
-        assert(sz <= size);
+        if (sz > size)
+            sz = size;
         if (ptr->can_mutate(e)) {
             detail::destroy_n(data() + sz, size - sz);
             size = sz;
-- 
2.43.0


From e2491c39234c1a7ad8e7de1e6a00e3f67eab26df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:31 +0000
Subject: [PATCH 14/14] fix: pushing a tail into a relaxed node could release
 it twice when an allocation fails

push_tail_mut_visitor::visit_relaxed placed the tail in the child before it made
the node's sizes mutable, which allocates when they are shared with another
node. If that failed, the tail stayed both in the child and in the vector. It
also read the sizes through the position after letting go of them.
---
 immer/detail/rbts/operations.hpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index d5ff679..0423e67 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -688,10 +688,18 @@ struct push_tail_mut_visitor
 
         if (new_idx >= branches<B>)
             return nullptr;
-        else if (idx == new_idx) {
+
+        // This can throw, and it can release the sizes that `pos` refers to, so
+        // it is done before anything is changed and `pos` is not used afterwards
+        auto size     = pos.size();
+        auto relaxed_ = mutate ? node->ensure_mutable_relaxed_n(e, idx + 1)
+                               : pos.relaxed();
+        auto mpos     = make_relaxed_pos(node, level, relaxed_);
+
+        if (idx == new_idx) {
             new_child =
-                mutate ? pos.last_oh_csh(this_t{}, idx, children, e, tail, ts)
-                       : pos.last_oh_csh(
+                mutate ? mpos.last_oh_csh(this_t{}, idx, children, e, tail, ts)
+                       : mpos.last_oh_csh(
                              this_no_mut_t{}, idx, children, e, tail, ts);
             if (!new_child) {
                 if (++new_idx < branches<B>)
@@ -703,12 +711,11 @@ struct push_tail_mut_visitor
             new_child = node_t::make_path_e(e, level - B, tail);
 
         if (mutate) {
-            auto count             = new_idx + 1;
-            auto relaxed           = node->ensure_mutable_relaxed_n(e, new_idx);
-            node->inner()[new_idx] = new_child;
-            relaxed->d.sizes[new_idx] = pos.size() + ts;
-            relaxed->d.count          = count;
-            assert(relaxed->d.sizes[new_idx]);
+            auto count                 = new_idx + 1;
+            node->inner()[new_idx]     = new_child;
+            relaxed_->d.sizes[new_idx] = size + ts;
+            relaxed_->d.count          = count;
+            assert(relaxed_->d.sizes[new_idx]);
             return node;
         } else {
             IMMER_TRY {
-- 
2.43.0

