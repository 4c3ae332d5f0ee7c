From 7bc9ac75997d55aa71567d6b34c22bc8e2dcce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 01/16] hook: optional small node capacity behind --cfg
 sweep_bptree_small_nodes

---
 src/tree/consts.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tree/consts.rs b/src/tree/consts.rs
index d834a44..f7eac58 100644
--- a/src/tree/consts.rs
+++ b/src/tree/consts.rs
@@ -1,5 +1,12 @@
+#![allow(unexpected_cfgs)]
+
 /// Inner node Key capacity
+#[cfg(not(sweep_bptree_small_nodes))]
 pub(crate) const INNER_N: usize = 64;
+/// Verification builds (`--cfg sweep_bptree_small_nodes`) use tiny nodes, so that few keys make a
+/// deep tree.
+#[cfg(sweep_bptree_small_nodes)]
+pub(crate) const INNER_N: usize = 8;
 /// Inner node Child capacity/branch factor
 pub(crate) const INNER_C: usize = INNER_N + 1;
 /// Leaf node capacity
-- 
2.43.0


From 27199402c45b95534e12ad97650b47f6e057f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 02/16] fix: Iter::next_back must count the yielded item, so
 both ends meet

---
 src/tree/iterator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree/iterator.rs b/src/tree/iterator.rs
index cc66486..8474416 100644
--- a/src/tree/iterator.rs
+++ b/src/tree/iterator.rs
@@ -82,6 +82,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let offset = offset - 1;
                     let kv = leaf.data_at(offset);
                     self.end = Some((leaf, offset));
+                    self.len -= 1;
                     Some(kv)
                 } else {
                     // move to previous leaf
@@ -90,6 +91,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                     let offset = leaf.len() - 1;
 
                     self.end = Some((leaf, offset));
+                    self.len -= 1;
                     Some(leaf.data_at(offset))
                 }
             }
@@ -104,6 +106,7 @@ impl<'a, S: NodeStore> DoubleEndedIterator for Iter<'a, S> {
                 let offset = last_leaf_size - 1;
 
                 self.end = Some((last_leaf, offset));
+                self.len -= 1;
                 Some(last_leaf.data_at(offset))
             }
         }
-- 
2.43.0


From 66b16c939eb0f7eb369f1dc9a77b63f2a9b8aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 03/16] fix: bulk_load must not build an inner node with a
 single child

---
 src/tree/bulk_load.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tree/bulk_load.rs b/src/tree/bulk_load.rs
index b181158..76e4d58 100644
--- a/src/tree/bulk_load.rs
+++ b/src/tree/bulk_load.rs
@@ -71,7 +71,17 @@ impl<S: NodeStore> crate::BPlusTree<S> {
         // each node is a child
         let node_num = nodes.len() / child_n + (nodes.len() % child_n > 0) as usize;
 
-        let mut chunk_iter = nodes.chunks(child_n);
+        // A short last chunk would make an undersized (even keyless) inner node, so it shares
+        // its nodes with the previous chunk.
+        let remainder = nodes.len() % child_n;
+        let mut tail_start = nodes.len() - remainder;
+        if remainder > 0 && node_num > 1 && remainder < child_n / 2 {
+            tail_start -= (child_n - remainder) / 2;
+        }
+        let (head, tail) = nodes.split_at(tail_start);
+        let mut chunk_iter = head
+            .chunks(child_n)
+            .chain(std::iter::once(tail).filter(|tail| !tail.is_empty()));
 
         let mut nodes: Vec<(NodeId, (Option<S::K>, Option<S::K>), S::Augmentation)> =
             Vec::with_capacity(node_num);
-- 
2.43.0


From 10d5f2f345d0c3ccf48ecdabe1060abee63a84cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 04/16] fix: GroupCount must restart the item count at every
 new group in a leaf

---
 src/augment/group.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index d1dea91..cd61e50 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -172,6 +172,7 @@ where
             let group = G::from_ref(key);
             if last_group.as_ref().ne(&group) {
                 group_count += 1;
+                last_group_count = 1;
                 last_group_item_count = &mut last_group_count;
                 last_group = Cow::Owned(group);
             } else {
-- 
2.43.0


From c279abe305dc6e6f9b6dd6776f2c8201db6e30cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 05/16] fix: GroupCount rank must keep the upper layers' rank
 in a leftmost child

---
 src/augment/group.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/augment/group.rs b/src/augment/group.rs
index cd61e50..0bea5c9 100644
--- a/src/augment/group.rs
+++ b/src/augment/group.rs
@@ -291,9 +291,11 @@ where
         // 2. then if rank's g is same as max_group's g, merge count
         //    otherwise, just use the max_group
         let mut rev_iter = group_counts.iter().rev();
-        let last_augmentation = rev_iter.next()?;
-
-        let (max_group, mut max_group_size) = last_augmentation.max_group()?;
+        let Some((max_group, mut max_group_size)) = rev_iter.next().and_then(|a| a.max_group())
+        else {
+            // nothing precedes the key in this node, the rank of the upper layers is kept
+            return rank;
+        };
 
         for a in rev_iter {
             match a.max_group() {
-- 
2.43.0


From d8aedc3dccdec207ebf007460831eeb179798082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 06/16] fix: Cursor::first and last must return None on an
 empty tree

---
 src/tree/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree/cursor.rs b/src/tree/cursor.rs
index f8529c5..9d8a6e4 100644
--- a/src/tree/cursor.rs
+++ b/src/tree/cursor.rs
@@ -43,7 +43,7 @@ impl<'k, K: Key + 'k> Cursor<K> {
         let leaf_id = tree.first_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
 
-        let kv = leaf.data_at(0);
+        let kv = leaf.try_data_at(0)?;
 
         Some((
             Self {
@@ -63,7 +63,7 @@ impl<'k, K: Key + 'k> Cursor<K> {
     {
         let leaf_id = tree.last_leaf()?;
         let leaf = tree.node_store.get_leaf(leaf_id);
-        let kv = leaf.data_at(leaf.len() - 1);
+        let kv = leaf.try_data_at(leaf.len().checked_sub(1)?)?;
 
         Some((
             Self {
-- 
2.43.0


From d3e676a7ca17ebf74aca405d76e0c2bd9231cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 07/16] fix: merging inner nodes must not drop a moved
 augmentation twice

---
 src/tree/inner_node.rs  | 9 +++++++--
 src/tree/tree_remove.rs | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index 854a569..633ce13 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -418,7 +418,7 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         }
     }
 
-    pub(crate) fn merge_next(&mut self, slot_key: K, right: &mut Self) {
+    pub(crate) fn merge_next(&mut self, slot_key: K, mut right: Box<Self>) {
         unsafe {
             *self.key_area_mut(self.size as usize) = MaybeUninit::new(slot_key);
             self.size += 1;
@@ -441,7 +441,12 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
                 self.augmentation_area_mut(self_size..self_size + right_size + 1),
             );
             self.size += right.size;
-            right.size = 0;
+
+            // everything in right is moved out, including the first augmentation which `Drop`
+            // drops even for size 0, so only the allocation is freed
+            drop(Box::from_raw(
+                Box::into_raw(right).cast::<MaybeUninit<Self>>(),
+            ));
         }
     }
 
diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 643327a..4a1b523 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -319,9 +319,9 @@ impl<S: NodeStore> BPlusTree<S> {
         let (result, slot_key) = node.remove_slot_with_right(slot);
 
         // merge right into left
-        let mut right = node_store.take_inner(right_child_id);
+        let right = node_store.take_inner(right_child_id);
         let left = node_store.get_mut_inner(left_child_id);
-        left.merge_next(slot_key, &mut right);
+        left.merge_next(slot_key, right);
 
         let augmentation = S::Augmentation::from_inner(left.keys(), left.augmentations());
         node.set_augmentation(slot, augmentation);
-- 
2.43.0


From a6177137a77701302840bd6a459b9b2ac1734932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 08/16] fix: into_iter must drop the root augmentation

---
 src/tree/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 96b1fd4..d99eee2 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -199,6 +199,8 @@ where
     /// consume self and return the parts. This is useful when implementing `IntoIter`
     fn into_parts(self) -> (S, NodeId, usize) {
         let mut me = ManuallyDrop::new(self);
+        // everything else in `me` doesn't need drop
+        drop(std::mem::take(&mut me.root_augmentation));
         (
             unsafe { ManuallyDrop::take(&mut me.node_store) },
             me.root,
@@ -817,7 +819,15 @@ where
 
 impl<S: NodeStore> Drop for BPlusTree<S> {
     fn drop(&mut self) {
-        unsafe { drop(std::ptr::read(self).into_iter()) }
+        let me = Self {
+            root: self.root,
+            root_augmentation: std::mem::take(&mut self.root_augmentation),
+            len: self.len,
+            // Safety: node_store is not used after drop
+            node_store: unsafe { ManuallyDrop::new(ManuallyDrop::take(&mut self.node_store)) },
+            st: Statistic::default(),
+        };
+        drop(me.into_iter())
     }
 }
 
-- 
2.43.0


From 6d6d7d878ada5228b32cebe7898086308a4815da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 09/16] fix: release the old root when the tree height shrinks

---
 src/tree/tree_remove.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 4a1b523..03fd515 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -63,12 +63,12 @@ impl<S: NodeStore> BPlusTree<S> {
                     let r = match r {
                         DeleteDescendResult::Done(kv) => Some(kv),
                         DeleteDescendResult::InnerUnderSize(deleted_item) => {
-                            let root = tree
-                                .node_store
-                                .get_mut_inner(unsafe { tree.root.inner_id_unchecked() });
+                            let root_id = unsafe { tree.root.inner_id_unchecked() };
+                            let root = tree.node_store.get_mut_inner(root_id);
 
                             if root.is_empty() {
                                 tree.root = root.child_id(0);
+                                drop(tree.node_store.take_inner(root_id));
                             }
 
                             Some(deleted_item)
-- 
2.43.0


From 6b0339651a9b9e1975e55e98d5c9f97d870ed0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 10/16] fix: check positions returned by a user defined
 SearchAugmentation

---
 src/tree/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index d99eee2..eda557c 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -685,6 +685,10 @@ where
                             inner.keys(),
                             inner.augmentations(),
                         )?;
+                    assert!(
+                        offset <= inner.len(),
+                        "locate_in_inner returned an invalid child index"
+                    );
                     node_id = inner.child_id(offset);
 
                     stack.push(inner_id, offset, node_id);
@@ -697,6 +701,10 @@ where
                         leaf.keys(),
                         leaf.values(),
                     )?;
+                    assert!(
+                        slot < leaf.len(),
+                        "locate_in_leaf returned an invalid offset"
+                    );
 
                     return Some(EntryRef::new(self, stack, leaf_id, slot));
                 }
-- 
2.43.0


From 8c66cdab55b7f516c633925faa56a4f644f808a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 11/16] fix: clone separator keys before modifying leaves,
 clone may panic

---
 src/tree/leaf_node.rs   | 11 +++++++++++
 src/tree/mod.rs         |  5 ++++-
 src/tree/tree_remove.rs |  8 ++++++--
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/tree/leaf_node.rs b/src/tree/leaf_node.rs
index d8ea84d..8796e26 100644
--- a/src/tree/leaf_node.rs
+++ b/src/tree/leaf_node.rs
@@ -233,6 +233,17 @@ impl<K: Key, V> LeafNode<K, V> {
         }
     }
 
+    /// the key which will be the first key of the new leaf, if this (full) leaf is split to insert
+    /// `k` at `insert_idx`
+    pub(crate) fn split_key<'a>(&'a self, insert_idx: usize, k: &'a K) -> &'a K {
+        let split_origin_size = Self::split_origin_size() as usize;
+        if insert_idx == split_origin_size {
+            k
+        } else {
+            self.data_at(split_origin_size).0
+        }
+    }
+
     pub(crate) fn split_new_leaf(
         &mut self,
         insert_idx: usize,
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index eda557c..b583353 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -319,11 +319,14 @@ where
             }
             LeafUpsertResult::Updated(v) => DescendInsertResult::Updated(v),
             LeafUpsertResult::IsFull(idx, k, v) => {
+                // the first key of the new leaf. It is cloned before anything is modified, since
+                // clone may panic
+                let slot_key: S::K = leaf_node.split_key(idx, &k).clone();
+
                 let right_id = self.node_store.reserve_leaf();
 
                 let l_leaf = self.node_store.get_mut_leaf(id);
                 let r_leaf = l_leaf.split_new_leaf(idx, (k, v), right_id, id);
-                let slot_key: S::K = r_leaf.data_at(0).0.clone();
 
                 // fix r_leaf's next's prev
                 if let Some(next) = r_leaf.next() {
diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 03fd515..728f231 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -341,10 +341,12 @@ impl<S: NodeStore> BPlusTree<S> {
         let left = node_store.get_mut_leaf(left_id);
         debug_assert!(left.able_to_lend());
 
+        // clone may panic, so do it before anything is modified
+        let new_slot_key = left.data_at(left.len() - 1).0.clone();
+
         let kv = left.pop();
         node.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
 
-        let new_slot_key = kv.0.clone();
         let right = node_store.get_mut_leaf(right_id);
         let deleted = right.delete_with_push_front(delete_idx, kv);
         node.set_augmentation(
@@ -372,13 +374,15 @@ impl<S: NodeStore> BPlusTree<S> {
         let right = node_store.get_mut_leaf(right_id);
         debug_assert!(right.able_to_lend());
 
+        // the first key of right after pop. Clone may panic, so do it before anything is modified
+        let new_slot_key = right.data_at(1).0.clone();
+
         let kv = right.pop_front();
         parent.set_augmentation(
             slot + 1,
             S::Augmentation::from_leaf(right.keys(), right.values()),
         );
 
-        let new_slot_key = right.data_at(0).0.clone();
         let left = node_store.get_mut_leaf(left_id);
         let deleted = left.delete_with_push(delete_idx, kv);
         parent.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
-- 
2.43.0


From 6cfa251d6d137461aa5bad23fa2445111f29bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 12/16] fix: a partially built inner node must not drop
 uninitialized augmentations

---
 src/tree/inner_node.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index 633ce13..8d6886f 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -134,7 +134,8 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         childs: impl IntoIterator<Item = NodeId>,
         augmentations: impl IntoIterator<Item = A>,
     ) -> Box<Self> {
-        let mut node = Self::empty();
+        // the node must not be dropped before it is completely filled, e.g. when an iterator panics
+        let mut node = mem::ManuallyDrop::new(Self::empty());
 
         let keys = keys.into_iter();
         let childs = childs.into_iter();
@@ -159,7 +160,7 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
         assert!(key_size + 1 == child_size);
         node.size = key_size;
 
-        node
+        mem::ManuallyDrop::into_inner(node)
     }
 
     pub(crate) fn keys(&self) -> &[K] {
-- 
2.43.0


From 72c4bda48b4e5f731fe76a51df353fac988e3128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 13/16] fix: reuse the ids of removed nodes, so the store
 doesn't grow with every operation

---
 src/tree/node_stores/vec_backed.rs | 34 +++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/tree/node_stores/vec_backed.rs b/src/tree/node_stores/vec_backed.rs
index 099dde0..8015609 100644
--- a/src/tree/node_stores/vec_backed.rs
+++ b/src/tree/node_stores/vec_backed.rs
@@ -5,6 +5,10 @@ pub struct NodeStoreVec<K: Key, V, A: Augmentation<K, V> = ()> {
     inner_nodes: Vec<Option<Box<InnerNode<K, A>>>>,
     leaf_nodes: Vec<Option<Box<LeafNode<K, V>>>>,
 
+    /// ids of the taken nodes, they will be reused
+    free_inners: Vec<InnerNodeId>,
+    free_leaves: Vec<LeafNodeId>,
+
     cached_leaf: std::sync::atomic::AtomicUsize,
 }
 
@@ -13,6 +17,8 @@ impl<K: Key, V: Clone, A: Augmentation<K, V>> Clone for NodeStoreVec<K, V, A> {
         Self {
             inner_nodes: self.inner_nodes.clone(),
             leaf_nodes: self.leaf_nodes.clone(),
+            free_inners: self.free_inners.clone(),
+            free_leaves: self.free_leaves.clone(),
             cached_leaf: std::sync::atomic::AtomicUsize::new(
                 self.cached_leaf.load(std::sync::atomic::Ordering::Relaxed),
             ),
@@ -25,6 +31,8 @@ impl<K: Key, V, A: Augmentation<K, V>> Default for NodeStoreVec<K, V, A> {
         Self {
             inner_nodes: Default::default(),
             leaf_nodes: Default::default(),
+            free_inners: Default::default(),
+            free_leaves: Default::default(),
             cached_leaf: std::sync::atomic::AtomicUsize::new(usize::MAX),
         }
     }
@@ -113,13 +121,17 @@ impl<K: Key, V, A: Augmentation<K, V>> NodeStore for NodeStoreVec<K, V, A> {
     }
 
     fn new_empty_leaf(&mut self) -> (LeafNodeId, &mut LeafNode<K, V>) {
-        let id = LeafNodeId::from_usize(self.leaf_nodes.len());
-        let node = LeafNode::<Self::K, Self::V>::new();
-        self.leaf_nodes.push(Some(node));
+        let id = self.reserve_leaf();
+        self.assign_leaf(id, LeafNode::<Self::K, Self::V>::new());
         (id, self.get_mut_leaf(id))
     }
 
     fn add_inner(&mut self, node: Box<InnerNode<K, A>>) -> InnerNodeId {
+        if let Some(id) = self.free_inners.pop() {
+            self.inner_nodes[id.as_usize()] = Some(node);
+            return id;
+        }
+
         let id = InnerNodeId::from_usize(self.inner_nodes.len());
         self.inner_nodes.push(Some(node));
         id
@@ -157,14 +169,24 @@ impl<K: Key, V, A: Augmentation<K, V>> NodeStore for NodeStoreVec<K, V, A> {
     }
 
     fn take_inner(&mut self, id: InnerNodeId) -> Box<InnerNode<K, A>> {
-        std::mem::take(&mut self.inner_nodes[id.as_usize()]).unwrap()
+        let node = std::mem::take(&mut self.inner_nodes[id.as_usize()]).unwrap();
+        self.free_inners.push(id);
+        node
     }
 
     fn put_back_inner(&mut self, id: InnerNodeId, node: Box<InnerNode<K, A>>) {
+        // usually it is the last taken one
+        if let Some(pos) = self.free_inners.iter().rposition(|free| *free == id) {
+            self.free_inners.swap_remove(pos);
+        }
         self.inner_nodes[id.as_usize()] = Some(node);
     }
 
     fn reserve_leaf(&mut self) -> LeafNodeId {
+        if let Some(id) = self.free_leaves.pop() {
+            return id;
+        }
+
         let id = LeafNodeId::from_usize(self.leaf_nodes.len());
         self.leaf_nodes.push(None);
         id
@@ -200,7 +222,9 @@ impl<K: Key, V, A: Augmentation<K, V>> NodeStore for NodeStoreVec<K, V, A> {
     }
 
     fn take_leaf(&mut self, id: LeafNodeId) -> Box<LeafNode<K, V>> {
-        std::mem::take(&mut self.leaf_nodes[id.as_usize()]).unwrap()
+        let leaf = std::mem::take(&mut self.leaf_nodes[id.as_usize()]).unwrap();
+        self.free_leaves.push(id);
+        leaf
     }
 
     fn assign_leaf(&mut self, id: LeafNodeId, leaf: Box<LeafNode<K, V>>) {
-- 
2.43.0


From 99906569507d075ad6edf69e60a75841825578bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 14/16] fix: into_parts leaks the default value left in place
 of the root augmentation

---
 src/tree/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index b583353..fa956ad 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -200,7 +200,8 @@ where
     fn into_parts(self) -> (S, NodeId, usize) {
         let mut me = ManuallyDrop::new(self);
         // everything else in `me` doesn't need drop
-        drop(std::mem::take(&mut me.root_augmentation));
+        // Safety: root_augmentation is not used after drop
+        unsafe { std::ptr::drop_in_place(&mut me.root_augmentation) };
         (
             unsafe { ManuallyDrop::take(&mut me.node_store) },
             me.root,
-- 
2.43.0


From 4463cacff1ec2548523fecb57693afa5d81eca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:49 +0000
Subject: [PATCH 15/16] fix: keep the nodes consistent when an augmentation or
 a destructor panics

Rebalancing evaluated augmentations and dropped removed ones while nodes were
taken out of the tree, and the length was adjusted last, so that a panic in
them left a tree whose safe use is undefined behaviour (use of dropped
entries). They run after the nodes are linked and counted now; an insertion
interrupted while a new node cannot be linked yet leaves an empty tree.
---
 src/augment/mod.rs      |   2 +
 src/tree/inner_node.rs  |  15 +++---
 src/tree/mod.rs         |  46 +++++++++++++-----
 src/tree/tree_remove.rs | 104 ++++++++++++++++++++++++----------------
 4 files changed, 108 insertions(+), 59 deletions(-)

diff --git a/src/augment/mod.rs b/src/augment/mod.rs
index 2be8fed..64d2717 100644
--- a/src/augment/mod.rs
+++ b/src/augment/mod.rs
@@ -7,6 +7,8 @@ pub mod group;
 /// NOTE: if Augmentation's calculation depends on values, please DO NOT use `get_mut`
 /// and then modify the value. In that case, the lib lose track of value change and
 /// the augmentation is not synced.
+/// NOTE: if Augmentation's calculation panics, the augmentations of the tree are not synced, and the
+/// entries are lost when it happened while a node is split.
 pub trait Augmentation<K: Key, V>: Clone + Default {
     fn is_zst() -> bool {
         false
diff --git a/src/tree/inner_node.rs b/src/tree/inner_node.rs
index 8d6886f..4e55c34 100644
--- a/src/tree/inner_node.rs
+++ b/src/tree/inner_node.rs
@@ -398,24 +398,25 @@ impl<K: Key, A: Clone> InnerNode<K, A> {
     }
 
     /// remove key at `slot` and it's right child. This method is used when the children of slot
-    /// is merged.
-    pub(crate) fn remove_slot_with_right(&mut self, slot: usize) -> (InnerMergeResult, K) {
-        let k = unsafe {
+    /// is merged. The removed augmentation is returned, so that it is dropped when the merge is
+    /// complete.
+    pub(crate) fn remove_slot_with_right(&mut self, slot: usize) -> (InnerMergeResult, K, A) {
+        let (k, a) = unsafe {
             let k = slice_utils::slice_remove(self.key_area_mut(..self.size as usize), slot);
             slice_utils::slice_remove(self.child_area_mut(..self.size as usize + 1), slot + 1);
-            slice_utils::slice_remove(
+            let a = slice_utils::slice_remove(
                 self.augmentation_area_mut(..self.size as usize + 1),
                 slot + 1,
             );
-            k
+            (k, a)
         };
         self.size -= 1;
 
         if self.size >= Self::minimum_size() as u16 {
-            (InnerMergeResult::Done, k)
+            (InnerMergeResult::Done, k, a)
         } else {
             // the undersized inner node will be fixed by parent node
-            (InnerMergeResult::UnderSize, k)
+            (InnerMergeResult::UnderSize, k, a)
         }
     }
 
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index fa956ad..eb848f4 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -166,10 +166,13 @@ where
                 Some(prev_v)
             }
             DescendInsertResult::Split(k, new_child_id) => {
+                let guard = SplitGuard(self);
+                let tree = &mut *guard.0;
+
                 let prev_root_augmentation =
-                    Self::new_augmentation_for_id(&self.node_store, node_id);
+                    Self::new_augmentation_for_id(&tree.node_store, node_id);
                 let new_augmentation =
-                    Self::new_augmentation_for_id(&self.node_store, new_child_id);
+                    Self::new_augmentation_for_id(&tree.node_store, new_child_id);
 
                 let new_root = InnerNode::<S::K, S::Augmentation>::new(
                     [k],
@@ -179,17 +182,15 @@ where
                 let new_root_augmentation =
                     S::Augmentation::from_inner(new_root.keys(), new_root.augmentations());
 
-                let new_root_id = self.node_store.add_inner(new_root);
-                self.root = new_root_id.into();
+                let new_root_id = tree.node_store.add_inner(new_root);
+                tree.root = new_root_id.into();
+                std::mem::forget(guard);
+
                 self.root_augmentation = new_root_augmentation;
                 None
             }
         };
 
-        if result.is_none() {
-            self.len += 1;
-        }
-
         #[cfg(test)]
         self.validate();
 
@@ -251,12 +252,15 @@ where
             match stack.pop() {
                 Some((id, child_idx, child_id)) => match r {
                     DescendInsertResult::Split(key, right_child) => {
+                        let guard = SplitGuard(self);
+                        let tree = &mut *guard.0;
+
                         let right_child_augmentation =
-                            Self::new_augmentation_for_id(&self.node_store, right_child);
+                            Self::new_augmentation_for_id(&tree.node_store, right_child);
                         let child_augmentation =
-                            Self::new_augmentation_for_id(&self.node_store, child_id);
+                            Self::new_augmentation_for_id(&tree.node_store, child_id);
 
-                        let inner_node = self.node_store.get_mut_inner(id);
+                        let inner_node = tree.node_store.get_mut_inner(id);
                         // it's easier to update augment here, the split logic handles augmentations split
                         // too.
                         inner_node.set_augmentation(child_idx, child_augmentation);
@@ -272,9 +276,10 @@ where
                                 right_child,
                                 right_child_augmentation,
                             );
-                            let new_node_id = self.node_store.add_inner(new_node);
+                            let new_node_id = tree.node_store.add_inner(new_node);
                             r = DescendInsertResult::Split(prompt_k, NodeId::Inner(new_node_id));
                         }
+                        std::mem::forget(guard);
                     }
                     DescendInsertResult::Inserted => {
                         let child_augmentation =
@@ -315,6 +320,7 @@ where
         let leaf_node = self.node_store.get_mut_leaf(id);
         match leaf_node.try_upsert(k, v) {
             LeafUpsertResult::Inserted => {
+                self.len += 1;
                 self.node_store.cache_leaf(id);
                 DescendInsertResult::Inserted
             }
@@ -334,6 +340,7 @@ where
                     self.node_store.get_mut_leaf(next).set_prev(Some(right_id));
                 }
                 self.node_store.assign_leaf(right_id, r_leaf);
+                self.len += 1;
 
                 let updated_id = if idx >= S::leaf_n() as usize / 2 {
                     right_id
@@ -868,6 +875,21 @@ pub struct Statistic {
     pub merge_with_right_leaf: u64,
 }
 
+/// Guards a tree with a node which is not linked to its parent yet. If user code, i.e. the
+/// augmentation, panics at that point, the tree becomes an empty one and its nodes leak, since a
+/// tree that lost track of a node must not be used. It is forgotten when the node is linked.
+struct SplitGuard<'a, S: NodeStore>(&'a mut BPlusTree<S>);
+
+impl<S: NodeStore> Drop for SplitGuard<'_, S> {
+    fn drop(&mut self) {
+        let mut node_store = S::default();
+        let (root_id, _) = node_store.new_empty_leaf();
+        std::mem::forget(std::mem::replace(&mut *self.0.node_store, node_store));
+        self.0.root = NodeId::Leaf(root_id);
+        self.0.len = 0;
+    }
+}
+
 enum DescendInsertResult<K, V> {
     /// Update existing value, V is the previous value
     Updated(V),
diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 728f231..9a7a4dc 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -27,7 +27,10 @@ impl<S: NodeStore> BPlusTree<S> {
             let leaf = tree.node_store.get_mut_leaf(leaf_id);
 
             match leaf.try_delete_at(offset) {
-                LeafDeleteResult::Done(kv) => DeleteDescendResult::Done(kv),
+                LeafDeleteResult::Done(kv) => {
+                    tree.len -= 1;
+                    DeleteDescendResult::Done(kv)
+                }
                 LeafDeleteResult::UnderSize(idx) => DeleteDescendResult::LeafUnderSize(idx),
             }
         };
@@ -78,6 +81,7 @@ impl<S: NodeStore> BPlusTree<S> {
                                 .node_store
                                 .get_mut_leaf(unsafe { tree.root.leaf_id_unchecked() });
                             let item = leaf.delete_at(idx);
+                            tree.len -= 1;
                             Some(item)
                         }
                     };
@@ -85,7 +89,6 @@ impl<S: NodeStore> BPlusTree<S> {
                     if r.is_some() {
                         tree.root_augmentation =
                             Self::new_augmentation_for_id(&tree.node_store, tree.root);
-                        tree.len -= 1;
                     }
 
                     return r;
@@ -186,6 +189,18 @@ impl<S: NodeStore> BPlusTree<S> {
             _ => unreachable!(),
         };
 
+        // the slot key after a rotation. Clone may panic, so do it before anything is modified
+        let new_slot_key = match (&action, prev_sibling, next_sibling) {
+            (FixAction::RotateRight, Some(p), _) => Some(p.data_at(p.len() - 1).0.clone()),
+            // the first key of next after pop
+            (FixAction::RotateLeft, _, Some(n)) => Some(n.data_at(1).0.clone()),
+            _ => None,
+        };
+
+        // From here on the augmentation is the only user code that runs. It may panic as well, so it
+        // is evaluated when the nodes and the length are consistent again.
+        self.len -= 1;
+
         match action {
             FixAction::RotateRight => {
                 let deleted = Self::rotate_right_for_leaf(
@@ -193,6 +208,7 @@ impl<S: NodeStore> BPlusTree<S> {
                     node,
                     child_idx - 1,
                     key_idx_in_child,
+                    new_slot_key.expect("prev sibling exists"),
                 );
                 self.st.rotate_right_leaf += 1;
                 DeleteDescendResult::Done(deleted)
@@ -203,6 +219,7 @@ impl<S: NodeStore> BPlusTree<S> {
                     node,
                     child_idx,
                     key_idx_in_child,
+                    new_slot_key.expect("next sibling exists"),
                 );
                 self.st.rotate_left_leaf += 1;
                 DeleteDescendResult::Done(deleted)
@@ -248,8 +265,6 @@ impl<S: NodeStore> BPlusTree<S> {
         let prev_node = node_store.get_mut_inner(left_child_id);
         if prev_node.able_to_lend() {
             let (k, c, a) = prev_node.pop();
-            let left_augmentation =
-                S::Augmentation::from_inner(prev_node.keys(), prev_node.augmentations());
 
             let slot_key = node.set_key(slot, k);
             let right = node_store.get_mut_inner(right_child_id);
@@ -257,6 +272,9 @@ impl<S: NodeStore> BPlusTree<S> {
             let right_augmentation =
                 S::Augmentation::from_inner(right.keys(), right.augmentations());
 
+            let left = node_store.get_inner(left_child_id);
+            let left_augmentation = S::Augmentation::from_inner(left.keys(), left.augmentations());
+
             node.set_augmentation(slot, left_augmentation);
             node.set_augmentation(slot + 1, right_augmentation);
 
@@ -283,15 +301,16 @@ impl<S: NodeStore> BPlusTree<S> {
         if right.able_to_lend() {
             let (k, c, m) = right.pop_front();
 
-            let right_augmentation =
-                S::Augmentation::from_inner(right.keys(), right.augmentations());
-
             let slot_key = node.set_key(slot, k);
             let left = node_store.get_mut_inner(left_child_id);
             left.push(slot_key, c, m);
 
             let left_augmentation = S::Augmentation::from_inner(left.keys(), left.augmentations());
 
+            let right = node_store.get_inner(right_child_id);
+            let right_augmentation =
+                S::Augmentation::from_inner(right.keys(), right.augmentations());
+
             node.set_augmentation(slot, left_augmentation);
             node.set_augmentation(slot + 1, right_augmentation);
 
@@ -316,7 +335,7 @@ impl<S: NodeStore> BPlusTree<S> {
         let left_child_id = unsafe { node.child_id(slot).inner_id_unchecked() };
         let right_child_id = unsafe { node.child_id(slot + 1).inner_id_unchecked() };
 
-        let (result, slot_key) = node.remove_slot_with_right(slot);
+        let (result, slot_key, _removed_augmentation) = node.remove_slot_with_right(slot);
 
         // merge right into left
         let right = node_store.take_inner(right_child_id);
@@ -334,6 +353,7 @@ impl<S: NodeStore> BPlusTree<S> {
         node: &mut InnerNode<S::K, S::Augmentation>,
         slot: usize,
         delete_idx: usize,
+        new_slot_key: S::K,
     ) -> (S::K, S::V) {
         let left_id = unsafe { node.child_id(slot).leaf_id_unchecked() };
         let right_id = unsafe { node.child_id(slot + 1).leaf_id_unchecked() };
@@ -341,24 +361,23 @@ impl<S: NodeStore> BPlusTree<S> {
         let left = node_store.get_mut_leaf(left_id);
         debug_assert!(left.able_to_lend());
 
-        // clone may panic, so do it before anything is modified
-        let new_slot_key = left.data_at(left.len() - 1).0.clone();
-
         let kv = left.pop();
-        node.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
 
         let right = node_store.get_mut_leaf(right_id);
         let deleted = right.delete_with_push_front(delete_idx, kv);
+
+        let _prev_key = node.set_key(slot, new_slot_key);
+        node_store.cache_leaf(right_id);
+
+        let left = node_store.get_leaf(left_id);
+        node.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
+
+        let right = node_store.get_leaf(right_id);
         node.set_augmentation(
             slot + 1,
             S::Augmentation::from_leaf(right.keys(), right.values()),
         );
 
-        node_store.cache_leaf(right_id);
-
-        // the prev key is dropped here
-        let _ = node.set_key(slot, new_slot_key);
-
         deleted
     }
 
@@ -367,6 +386,7 @@ impl<S: NodeStore> BPlusTree<S> {
         parent: &mut InnerNode<S::K, S::Augmentation>,
         slot: usize,
         delete_idx: usize,
+        new_slot_key: S::K,
     ) -> (S::K, S::V) {
         let left_id = unsafe { parent.child_id(slot).leaf_id_unchecked() };
         let right_id = unsafe { parent.child_id(slot + 1).leaf_id_unchecked() };
@@ -374,23 +394,23 @@ impl<S: NodeStore> BPlusTree<S> {
         let right = node_store.get_mut_leaf(right_id);
         debug_assert!(right.able_to_lend());
 
-        // the first key of right after pop. Clone may panic, so do it before anything is modified
-        let new_slot_key = right.data_at(1).0.clone();
-
         let kv = right.pop_front();
+
+        let left = node_store.get_mut_leaf(left_id);
+        let deleted = left.delete_with_push(delete_idx, kv);
+
+        let _prev_key = parent.set_key(slot, new_slot_key);
+        node_store.cache_leaf(left_id);
+
+        let right = node_store.get_leaf(right_id);
         parent.set_augmentation(
             slot + 1,
             S::Augmentation::from_leaf(right.keys(), right.values()),
         );
 
-        let left = node_store.get_mut_leaf(left_id);
-        let deleted = left.delete_with_push(delete_idx, kv);
+        let left = node_store.get_leaf(left_id);
         parent.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
 
-        // the prev key is dropped here
-        let _ = parent.set_key(slot, new_slot_key);
-
-        node_store.cache_leaf(left_id);
         deleted
     }
 
@@ -406,19 +426,21 @@ impl<S: NodeStore> BPlusTree<S> {
         let mut right = node_store.take_leaf(right_leaf_id);
         let left = node_store.get_mut_leaf(left_leaf_id);
         let kv = left.merge_right_delete_first(delete_idx, &mut right);
-        parent.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
 
         if let Some(next) = left.next() {
             node_store.get_mut_leaf(next).set_prev(Some(left_leaf_id));
         }
 
-        let r = match parent.remove_slot_with_right(slot) {
-            (InnerMergeResult::Done, _removed_k) => DeleteDescendResult::Done(kv),
-            (InnerMergeResult::UnderSize, _removed_k) => DeleteDescendResult::InnerUnderSize(kv),
-        };
-
+        let (merge_result, _removed_k, _removed_augmentation) = parent.remove_slot_with_right(slot);
         node_store.cache_leaf(left_leaf_id);
-        r
+
+        let left = node_store.get_leaf(left_leaf_id);
+        parent.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
+
+        match merge_result {
+            InnerMergeResult::Done => DeleteDescendResult::Done(kv),
+            InnerMergeResult::UnderSize => DeleteDescendResult::InnerUnderSize(kv),
+        }
     }
 
     fn merge_leaf_node_with_right(
@@ -435,19 +457,21 @@ impl<S: NodeStore> BPlusTree<S> {
         let kv = left.delete_at(delete_idx);
         left.merge_right(&mut right);
 
-        parent.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
-
         if let Some(next) = left.next() {
             node_store.get_mut_leaf(next).set_prev(Some(left_leaf_id));
         }
 
         // the merge on inner, it could propagate
-        let r = match parent.remove_slot_with_right(slot) {
-            (InnerMergeResult::Done, _removed_k) => DeleteDescendResult::Done(kv),
-            (InnerMergeResult::UnderSize, _removed_k) => DeleteDescendResult::InnerUnderSize(kv),
-        };
+        let (merge_result, _removed_k, _removed_augmentation) = parent.remove_slot_with_right(slot);
         node_store.cache_leaf(left_leaf_id);
-        r
+
+        let left = node_store.get_leaf(left_leaf_id);
+        parent.set_augmentation(slot, S::Augmentation::from_leaf(left.keys(), left.values()));
+
+        match merge_result {
+            InnerMergeResult::Done => DeleteDescendResult::Done(kv),
+            InnerMergeResult::UnderSize => DeleteDescendResult::InnerUnderSize(kv),
+        }
     }
 }
 
-- 
2.43.0


From 088fbdb16909793f491301b72cc702667f26ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:43 +0000
Subject: [PATCH 16/16] fix: tolerate inner nodes left with a single child when
 an augmentation panics during a removal

---
 src/tree/tree_remove.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/tree/tree_remove.rs b/src/tree/tree_remove.rs
index 9a7a4dc..213da89 100644
--- a/src/tree/tree_remove.rs
+++ b/src/tree/tree_remove.rs
@@ -39,6 +39,16 @@ impl<S: NodeStore> BPlusTree<S> {
         loop {
             match stack.pop() {
                 Some((parent_id, child_idx, child_id)) => {
+                    if tree.root == parent_id.into()
+                        && tree.node_store.get_inner(parent_id).is_empty()
+                    {
+                        // An augmentation panicked before an earlier removal could take out this
+                        // root, which has no key and a single child
+                        tree.root = child_id;
+                        drop(tree.node_store.take_inner(parent_id));
+                        continue;
+                    }
+
                     match r {
                         DeleteDescendResult::Done(_) => {
                             let child_augmentation =
@@ -103,6 +113,15 @@ impl<S: NodeStore> BPlusTree<S> {
         child_idx: usize,
         deleted_item: (S::K, S::V),
     ) -> DeleteDescendResult<S::K, S::V> {
+        if node.is_empty() {
+            // Removals interrupted by panicking augmentations left a single child, there is no
+            // sibling to fix it with. The parent of this node fixes this node
+            let child_augmentation =
+                Self::new_augmentation_for_id(&self.node_store, node.child_id(0));
+            node.set_augmentation(0, child_augmentation);
+            return DeleteDescendResult::InnerUnderSize(deleted_item);
+        }
+
         if child_idx > 0
             && Self::try_rotate_right_for_inner_node(&mut self.node_store, node, child_idx - 1)
                 .is_some()
@@ -137,6 +156,21 @@ impl<S: NodeStore> BPlusTree<S> {
         child_idx: usize,
         key_idx_in_child: usize,
     ) -> DeleteDescendResult<<S as NodeStore>::K, <S as NodeStore>::V> {
+        if node.is_empty() {
+            // same as in `handle_inner_under_size`
+            let child_id = node.child_id(0);
+            let leaf = self
+                .node_store
+                .get_mut_leaf(unsafe { child_id.leaf_id_unchecked() });
+            assert!(leaf.len() > 1, "the only leaf of a node can't be emptied");
+            let deleted = leaf.delete_at(key_idx_in_child);
+            self.len -= 1;
+
+            let child_augmentation = Self::new_augmentation_for_id(&self.node_store, child_id);
+            node.set_augmentation(0, child_augmentation);
+            return DeleteDescendResult::InnerUnderSize(deleted);
+        }
+
         let prev_sibling = if child_idx > 0 {
             Some(
                 self.node_store
-- 
2.43.0

