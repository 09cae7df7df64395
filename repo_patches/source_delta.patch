From 51590df28060d54f5aaaab287ecb5eb8b4f6acb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:07 +0000
Subject: [PATCH 1/5] fix: tie references passed to modify callbacks to the
 tree borrow

The lifetime of the references handed to the callbacks of RbTree::modify
and RbTree::modify_max_with_prefix was chosen freely by the caller, so
safe code could keep a reference to a value after the tree was dropped.
---
 src/rbtree.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index 2345d59..ab47432 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -345,7 +345,11 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
     /// Updates the value corresponding to the specified key.
     #[inline]
-    pub fn modify<'a, Q: ?Sized, T>(&mut self, key: &Q, f: impl FnOnce(&'a mut V) -> T) -> Option<T>
+    pub fn modify<'a, Q: ?Sized, T>(
+        &'a mut self,
+        key: &Q,
+        f: impl FnOnce(&'a mut V) -> T,
+    ) -> Option<T>
     where
         K: Borrow<Q>,
         Q: Ord,
@@ -386,7 +390,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
     /// Modify the maximum node with the given prefix.
     pub fn modify_max_with_prefix<'a, P: ?Sized, T>(
-        &mut self,
+        &'a mut self,
         prefix: &P,
         f: impl FnOnce(&'a K, &'a mut V) -> T,
     ) -> Option<T>
-- 
2.43.0


From 5ce91a435b85e1cea61aa8e605e293b5cfe6ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 2/5] fix: keep the root hash current when values change
 through references

Map::get_mut, the entry API and the reference returned by RbTree::insert
let a value change after the hashes on its path were computed, so the root
hash no longer matched the content. The reference handed out was also
invalidated by hashing the value again (undefined behaviour under Miri's
aliasing rules, even for a plain Map::insert). Mark the path of a value
that is handed out as stale and rehash it when a hash is next needed.
---
 src/collections/map.rs |   2 +-
 src/rbtree.rs          | 189 ++++++++++++++++++++++-------------------
 src/rbtree/entry.rs    |   4 +-
 3 files changed, 106 insertions(+), 89 deletions(-)

diff --git a/src/collections/map.rs b/src/collections/map.rs
index e29a038..bce1135 100644
--- a/src/collections/map.rs
+++ b/src/collections/map.rs
@@ -50,7 +50,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> Map<K, V> {
     /// key will be returned.
     #[inline]
     pub fn insert(&mut self, key: K, value: V) -> Option<V> {
-        self.inner.insert(key, value).0
+        self.inner.replace(key, value)
     }
 
     /// Remove the value associated with the given key from the map, returns the
diff --git a/src/rbtree.rs b/src/rbtree.rs
index ab47432..9114641 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -44,6 +44,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> AsHashTree for RbTree<K, V> {
         if self.root.is_null() {
             Empty.reconstruct()
         } else {
+            self.refresh();
             unsafe { (*self.root).subtree_hash }
         }
     }
@@ -123,6 +124,10 @@ struct Node<K, V> {
     right: *mut Node<K, V>,
     color: Color,
 
+    /// Set if a mutable reference to the value of this node, or of one of the
+    /// nodes below it, was handed out since `subtree_hash` was computed.
+    stale: bool,
+
     /// Hash of the full hash tree built from this node and its
     /// children. It needs to be recomputed after every rotation.
     subtree_hash: Hash,
@@ -139,6 +144,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> Node<K, V> {
             left: Node::null(),
             right: Node::null(),
             color: Color::Red,
+            stale: false,
             subtree_hash: data_hash,
         }));
 
@@ -223,6 +229,17 @@ impl<K: 'static + Label, V: AsHashTree + 'static> Node<K, V> {
         Some((node.key, node.value))
     }
 
+    /// Recompute the hashes of the nodes in this subtree that are marked as stale.
+    unsafe fn refresh(n: *mut Self) {
+        if n.is_null() || !(*n).stale {
+            return;
+        }
+        Self::refresh((*n).left);
+        Self::refresh((*n).right);
+        (*n).subtree_hash = Node::subtree_hash(n);
+        (*n).stale = false;
+    }
+
     unsafe fn subtree_hash(n: *mut Self) -> Hash {
         if n.is_null() {
             return Empty.reconstruct();
@@ -331,10 +348,14 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
     }
 
     #[inline]
-    unsafe fn get_node(&self, key: &K) -> *mut Node<K, V> {
+    unsafe fn get_node<Q: ?Sized>(&self, key: &Q) -> *mut Node<K, V>
+    where
+        K: Borrow<Q>,
+        Q: Ord,
+    {
         let mut root = self.root;
         while !root.is_null() {
-            match key.cmp(&(*root).key) {
+            match key.cmp((*root).key.borrow()) {
                 Equal => return root,
                 Less => root = (*root).left,
                 Greater => root = (*root).right,
@@ -343,6 +364,28 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         Node::null()
     }
 
+    /// Returns a mutable reference to the value of the given node of this tree. The value
+    /// can be changed for as long as the reference lives, so the hashes that depend on it
+    /// are marked as stale, and are recomputed the next time they're needed.
+    unsafe fn value_mut(&mut self, node: *mut Node<K, V>) -> &mut V {
+        let mut h = self.root;
+        while !h.is_null() {
+            (*h).stale = true;
+            h = match (*node).key.cmp(&(*h).key) {
+                Equal => break,
+                Less => (*h).left,
+                Greater => (*h).right,
+            };
+        }
+        &mut (*node).value
+    }
+
+    /// Bring the hashes of the nodes up to date.
+    #[inline]
+    fn refresh(&self) {
+        unsafe { Node::refresh(self.root) }
+    }
+
     /// Updates the value corresponding to the specified key.
     #[inline]
     pub fn modify<'a, Q: ?Sized, T>(
@@ -354,38 +397,13 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         K: Borrow<Q>,
         Q: Ord,
     {
-        unsafe fn go<'a, K: 'static + Label, V: AsHashTree + 'static, T, Q: ?Sized>(
-            mut h: *mut Node<K, V>,
-            k: &Q,
-            f: impl FnOnce(&'a mut V) -> T,
-        ) -> Option<T>
-        where
-            K: Borrow<Q>,
-            Q: Ord,
-        {
-            if h.is_null() {
+        unsafe {
+            let node = self.get_node(key);
+            if node.is_null() {
                 return None;
             }
-
-            match k.cmp((*h).key.borrow()) {
-                Equal => {
-                    let res = f(&mut (*h).value);
-                    (*h).subtree_hash = Node::subtree_hash(h);
-                    Some(res)
-                }
-                Less => {
-                    let res = go((*h).left, k, f);
-                    (*h).subtree_hash = Node::subtree_hash(h);
-                    res
-                }
-                Greater => {
-                    let res = go((*h).right, k, f);
-                    (*h).subtree_hash = Node::subtree_hash(h);
-                    res
-                }
-            }
+            Some(f(self.value_mut(node)))
         }
-        unsafe { go(self.root, key, f) }
     }
 
     /// Modify the maximum node with the given prefix.
@@ -398,79 +416,62 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         K: Prefix<P>,
         P: Ord,
     {
-        unsafe fn go<
-            'a,
-            K: Label + 'static,
-            V: AsHashTree + 'static,
-            P: ?Sized,
-            T,
-            F: FnOnce(&'a K, &'a mut V) -> T,
-        >(
-            mut h: *mut Node<K, V>,
-            prefix: &P,
-            f: F,
-        ) -> (Option<T>, Option<F>)
-        where
-            K: Prefix<P>,
-            P: Ord,
-        {
-            if h.is_null() {
-                return (None, Some(f));
+        unsafe {
+            let node = self.max_node_with_prefix(prefix);
+            if node.is_null() {
+                return None;
             }
+            Some(f(&(*node).key, self.value_mut(node)))
+        }
+    }
 
-            let node_key = &(*h).key;
-            let key_prefix = node_key.borrow();
-
-            let res = match key_prefix.cmp(prefix) {
-                Greater | Equal if node_key.is_prefix(prefix) => match go((*h).right, prefix, f) {
-                    (None, Some(f)) => {
-                        let ret = f(node_key, &mut (*h).value);
-                        (Some(ret), None)
-                    }
-                    ret => ret,
-                },
-                Greater => go((*h).left, prefix, f),
-                Less | Equal => go((*h).right, prefix, f),
-            };
-
-            if res.0.is_some() {
-                (*h).subtree_hash = Node::subtree_hash(h);
+    pub fn max_entry_with_prefix<P: ?Sized>(&self, prefix: &P) -> Option<(&K, &V)>
+    where
+        K: Prefix<P>,
+        P: Ord,
+    {
+        unsafe {
+            let node = self.max_node_with_prefix(prefix);
+            if node.is_null() {
+                return None;
             }
-
-            res
+            Some((&(*node).key, &(*node).value))
         }
-
-        unsafe { go(self.root, prefix, f).0 }
     }
 
-    pub fn max_entry_with_prefix<P: ?Sized>(&self, prefix: &P) -> Option<(&K, &V)>
+    unsafe fn max_node_with_prefix<P: ?Sized>(&self, prefix: &P) -> *mut Node<K, V>
     where
         K: Prefix<P>,
         P: Ord,
     {
-        unsafe fn go<'a, K: 'static + Label, V, P: ?Sized>(
+        unsafe fn go<K: 'static + Label, V, P: ?Sized>(
             n: *mut Node<K, V>,
             prefix: &P,
-        ) -> Option<(&'a K, &'a V)>
+        ) -> *mut Node<K, V>
         where
             K: Prefix<P>,
             P: Ord,
         {
             if n.is_null() {
-                return None;
+                return n;
             }
 
             let node_key = &(*n).key;
             let key_prefix = node_key.borrow();
             match key_prefix.cmp(prefix) {
                 Greater | Equal if node_key.is_prefix(prefix) => {
-                    go((*n).right, prefix).or(Some((node_key, &(*n).value)))
+                    let max = go((*n).right, prefix);
+                    if max.is_null() {
+                        n
+                    } else {
+                        max
+                    }
                 }
                 Greater => go((*n).left, prefix),
                 Less | Equal => go((*n).right, prefix),
             }
         }
-        unsafe { go(self.root, prefix) }
+        go(self.root, prefix)
     }
 
     fn range_witness<'a>(
@@ -479,6 +480,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         right: Option<KeyBound<'a, K>>,
         f: unsafe fn(*mut Node<K, V>) -> HashTree<'a>,
     ) -> HashTree<'a> {
+        self.refresh();
         match (left, right) {
             (None, None) => unsafe { Node::full_witness_tree(self.root, f) },
             (Some(l), None) => self.witness_range_above(l, f),
@@ -874,59 +876,73 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
                 }
             }
         }
+        self.refresh();
         unsafe { go(self.root, key, f) }
     }
 
     /// Inserts a key-value entry into the map.
     #[inline]
     pub fn insert(&mut self, key: K, value: V) -> (Option<V>, &mut V) {
-        struct GoResult<'a, K, V> {
+        let (old_value, node) = self.insert_node(key, value);
+        (old_value, unsafe { self.value_mut(node) })
+    }
+
+    /// Like [`insert`](Self::insert), but only returns the previous value.
+    #[inline]
+    pub(crate) fn replace(&mut self, key: K, value: V) -> Option<V> {
+        self.insert_node(key, value).0
+    }
+
+    /// Like [`insert`](Self::insert), but returns the node that holds the new value.
+    fn insert_node(&mut self, key: K, value: V) -> (Option<V>, *mut Node<K, V>) {
+        struct GoResult<K, V> {
             node: *mut Node<K, V>,
             old_value: Option<V>,
-            new_value_ref: &'a mut V,
+            value_node: *mut Node<K, V>,
         }
 
         unsafe fn go<K: 'static + Label, V: AsHashTree + 'static>(
             mut h: *mut Node<K, V>,
             k: K,
             mut v: V,
-        ) -> GoResult<'static, K, V> {
+        ) -> GoResult<K, V> {
             if h.is_null() {
                 let node = Node::new(k, v);
                 return GoResult {
                     node,
                     old_value: None,
-                    new_value_ref: &mut (*node).value,
+                    value_node: node,
                 };
             }
 
-            let (old_value, new_value_ref) = match k.cmp(&(*h).key) {
+            let (old_value, value_node) = match k.cmp(&(*h).key) {
                 Equal => {
                     std::mem::swap(&mut (*h).value, &mut v);
                     (*h).subtree_hash = Node::subtree_hash(h);
-                    (Some(v), &mut (*h).value)
+                    (Some(v), h)
                 }
                 Less => {
                     let res = go((*h).left, k, v);
                     (*h).left = res.node;
                     (*h).subtree_hash = Node::subtree_hash(h);
-                    (res.old_value, res.new_value_ref)
+                    (res.old_value, res.value_node)
                 }
                 Greater => {
                     let res = go((*h).right, k, v);
                     (*h).right = res.node;
                     (*h).subtree_hash = Node::subtree_hash(h);
-                    (res.old_value, res.new_value_ref)
+                    (res.old_value, res.value_node)
                 }
             };
 
             GoResult {
                 node: balance(h),
                 old_value,
-                new_value_ref,
+                value_node,
             }
         }
 
+        self.refresh();
         unsafe {
             let mut result = go(self.root, key, value);
             (*result.node).color = Color::Black;
@@ -945,7 +961,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             }
 
             self.root = result.node;
-            (result.old_value, result.new_value_ref)
+            (result.old_value, result.value_node)
         }
     }
 
@@ -1047,6 +1063,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             balance(h)
         }
 
+        self.refresh();
         unsafe {
             self.get(key)?;
             if !is_red((*self.root).left) && !is_red((*self.root).right) {
diff --git a/src/rbtree/entry.rs b/src/rbtree/entry.rs
index 216f42c..6bf8b97 100644
--- a/src/rbtree/entry.rs
+++ b/src/rbtree/entry.rs
@@ -63,7 +63,7 @@ impl<'a, K: 'static + Label, V: AsHashTree + 'static> OccupiedEntry<'a, K, V> {
     /// [`into_mut`]: OccupiedEntry::into_mut
     #[inline]
     pub fn get_mut(&mut self) -> &mut V {
-        unsafe { &mut (*self.node).value }
+        unsafe { self.map.value_mut(self.node) }
     }
 
     /// Converts the entry into a mutable reference to its value.
@@ -73,7 +73,7 @@ impl<'a, K: 'static + Label, V: AsHashTree + 'static> OccupiedEntry<'a, K, V> {
     /// [`get_mut`]: OccupiedEntry::get_mut
     #[inline]
     pub fn into_mut(self) -> &'a mut V {
-        unsafe { &mut (*self.node).value }
+        unsafe { self.map.value_mut(self.node) }
     }
 
     /// Gets a reference to the key in the entry.
-- 
2.43.0


From 2169975b8904f6c65afc734de3250ed2d6d9d91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 3/5] fix: keep the hash of a Seq in step with its items while
 extending it

Seq::extend pushed all the items first and hashed them afterwards, so an
iterator (or a root_hash) that panics half way left items in the sequence
that its hash does not cover, now or after any later append.
---
 src/collections/seq.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collections/seq.rs b/src/collections/seq.rs
index d7ce6f9..5c38b1c 100644
--- a/src/collections/seq.rs
+++ b/src/collections/seq.rs
@@ -195,18 +195,18 @@ impl<T: AsHashTree> Borrow<[T]> for Seq<T> {
 impl<'a, T: AsHashTree + Copy + 'a> Extend<&'a T> for Seq<T> {
     #[inline]
     fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
-        let prev_len = self.items.len();
-        self.items.extend(iter);
-        self.recompute_hash(prev_len)
+        for item in iter {
+            self.append(*item);
+        }
     }
 }
 
 impl<T: AsHashTree> Extend<T> for Seq<T> {
     #[inline]
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let prev_len = self.items.len();
-        self.items.extend(iter);
-        self.recompute_hash(prev_len)
+        for item in iter {
+            self.append(item);
+        }
     }
 }
 
-- 
2.43.0


From 90096c7c5dc3761bc0dc8966e12cd416e929caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 4/5] fix: prove all keys of a prefix when several keys borrow
 as that prefix

RbTree::keys_with_prefix started at lower_bound(prefix). When more than one
key borrows as the prefix (as with the default Prefix::is_prefix) that is
whichever of them is found first, and the ones before it were pruned.
---
 src/rbtree.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index 9114641..3d1cc3e 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -576,7 +576,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         P: Ord,
     {
         self.range_witness(
-            self.lower_bound(prefix),
+            self.left_prefix_neighbor(prefix),
             self.right_prefix_neighbor(prefix),
             Node::witness_tree,
         )
@@ -804,6 +804,32 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         unsafe { go(self.root, key) }
     }
 
+    fn left_prefix_neighbor<P: ?Sized>(&self, prefix: &P) -> Option<KeyBound<'_, K>>
+    where
+        K: Prefix<P>,
+        P: Ord,
+    {
+        unsafe fn go<'a, K: 'static + Label, V, P: ?Sized>(
+            n: *mut Node<K, V>,
+            prefix: &P,
+        ) -> Option<KeyBound<'a, K>>
+        where
+            K: Prefix<P>,
+            P: Ord,
+        {
+            if n.is_null() {
+                return None;
+            }
+            let node_key = &(*n).key;
+            let key_prefix = node_key.borrow();
+            match key_prefix.cmp(prefix) {
+                Less => go((*n).right, prefix).or(Some(KeyBound::Neighbor(node_key))),
+                Equal | Greater => go((*n).left, prefix),
+            }
+        }
+        unsafe { go(self.root, prefix) }
+    }
+
     fn right_prefix_neighbor<P: ?Sized>(&self, prefix: &P) -> Option<KeyBound<'_, K>>
     where
         K: Prefix<P>,
-- 
2.43.0


From ff63e25275122c403f3f6a4cec72d2712238fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 5/5] fix: do not wrap page numbers above u32::MAX

Paged::get and Paged::witness truncated the page number to 32 bits, so
page 2^32 returned (and proved) page 0 of the key.
---
 src/collections/paged.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/collections/paged.rs b/src/collections/paged.rs
index c888db2..de5ab62 100644
--- a/src/collections/paged.rs
+++ b/src/collections/paged.rs
@@ -3,6 +3,7 @@ use crate::{AsHashTree, Hash, HashTree, Map, Seq};
 use candid::CandidType;
 use serde::{Deserialize, Serialize};
 use std::borrow::{Borrow, Cow};
+use std::convert::TryFrom;
 
 #[derive(CandidType, Serialize, Deserialize, Debug)]
 pub struct Paged<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> {
@@ -92,7 +93,7 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     }
 
     pub fn get(&self, key: &K, page: usize) -> Option<&Seq<V>> {
-        let page = page as u32;
+        let page = u32::try_from(page).ok()?;
         let key = (key, page);
         self.data.inner.get_with(|k| key.cmp(&(&k.key, k.page)))
     }
@@ -104,7 +105,8 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     {
         let key = PagedKey {
             key: key.clone(),
-            page: page as u32,
+            // A page past the last possible one can only be absent.
+            page: u32::try_from(page).unwrap_or(u32::MAX),
         };
         self.data.witness(&key)
     }
-- 
2.43.0

