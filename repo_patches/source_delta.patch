From 660d17944be237d710d8de69c9c3e0953a864254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 1/3] fix: enumerate every key with a composite prefix in
 keys_with_prefix

Keys whose prefix is a leading component all compare equal to the prefix,
and the search for the lower bound stopped at the first one it met, hiding
the matching keys to its left.
---
 src/rbtree.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index 2345d59..0b91867 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -570,7 +570,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         P: Ord,
     {
         self.range_witness(
-            self.lower_bound(prefix),
+            self.left_prefix_neighbor(prefix),
             self.right_prefix_neighbor(prefix),
             Node::witness_tree,
         )
@@ -798,6 +798,36 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         unsafe { go(self.root, key) }
     }
 
+    /// The greatest key that is smaller than every key with the given prefix.
+    ///
+    /// Several keys may compare equal to the prefix, so unlike [`Self::lower_bound`] the search
+    /// continues to the left of a key that does.
+    fn left_prefix_neighbor<P: ?Sized>(&self, prefix: &P) -> Option<KeyBound<'_, K>>
+    where
+        K: Prefix<P>,
+        P: Ord,
+    {
+        unsafe fn go<'a, K: 'static + Label, V, P: ?Sized>(
+            n: *mut Node<K, V>,
+            prefix: &P,
+        ) -> Option<KeyBound<'a, K>>
+        where
+            K: Prefix<P>,
+            P: Ord,
+        {
+            if n.is_null() {
+                return None;
+            }
+            let node_key = &(*n).key;
+            let key_prefix: &P = node_key.borrow();
+            match key_prefix.cmp(prefix) {
+                Less => go((*n).right, prefix).or(Some(KeyBound::Neighbor(node_key))),
+                Equal | Greater => go((*n).left, prefix),
+            }
+        }
+        unsafe { go(self.root, prefix) }
+    }
+
     fn right_prefix_neighbor<P: ?Sized>(&self, prefix: &P) -> Option<KeyBound<'_, K>>
     where
         K: Prefix<P>,
-- 
2.43.0


From 3f63024e94c85c89e9cc30d3f605c83c9e2875a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 2/3] fix: keep the root hash up to date in Entry::and_modify

---
 src/rbtree/entry.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rbtree/entry.rs b/src/rbtree/entry.rs
index 216f42c..11f367d 100644
--- a/src/rbtree/entry.rs
+++ b/src/rbtree/entry.rs
@@ -104,8 +104,9 @@ impl<'a, K: 'static + Label, V: AsHashTree + 'static> Entry<'a, K, V> {
         F: FnOnce(&mut V),
     {
         match self {
-            Occupied(mut entry) => {
-                f(entry.get_mut());
+            Occupied(entry) => {
+                // Go through the tree, so that the hashes up to the root are updated.
+                entry.map.modify(&entry.key, f);
                 Occupied(entry)
             }
             Vacant(entry) => Vacant(entry),
-- 
2.43.0


From 3a2ac42bced844350ab76b498cfff1f4f07d4422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 3/3] fix: do not truncate page numbers in Paged::get and
 Paged::witness

---
 src/collections/paged.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/collections/paged.rs b/src/collections/paged.rs
index c888db2..70edda0 100644
--- a/src/collections/paged.rs
+++ b/src/collections/paged.rs
@@ -3,6 +3,7 @@ use crate::{AsHashTree, Hash, HashTree, Map, Seq};
 use candid::CandidType;
 use serde::{Deserialize, Serialize};
 use std::borrow::{Borrow, Cow};
+use std::convert::TryFrom;
 
 #[derive(CandidType, Serialize, Deserialize, Debug)]
 pub struct Paged<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> {
@@ -92,7 +93,7 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     }
 
     pub fn get(&self, key: &K, page: usize) -> Option<&Seq<V>> {
-        let page = page as u32;
+        let page = u32::try_from(page).ok()?;
         let key = (key, page);
         self.data.inner.get_with(|k| key.cmp(&(&k.key, k.page)))
     }
@@ -104,7 +105,8 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     {
         let key = PagedKey {
             key: key.clone(),
-            page: page as u32,
+            // No key has this many pages, so anything beyond is proven absent by the last number.
+            page: u32::try_from(page).unwrap_or(u32::MAX),
         };
         self.data.witness(&key)
     }
-- 
2.43.0

