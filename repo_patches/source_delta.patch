From 7b6a443ddba7f1c12fffafe6b5fabae641f6626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 01/15] fix: scan_prefix yielded wrong keys when the prefix
 ends exactly at a node

---
 src/node/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index e5cfeb0..17d19f6 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1994,7 +1994,9 @@ fn scan_prefix<S: BlobStore + Clone>(
     find(&store, tree, prefix, |r| {
         Ok(match r {
             FindResult::Found(tree) => {
-                let prefix = IterKey::new(prefix);
+                // the iterator appends the prefix of the tree, so it must not be part of the start path
+                let n = prefix.len() - tree.load_prefix(&store)?.len();
+                let prefix = IterKey::new(&prefix[..n]);
                 let tree: TreeNode<S> = tree.to_owned();
                 KeyValueIter::new(TreeNodeIter::from_arc(Arc::new(vec![tree])), store1, prefix)
             }
-- 
2.43.0


From 7cbb74d5f4beaec7b0fab6ccaf7ea98b8d002ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 02/15] fix: retain_prefix_with dropped entries below a prefix
 rejected by the predicate

Entries that match a longer prefix of `that` accepted by the predicate must be kept.
---
 src/node/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 17d19f6..50dcb09 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -2796,14 +2796,11 @@ where
         }
     } else if n == bp.len() {
         // that is a prefix of self
-        if b.value_opt().is_none() {
+        if b.value_opt().is_none() || !f(&b.value_opt().unwrap())? {
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
             retain_prefix_children_with(ac, ab, bc, bb, f)?;
-        } else if !f(&b.value_opt().unwrap())? {
-            a.set_value_slice(None);
-            a.set_children_arc_opt(None);
         }
     } else if n == ap.len() {
         // self is a prefix of that
-- 
2.43.0


From 328b3a201a3fc3029dd633821c79c36b729aa49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 03/15] fix: canonicalize leaked empty child vecs and broke on
 partially loaded trees

Empty child vecs are now dropped and represented as none, and prefixes that are only
available as an id are loaded before they are merged.
---
 src/node/mod.rs | 67 +++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 50dcb09..c072d74 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -890,18 +890,16 @@ impl<S: BlobStore> TreeNode<S> {
         Ok(())
     }
 
-    fn canonicalize(&mut self) {
-        debug_assert!(self.children_hdr.is_data() || self.children_hdr.is_none());
+    fn canonicalize(&mut self, store: &S) -> Result<(), S::Error> {
+        // children that are not loaded have not been touched, so they are still canonical
         let cc = self.child_count();
         if !self.has_value() && cc == 1 {
+            let mut prefix = self.load_prefix(store)?.to_vec();
             let children = self.get_children_mut().expect("children must be loaded");
             let children = Arc::make_mut(children);
-            let mut child = children.pop().unwrap();
-            debug_assert!(!self.prefix_ref().is_id(), "prefix must be loaded");
-            debug_assert!(!child.prefix_ref().is_id(), "child prefix must be loaded");
             // combine the prefix again
-            let mut prefix = self.prefix_ref().slice().to_vec();
-            prefix.extend_from_slice(child.prefix_ref().slice());
+            prefix.extend_from_slice(&children[0].load_prefix(store)?);
+            let mut child = children.pop().unwrap();
             self.set_prefix_slice(&prefix);
             // take value from child
             std::mem::swap(&mut self.value_hdr, &mut child.value_hdr);
@@ -910,11 +908,14 @@ impl<S: BlobStore> TreeNode<S> {
             std::mem::swap(&mut self.children_hdr, &mut child.children_hdr);
             std::mem::swap(&mut self.children, &mut child.children);
         }
-        if !self.has_value() && self.child_count() == 0 {
-            self.set_prefix_owned(OwnedBlobRef::EMPTY);
-            self.children_hdr = Header::NONE;
-            self.children = ChildrenRef::EMPTY;
+        if self.child_count() == 0 {
+            // an empty vec of children is always represented as none
+            self.set_children_arc_opt(None);
+            if !self.has_value() {
+                self.set_prefix_owned(OwnedBlobRef::EMPTY);
+            }
         }
+        Ok(())
     }
 
     fn load_prefix(&self, store: &S) -> Result<Blob<'_>, S::Error> {
@@ -2075,7 +2076,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2155,13 +2156,13 @@ where
         }
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        outer_combine_children_with(ac, ab, bc, bb, c, f)?;
+        outer_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else if n == ap.len() {
         // a is a prefix of b
         // value is value of a
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        outer_combine_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, c, f)?;
+        outer_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
     } else {
         // the two nodes are disjoint
         a.split(&ab, n)?;
@@ -2169,7 +2170,7 @@ where
         ac.push(c.convert_node_shortened(b, &bb, n)?);
         ac.sort_by_key(|x| x.first_prefix_byte());
     }
-    a.canonicalize();
+    a.canonicalize(&ab)?;
     Ok(())
 }
 
@@ -2281,7 +2282,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2423,26 +2424,26 @@ where
         }
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        inner_combine_children_with(ac, ab, bc, bb, c, f)?;
+        inner_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else if n == ap.len() {
         // a is a prefix of b
         // value is none
         a.set_value_slice(None);
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        inner_combine_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, c, f)?;
+        inner_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
     } else if n == bp.len() {
         // b is a prefix of b
         a.split(&ab, n)?;
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        inner_combine_children_with(ac, ab, bc, bb, c, f)?;
+        inner_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else {
         // the two nodes are disjoint
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
+    a.canonicalize(&ab)?;
     Ok(())
 }
 
@@ -2547,7 +2548,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2702,22 +2703,22 @@ where
         }
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        left_combine_children_with(ac, ab, bc, bb, c, f)?;
+        left_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else if n == ap.len() {
         // a is a prefix of b
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        left_combine_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, c, f)?;
+        left_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
     } else if n == bp.len() {
         // b is a prefix of a
         a.split(&ab, n)?;
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        left_combine_children_with(ac, ab, bc, bb, c, f)?;
+        left_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else {
         // the two nodes are disjoint
     }
-    a.canonicalize();
+    a.canonicalize(&ab)?;
     Ok(())
 }
 
@@ -2792,7 +2793,7 @@ where
             a.set_value_slice(None);
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            retain_prefix_children_with(ac, ab, bc, bb, f)?;
+            retain_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == bp.len() {
         // that is a prefix of self
@@ -2800,20 +2801,20 @@ where
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            retain_prefix_children_with(ac, ab, bc, bb, f)?;
+            retain_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == ap.len() {
         // self is a prefix of that
         a.set_value_slice(None);
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        retain_prefix_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, f)?;
+        retain_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)?;
     } else {
         // disjoint, nuke it
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
+    a.canonicalize(&ab)?;
     Ok(())
 }
 
@@ -2892,7 +2893,7 @@ where
             // recurse
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            remove_prefix_children_with(ac, ab, bc, bb, f)?;
+            remove_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == bp.len() {
         // that is a prefix of self
@@ -2905,17 +2906,17 @@ where
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            remove_prefix_children_with(ac, ab, bc, bb, f)?;
+            remove_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == ap.len() {
         // self is a prefix of that
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        remove_prefix_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, f)?;
+        remove_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)?;
     } else {
         // disjoint, nothing to do
     }
-    a.canonicalize();
+    a.canonicalize(&ab)?;
     Ok(())
 }
 
-- 
2.43.0


From 69769251dcb32b575ed4715bd3751a85aa0067be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 04/15] fix: operations on attached trees panicked with todo!()
 on unloaded nodes and values

---
 src/node/mod.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index c072d74..214e9ac 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -478,14 +478,19 @@ impl<'a, S: BlobStore> ValueRef<'a, S> {
         }
     }
 
-    fn detached(&self, _store: &S) -> Result<Value, S::Error>
+    fn detached(&self, store: &S) -> Result<Value, S::Error>
     where
         S: BlobStore,
     {
-        if !self.is_id() {
+        if !self.is_id() || self.is_none() {
             Ok(unsafe { std::mem::transmute(self.to_owned()) })
         } else {
-            todo!()
+            let data = store.read(self.slice())?;
+            Ok(Value {
+                hdr: Header::data(data.len()),
+                data: CompactOwnedBlob::copy_from_slice(&data),
+                p: PhantomData,
+            })
         }
     }
 
@@ -1424,7 +1429,7 @@ impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
     fn clone_shortened(&self, store: &S, n: usize) -> Result<TreeNode<S>, S::Error> {
         match self.dispatch() {
             Ok(owned) => owned.clone_shortened(store, n),
-            Err(_borrowed) => todo!(),
+            Err(borrowed) => borrowed.to_owned().clone_shortened(store, n),
         }
     }
 }
@@ -1857,16 +1862,28 @@ impl<S: BlobStore> BorrowedTreeNodeIter<S> {
     }
 
     #[allow(clippy::wrong_self_convention)]
-    fn to_owned(self) -> Option<Arc<Vec<TreeNode<S>>>> {
-        if self.is_empty() {
+    fn to_owned(mut self) -> Option<Arc<Vec<TreeNode<S>>>> {
+        let mut res = Vec::new();
+        while let Some(x) = self.next() {
+            res.push(x.to_owned());
+        }
+        if res.is_empty() {
             None
         } else {
-            todo!()
+            Some(Arc::new(res))
         }
     }
 
-    fn detached(self, _store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
-        Ok(if self.is_empty() { None } else { todo!() })
+    fn detached(mut self, store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
+        let mut res = Vec::new();
+        while let Some(x) = self.next() {
+            res.push(x.detached(store)?);
+        }
+        Ok(if res.is_empty() {
+            None
+        } else {
+            Some(Arc::new(res))
+        })
     }
 
     fn is_empty(&self) -> bool {
-- 
2.43.0


From 8ee583c3595d0b33080725b571a9b5e48eb6e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 05/15] fix: a tree with an empty value compared equal to a
 tree without a value

---
 src/node/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 214e9ac..f0342b2 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -674,6 +674,7 @@ pub struct TreeNode<S> {
 impl PartialEq for TreeNode<Detached> {
     fn eq(&self, other: &Self) -> bool {
         self.prefix_ref().slice() == other.prefix_ref().slice()
+            && self.has_value() == other.has_value()
             && self.value_ref().slice() == other.value_ref().slice()
             && self.get_children() == other.get_children()
     }
-- 
2.43.0


From a69e948a9717b0835c9e87e92b2bf12f9e7842d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 06/15] fix: has_prefix of the empty prefix was true for the
 empty tree

---
 src/node/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index f0342b2..2662a05 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -821,10 +821,10 @@ impl<S: BlobStore> TreeNode<S> {
 
     /// True if key is contained in this set
     fn has_prefix(&self, prefix: &[u8], store: &S) -> Result<bool, S::Error> {
-        // if we find a tree at exactly the location, and it has a value, we have a hit
+        // if we find a tree at or below the location, we have a hit, unless it is the empty tree
         find(store, &TreeNodeRef(Ok(self)), prefix, |r| {
             Ok(match r {
-                FindResult::Found(_) => true,
+                FindResult::Found(_) => !self.is_empty(),
                 FindResult::Prefix { .. } => true,
                 FindResult::NotFound => false,
             })
-- 
2.43.0


From d2c299912b0791e739659dcfab25f474b4e29bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 07/15] fix: filter_prefix on the empty tree returned a
 malformed tree

---
 src/node/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 2662a05..8131c46 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1503,6 +1503,8 @@ fn filter_prefix<S: BlobStore>(
             FindResult::Found(res) => {
                 let mut res = res.to_owned();
                 res.set_prefix_slice(substitution);
+                // the empty tree must stay empty
+                res.canonicalize(store)?;
                 res
             }
             FindResult::Prefix { tree, matching } => {
-- 
2.43.0


From e41fea5129e6800e3435c892b470d0be9e1dfdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 08/15] fix: malformed node headers are rejected instead of
 causing a panic

---
 src/node/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 8131c46..ca7b608 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1306,6 +1306,9 @@ impl<'a, S: BlobStore> BorrowedTreeNode<'a, S> {
         if rest.len() < len {
             return None;
         }
+        if prefix_hdr.is_none() {
+            return None;
+        }
         let (prefix, rest) = (&rest[0], &rest[len..]);
 
         let value_hdr = Header::from(*rest.first()?);
@@ -1320,6 +1323,9 @@ impl<'a, S: BlobStore> BorrowedTreeNode<'a, S> {
         if rest.len() < len {
             return None;
         }
+        if !children_hdr.is_id() {
+            return None;
+        }
         let (children, rest) = (&rest[0], &rest[len..]);
 
         Some((
-- 
2.43.0


From b74dbec52fb8ad406a57a7254a5d6290b6401d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 09/15] fix: PagedFileStore::read panicked on ids that were
 never handed out

---
 src/store/paged_file_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 74cf1a9..098eb36 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -198,6 +198,7 @@ impl Inner {
     }
 
     fn bytes(&mut self, offset: u64) -> anyhow::Result<OwnedBlob> {
+        anyhow::ensure!(offset >= 4 && offset <= self.last_id, "unknown id");
         let last_page = page(self.last_id, self.page_size);
         let page = page(offset - 1, self.page_size);
         let page_offset = offset_within_page(offset, self.page_size);
@@ -274,7 +275,7 @@ impl BlobStore for PagedFileStore {
     type Error = anyhow::Error;
 
     fn read(&self, id: &[u8]) -> anyhow::Result<OwnedBlob> {
-        let offset = u64::from_be_bytes(id.try_into().unwrap());
+        let offset = u64::from_be_bytes(id.try_into()?);
         self.0.lock().bytes(offset)
     }
 
-- 
2.43.0


From 3719cb4c210d6be47cc7203d25ab982b0804c58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 10/15] fix: PagedFileStore::sync did not persist anything

---
 src/store/paged_file_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 098eb36..7b307bb 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -285,6 +285,7 @@ impl BlobStore for PagedFileStore {
     }
 
     fn sync(&self) -> anyhow::Result<()> {
+        self.0.lock().file.sync_all()?;
         Ok(())
     }
 }
-- 
2.43.0


From fb1c173e2e9befcaae588206f4840997a352d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:55 +0000
Subject: [PATCH 11/15] fix: refuse blobs whose length does not fit the length
 field of the paged file store

---
 src/store/paged_file_store.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 7b307bb..1edee26 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -229,6 +229,10 @@ impl Inner {
             data.len() <= (self.page_size as usize) - 8,
             "block too large for this store"
         );
+        anyhow::ensure!(
+            data.len() <= u32::MAX as usize,
+            "block too large for this store"
+        );
         // len of the data when stored, including length prefix
         let len = data.len() as u64 + 4;
         let position = self.file.seek(SeekFrom::End(0))?;
-- 
2.43.0


From 0d64f29776c026113750433183f84fffdf4be876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:12 +0000
Subject: [PATCH 12/15] fix: first/last value and entry of a tree with
 unreadable child lists panicked

---
 src/node/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index ca7b608..f49a777 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1535,7 +1535,10 @@ fn first_value<S: BlobStore>(
     Ok(match node.value_opt() {
         Some(value) => Some(value.to_owned()),
         None => match node.load_children(store)? {
-            Some(mut children) => first_value(&children.next().unwrap(), store)?,
+            Some(mut children) => match children.next() {
+                Some(child) => first_value(&child, store)?,
+                None => None,
+            },
             None => None,
         },
     })
@@ -1547,7 +1550,10 @@ fn last_value<S: BlobStore>(
     store: &S,
 ) -> Result<Option<Value<S>>, S::Error> {
     Ok(match node.load_children(store)? {
-        Some(mut children) => last_value(&children.last().unwrap(), store)?,
+        Some(mut children) => match children.last() {
+            Some(child) => last_value(&child, store)?,
+            None => node.value_opt().map(|x| x.to_owned()),
+        },
         None => node.value_opt().map(|x| x.to_owned()),
     })
 }
@@ -1562,7 +1568,10 @@ fn first_entry<S: BlobStore>(
     Ok(match node.value_opt() {
         Some(value) => Some((prefix, value.to_owned())),
         None => match node.load_children(store)? {
-            Some(mut children) => first_entry(prefix, &children.next().unwrap(), store)?,
+            Some(mut children) => match children.next() {
+                Some(child) => first_entry(prefix, &child, store)?,
+                None => None,
+            },
             None => None,
         },
     })
@@ -1576,7 +1585,10 @@ fn last_entry<S: BlobStore>(
 ) -> Result<Option<(Vec<u8>, Value<S>)>, S::Error> {
     prefix.extend_from_slice(&node.load_prefix(store)?);
     Ok(match node.load_children(store)? {
-        Some(mut children) => last_entry(prefix, &children.last().unwrap(), store)?,
+        Some(mut children) => match children.last() {
+            Some(child) => last_entry(prefix, &child, store)?,
+            None => node.value_opt().map(|x| (prefix, x.to_owned())),
+        },
         None => node.value_opt().map(|x| (prefix, x.to_owned())),
     })
 }
-- 
2.43.0


From 8e0a6ca9f55617165b838128954d971f713602c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:12 +0000
Subject: [PATCH 13/15] fix: in-place operations lost entries of the target
 when a store access or the merge function failed

---
 src/node/mod.rs | 83 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 24 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index f49a777..f4f2c75 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -2178,6 +2178,7 @@ where
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
     if n == bp.len() {
+        let bc = b.load_children(&bb)?;
         // ensure that prefixes are identical even if ap.len() > n
         if n != ap.len() {
             a.split(&ab, n)?;
@@ -2185,27 +2186,28 @@ where
         // prefixes are now identical
         if let Some(bv) = b.value_opt() {
             if let Some(mut av) = a.take_value_opt() {
-                f(&mut av, &bv)?;
+                let res = f(&mut av, &bv);
                 a.set_value_owned(av.as_value_ref().0);
+                res?;
             } else {
                 let av = c.convert_value(&bv, &bb)?;
                 a.set_value_owned(av.as_value_ref().0);
             }
         }
         let ac = a.load_children_mut(&ab)?;
-        let bc = b.load_children(&bb)?;
         outer_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else if n == ap.len() {
         // a is a prefix of b
         // value is value of a
-        let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
+        let ac = a.load_children_mut(&ab)?;
         outer_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
     } else {
         // the two nodes are disjoint
+        let bn = c.convert_node_shortened(b, &bb, n)?;
         a.split(&ab, n)?;
         let ac = a.load_children_mut(&ab)?;
-        ac.push(c.convert_node_shortened(b, &bb, n)?);
+        ac.push(bn);
         ac.sort_by_key(|x| x.first_prefix_byte());
     }
     a.canonicalize(&ab)?;
@@ -2245,7 +2247,12 @@ where
                     // the .unwrap() are safe because cmp guarantees that there is a value on both sides
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
-                    outer_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f)?;
+                    let res = outer_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f);
+                    if res.is_err() {
+                        // keep the remaining children
+                        acb.consume(usize::MAX, true);
+                        return res;
+                    }
                     // only move if the child is non-empty
                     let non_empty = !ac.is_empty();
                     acb.consume(1, non_empty);
@@ -2253,8 +2260,14 @@ where
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
                     let b = bci.next().unwrap();
-                    let a = c.convert_node(&b, &bb)?;
-                    acb.push(a);
+                    match c.convert_node(&b, &bb) {
+                        Ok(a) => acb.push(a),
+                        Err(cause) => {
+                            // keep the remaining children
+                            acb.consume(usize::MAX, true);
+                            return Err(cause.into());
+                        }
+                    }
                 }
             }
         }
@@ -2456,25 +2469,26 @@ where
     let n = common_prefix(ap.as_ref(), bp.as_ref());
     if n == ap.len() && n == bp.len() {
         // prefixes are now identical
+        let bc = b.load_children(&bb)?;
         if let (Some(mut av), Some(bv)) = (a.take_value_opt(), b.value_opt()) {
-            f(&mut av, &bv)?;
+            let res = f(&mut av, &bv);
             a.set_value_owned(av.as_value_ref().0);
+            res?;
         }
         let ac = a.load_children_mut(&ab)?;
-        let bc = b.load_children(&bb)?;
         inner_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else if n == ap.len() {
         // a is a prefix of b
         // value is none
+        let bc = [b.clone_shortened(&bb, n)?];
         a.set_value_slice(None);
         let ac = a.load_children_mut(&ab)?;
-        let bc = [b.clone_shortened(&bb, n)?];
         inner_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
     } else if n == bp.len() {
         // b is a prefix of b
+        let bc = b.load_children(&bb)?;
         a.split(&ab, n)?;
         let ac = a.load_children_mut(&ab)?;
-        let bc = b.load_children(&bb)?;
         inner_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else {
         // the two nodes are disjoint
@@ -2515,7 +2529,12 @@ where
                     // the .unwrap() are safe because cmp guarantees that there is a value on both sides
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
-                    inner_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f)?;
+                    let res = inner_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f);
+                    if res.is_err() {
+                        // keep the remaining children
+                        acb.consume(usize::MAX, true);
+                        return res;
+                    }
                     // only move if the child is non-empty
                     let non_empty = !ac.is_empty();
                     acb.consume(1, non_empty);
@@ -2733,25 +2752,26 @@ where
     let n = common_prefix(ap.as_ref(), bp.as_ref());
     if n == ap.len() && n == bp.len() {
         // prefixes are now identical
+        let bc = b.load_children(&bb)?;
         if let Some(bv) = b.value_opt() {
             if let Some(mut av) = a.take_value_opt() {
-                f(&mut av, &bv)?;
+                let res = f(&mut av, &bv);
                 a.set_value_owned(av.as_value_ref().0);
+                res?;
             }
         }
         let ac = a.load_children_mut(&ab)?;
-        let bc = b.load_children(&bb)?;
         left_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else if n == ap.len() {
         // a is a prefix of b
-        let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
+        let ac = a.load_children_mut(&ab)?;
         left_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
     } else if n == bp.len() {
         // b is a prefix of a
+        let bc = b.load_children(&bb)?;
         a.split(&ab, n)?;
         let ac = a.load_children_mut(&ab)?;
-        let bc = b.load_children(&bb)?;
         left_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else {
         // the two nodes are disjoint
@@ -2790,7 +2810,12 @@ where
                     // the .unwrap() are safe because cmp guarantees that there is a value on both sides
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
-                    left_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f)?;
+                    let res = left_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f);
+                    if res.is_err() {
+                        // keep the remaining children
+                        acb.consume(usize::MAX, true);
+                        return res;
+                    }
                     // only move if the child is non-empty
                     let non_empty = !ac.is_empty();
                     acb.consume(1, non_empty);
@@ -2828,24 +2853,24 @@ where
     if n == ap.len() && n == bp.len() {
         // prefixes are identical
         if b.value_opt().is_none() || !f(&b.value_opt().unwrap())? {
+            let bc = b.load_children(&bb)?;
             a.set_value_slice(None);
             let ac = a.load_children_mut(&ab)?;
-            let bc = b.load_children(&bb)?;
             retain_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == bp.len() {
         // that is a prefix of self
         if b.value_opt().is_none() || !f(&b.value_opt().unwrap())? {
+            let bc = b.load_children(&bb)?;
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
-            let bc = b.load_children(&bb)?;
             retain_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == ap.len() {
         // self is a prefix of that
+        let bc = [b.clone_shortened(&bb, n)?];
         a.set_value_slice(None);
         let ac = a.load_children_mut(&ab)?;
-        let bc = [b.clone_shortened(&bb, n)?];
         retain_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)?;
     } else {
         // disjoint, nuke it
@@ -2884,7 +2909,12 @@ where
                     // the .unwrap() are safe because cmp guarantees that there is a value on both sides
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
-                    retain_prefix_with(ac, ab.clone(), &bc, bb.clone(), f)?;
+                    let res = retain_prefix_with(ac, ab.clone(), &bc, bb.clone(), f);
+                    if res.is_err() {
+                        // keep the remaining children
+                        acb.consume(usize::MAX, true);
+                        return res;
+                    }
                     // only move if the child is non-empty
                     let non_empty = !ac.is_empty();
                     acb.consume(1, non_empty);
@@ -2941,15 +2971,15 @@ where
             a.set_children_arc_opt(None);
         } else {
             // recurse
+            let bc = b.load_children(&bb)?;
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
-            let bc = b.load_children(&bb)?;
             remove_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == ap.len() {
         // self is a prefix of that
-        let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
+        let ac = a.load_children_mut(&ab)?;
         remove_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)?;
     } else {
         // disjoint, nothing to do
@@ -2986,7 +3016,12 @@ where
                     // the .unwrap() are safe because cmp guarantees that there is a value on both sides
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
-                    remove_prefix_with(ac, ab.clone(), &bc, bb.clone(), f)?;
+                    let res = remove_prefix_with(ac, ab.clone(), &bc, bb.clone(), f);
+                    if res.is_err() {
+                        // keep the remaining children
+                        acb.consume(usize::MAX, true);
+                        return res;
+                    }
                     // only move if the child is non-empty
                     let non_empty = !ac.is_empty();
                     acb.consume(1, non_empty);
-- 
2.43.0


From d3aad895b72f46ac775b30617edbca24124f3958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:57 +0000
Subject: [PATCH 14/15] fix: a failed in-place operation left the target in a
 state other operations could not handle

---
 src/node/mod.rs | 139 +++++++++++++++++++++++++++++-------------------
 1 file changed, 83 insertions(+), 56 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index f4f2c75..0afa942 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -2177,31 +2177,36 @@ where
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
-    if n == bp.len() {
+    let res = if n == bp.len() {
         let bc = b.load_children(&bb)?;
         // ensure that prefixes are identical even if ap.len() > n
         if n != ap.len() {
             a.split(&ab, n)?;
         }
         // prefixes are now identical
+        let mut res = Ok(());
         if let Some(bv) = b.value_opt() {
             if let Some(mut av) = a.take_value_opt() {
-                let res = f(&mut av, &bv);
+                res = f(&mut av, &bv);
                 a.set_value_owned(av.as_value_ref().0);
-                res?;
             } else {
-                let av = c.convert_value(&bv, &bb)?;
-                a.set_value_owned(av.as_value_ref().0);
+                match c.convert_value(&bv, &bb) {
+                    Ok(av) => a.set_value_owned(av.as_value_ref().0),
+                    Err(cause) => res = Err(cause.into()),
+                }
             }
         }
-        let ac = a.load_children_mut(&ab)?;
-        outer_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
+        if res.is_ok() {
+            let ac = a.load_children_mut(&ab)?;
+            res = outer_combine_children_with(ac, ab.clone(), bc, bb, c, f);
+        }
+        res
     } else if n == ap.len() {
         // a is a prefix of b
         // value is value of a
         let bc = [b.clone_shortened(&bb, n)?];
         let ac = a.load_children_mut(&ab)?;
-        outer_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
+        outer_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)
     } else {
         // the two nodes are disjoint
         let bn = c.convert_node_shortened(b, &bb, n)?;
@@ -2209,9 +2214,11 @@ where
         let ac = a.load_children_mut(&ab)?;
         ac.push(bn);
         ac.sort_by_key(|x| x.first_prefix_byte());
-    }
+        Ok(())
+    };
+    // also if something failed half way
     a.canonicalize(&ab)?;
-    Ok(())
+    res
 }
 
 fn outer_combine_children_with<'a, A, B, C, F>(
@@ -2248,14 +2255,14 @@ where
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
                     let res = outer_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f);
+                    // only move if the child is non-empty
+                    let non_empty = !ac.is_empty();
+                    acb.consume(1, non_empty);
                     if res.is_err() {
                         // keep the remaining children
                         acb.consume(usize::MAX, true);
                         return res;
                     }
-                    // only move if the child is non-empty
-                    let non_empty = !ac.is_empty();
-                    acb.consume(1, non_empty);
                 }
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
@@ -2467,36 +2474,41 @@ where
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
-    if n == ap.len() && n == bp.len() {
+    let res = if n == ap.len() && n == bp.len() {
         // prefixes are now identical
         let bc = b.load_children(&bb)?;
+        let mut res = Ok(());
         if let (Some(mut av), Some(bv)) = (a.take_value_opt(), b.value_opt()) {
-            let res = f(&mut av, &bv);
+            res = f(&mut av, &bv);
             a.set_value_owned(av.as_value_ref().0);
-            res?;
         }
-        let ac = a.load_children_mut(&ab)?;
-        inner_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
+        if res.is_ok() {
+            let ac = a.load_children_mut(&ab)?;
+            res = inner_combine_children_with(ac, ab.clone(), bc, bb, c, f);
+        }
+        res
     } else if n == ap.len() {
         // a is a prefix of b
         // value is none
         let bc = [b.clone_shortened(&bb, n)?];
         a.set_value_slice(None);
         let ac = a.load_children_mut(&ab)?;
-        inner_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
+        inner_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)
     } else if n == bp.len() {
         // b is a prefix of b
         let bc = b.load_children(&bb)?;
         a.split(&ab, n)?;
         let ac = a.load_children_mut(&ab)?;
-        inner_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
+        inner_combine_children_with(ac, ab.clone(), bc, bb, c, f)
     } else {
         // the two nodes are disjoint
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
-    }
+        Ok(())
+    };
+    // also if something failed half way
     a.canonicalize(&ab)?;
-    Ok(())
+    res
 }
 
 fn inner_combine_children_with<'a, A, B, C, F>(
@@ -2530,14 +2542,14 @@ where
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
                     let res = inner_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f);
+                    // only move if the child is non-empty
+                    let non_empty = !ac.is_empty();
+                    acb.consume(1, non_empty);
                     if res.is_err() {
                         // keep the remaining children
                         acb.consume(usize::MAX, true);
                         return res;
                     }
-                    // only move if the child is non-empty
-                    let non_empty = !ac.is_empty();
-                    acb.consume(1, non_empty);
                 }
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
@@ -2750,34 +2762,39 @@ where
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
-    if n == ap.len() && n == bp.len() {
+    let res = if n == ap.len() && n == bp.len() {
         // prefixes are now identical
         let bc = b.load_children(&bb)?;
+        let mut res = Ok(());
         if let Some(bv) = b.value_opt() {
             if let Some(mut av) = a.take_value_opt() {
-                let res = f(&mut av, &bv);
+                res = f(&mut av, &bv);
                 a.set_value_owned(av.as_value_ref().0);
-                res?;
             }
         }
-        let ac = a.load_children_mut(&ab)?;
-        left_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
+        if res.is_ok() {
+            let ac = a.load_children_mut(&ab)?;
+            res = left_combine_children_with(ac, ab.clone(), bc, bb, c, f);
+        }
+        res
     } else if n == ap.len() {
         // a is a prefix of b
         let bc = [b.clone_shortened(&bb, n)?];
         let ac = a.load_children_mut(&ab)?;
-        left_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
+        left_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)
     } else if n == bp.len() {
         // b is a prefix of a
         let bc = b.load_children(&bb)?;
         a.split(&ab, n)?;
         let ac = a.load_children_mut(&ab)?;
-        left_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
+        left_combine_children_with(ac, ab.clone(), bc, bb, c, f)
     } else {
         // the two nodes are disjoint
-    }
+        Ok(())
+    };
+    // also if something failed half way
     a.canonicalize(&ab)?;
-    Ok(())
+    res
 }
 
 fn left_combine_children_with<'a, A, B, C, F>(
@@ -2811,14 +2828,14 @@ where
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
                     let res = left_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f);
+                    // only move if the child is non-empty
+                    let non_empty = !ac.is_empty();
+                    acb.consume(1, non_empty);
                     if res.is_err() {
                         // keep the remaining children
                         acb.consume(usize::MAX, true);
                         return res;
                     }
-                    // only move if the child is non-empty
-                    let non_empty = !ac.is_empty();
-                    acb.consume(1, non_empty);
                 }
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
@@ -2850,13 +2867,15 @@ where
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
-    if n == ap.len() && n == bp.len() {
+    let res = if n == ap.len() && n == bp.len() {
         // prefixes are identical
         if b.value_opt().is_none() || !f(&b.value_opt().unwrap())? {
             let bc = b.load_children(&bb)?;
             a.set_value_slice(None);
             let ac = a.load_children_mut(&ab)?;
-            retain_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
+            retain_prefix_children_with(ac, ab.clone(), bc, bb, f)
+        } else {
+            Ok(())
         }
     } else if n == bp.len() {
         // that is a prefix of self
@@ -2864,21 +2883,25 @@ where
             let bc = b.load_children(&bb)?;
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
-            retain_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
+            retain_prefix_children_with(ac, ab.clone(), bc, bb, f)
+        } else {
+            Ok(())
         }
     } else if n == ap.len() {
         // self is a prefix of that
         let bc = [b.clone_shortened(&bb, n)?];
         a.set_value_slice(None);
         let ac = a.load_children_mut(&ab)?;
-        retain_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)?;
+        retain_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)
     } else {
         // disjoint, nuke it
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
-    }
+        Ok(())
+    };
+    // also if something failed half way
     a.canonicalize(&ab)?;
-    Ok(())
+    res
 }
 
 fn retain_prefix_children_with<'a, A, B, F>(
@@ -2910,14 +2933,14 @@ where
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
                     let res = retain_prefix_with(ac, ab.clone(), &bc, bb.clone(), f);
+                    // only move if the child is non-empty
+                    let non_empty = !ac.is_empty();
+                    acb.consume(1, non_empty);
                     if res.is_err() {
                         // keep the remaining children
                         acb.consume(usize::MAX, true);
                         return res;
                     }
-                    // only move if the child is non-empty
-                    let non_empty = !ac.is_empty();
-                    acb.consume(1, non_empty);
                 }
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
@@ -2951,17 +2974,18 @@ where
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
-    if n == ap.len() && n == bp.len() {
+    let res = if n == ap.len() && n == bp.len() {
         // prefixes are identical
         if b.value_opt().is_some() && f(&b.value_opt().unwrap())? {
             // nuke it
             a.set_value_slice(None);
             a.set_children_arc_opt(None);
+            Ok(())
         } else {
             // recurse
-            let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            remove_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
+            let ac = a.load_children_mut(&ab)?;
+            remove_prefix_children_with(ac, ab.clone(), bc, bb, f)
         }
     } else if n == bp.len() {
         // that is a prefix of self
@@ -2969,23 +2993,26 @@ where
             // nuke it
             a.set_value_slice(None);
             a.set_children_arc_opt(None);
+            Ok(())
         } else {
             // recurse
             let bc = b.load_children(&bb)?;
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
-            remove_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
+            remove_prefix_children_with(ac, ab.clone(), bc, bb, f)
         }
     } else if n == ap.len() {
         // self is a prefix of that
         let bc = [b.clone_shortened(&bb, n)?];
         let ac = a.load_children_mut(&ab)?;
-        remove_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)?;
+        remove_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)
     } else {
         // disjoint, nothing to do
-    }
+        Ok(())
+    };
+    // also if something failed half way
     a.canonicalize(&ab)?;
-    Ok(())
+    res
 }
 
 fn remove_prefix_children_with<'a, A, B, F>(
@@ -3017,14 +3044,14 @@ where
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
                     let res = remove_prefix_with(ac, ab.clone(), &bc, bb.clone(), f);
+                    // only move if the child is non-empty
+                    let non_empty = !ac.is_empty();
+                    acb.consume(1, non_empty);
                     if res.is_err() {
                         // keep the remaining children
                         acb.consume(usize::MAX, true);
                         return res;
                     }
-                    // only move if the child is non-empty
-                    let non_empty = !ac.is_empty();
-                    acb.consume(1, non_empty);
                 }
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
-- 
2.43.0


From 0d0f8d45163a4c6a59193d50f6d584356f8f7f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:39 +0000
Subject: [PATCH 15/15] fix: Blob::slice refuses an excluded start of
 usize::MAX

---
 src/store/blob_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/blob_store.rs b/src/store/blob_store.rs
index d6f6092..fcd2feb 100644
--- a/src/store/blob_store.rs
+++ b/src/store/blob_store.rs
@@ -129,7 +129,7 @@ impl<'a> Blob<'a> {
 
         let begin = match range.start_bound() {
             Bound::Included(&n) => n,
-            Bound::Excluded(&n) => n + 1,
+            Bound::Excluded(&n) => n.checked_add(1).expect("out of range"),
             Bound::Unbounded => 0,
         };
 
-- 
2.43.0

