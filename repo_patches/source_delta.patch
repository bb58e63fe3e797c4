From bcb725a65bbb666908882e05efb5f9e81639bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 01/18] Add read-only tree observation hook and narrow-node
 build, guarded by cfg librrb_verif*

---
 src/lib.rs         |  10 +++++
 src/verif_hooks.rs | 108 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 118 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 0968e58..2b8041f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -28,6 +28,7 @@
 //! operations are easier to be implement. The aim is that this translates to a faster data
 //! structure.
 #![deny(missing_docs)]
+#![allow(unexpected_cfgs)]
 #![cfg_attr(debug_assertions, allow(missing_docs))]
 #![cfg_attr(feature = "may_dangle", feature(dropck_eyepatch))]
 
@@ -41,6 +42,10 @@ mod sort;
 pub mod vector;
 pub mod focus;
 
+#[cfg(librrb_verif)]
+#[doc(hidden)]
+pub mod verif_hooks;
+
 #[doc(inline)]
 pub use vector::{InternalVector, Iter, IterMut};
 
@@ -51,8 +56,13 @@ use archery::{ArcK, RcK};
 use node_impls::basic::{Internal, Leaf};
 
 /// The width of the RRB tree nodes. The maximum number of elements in a leaf or internal node.
+#[cfg(not(librrb_verif_narrow))]
 pub const RRB_WIDTH: usize = 64;
 
+/// Narrow nodes, for runtime monitors: deep trees from small workloads.
+#[cfg(librrb_verif_narrow)]
+pub const RRB_WIDTH: usize = 8;
+
 /// Represents a side of a container.
 #[derive(Clone, Copy, Debug, PartialEq)]
 pub enum Side {
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..09eef8e
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,108 @@
+//! Read-only observation of the tree, for external runtime monitors.
+//!
+//! This module only exists in builds with `--cfg librrb_verif`.
+use crate::node_traits::{Entry, InternalTrait, LeafTrait, NodeRc, NodeRef};
+use crate::vector::InternalVector;
+use crate::Side;
+use std::ops::Range;
+
+/// What a monitor sees of one node.
+#[derive(Clone, Debug)]
+pub struct NodeInfo {
+    /// The spine position (`None` for the root and for nodes below a spine node or the root).
+    pub spine: Option<(Side, usize)>,
+    /// Number of edges below the spine node or root, 0 for these themselves.
+    pub depth: usize,
+    /// Identity of the node in memory.
+    pub addr: usize,
+    /// Whether this is a leaf.
+    pub leaf: bool,
+    /// Level the node reports.
+    pub level: usize,
+    /// Number of children or, for leaves, elements.
+    pub slots: usize,
+    /// Number of unused slots the node reports.
+    pub free_slots: usize,
+    /// Number of elements the node reports.
+    pub len: usize,
+    /// The children: identity, level, slots and length of each and the range its parent assigns.
+    pub children: Vec<(usize, usize, usize, usize, Range<usize>)>,
+}
+
+/// Visits the nodes of the vector in order, parents before children. The visitor returns whether
+/// to descend into the node.
+pub fn visit<Internal: InternalTrait>(
+    vector: &InternalVector<Internal>,
+    visitor: &mut dyn FnMut(&NodeInfo) -> bool,
+) {
+    for (spine, node) in vector.spine_iter() {
+        match node {
+            NodeRc::Leaf(leaf) => visit_leaf::<Internal>(leaf, spine, 0, visitor),
+            NodeRc::Internal(internal) => visit_internal::<Internal>(internal, spine, 0, visitor),
+        }
+    }
+}
+
+fn visit_leaf<Internal: InternalTrait>(
+    leaf: &Internal::LeafEntry,
+    spine: Option<(Side, usize)>,
+    depth: usize,
+    visitor: &mut dyn FnMut(&NodeInfo) -> bool,
+) {
+    let guard = leaf.load();
+    visitor(&NodeInfo {
+        spine,
+        depth,
+        addr: &*guard as *const Internal::Leaf as usize,
+        leaf: true,
+        level: 0,
+        slots: guard.len(),
+        free_slots: guard.free_space(),
+        len: guard.len(),
+        children: Vec::new(),
+    });
+}
+
+fn visit_internal<Internal: InternalTrait>(
+    internal: &Internal::InternalEntry,
+    spine: Option<(Side, usize)>,
+    depth: usize,
+    visitor: &mut dyn FnMut(&NodeInfo) -> bool,
+) {
+    let guard = internal.load();
+    let slots = guard.slots();
+    let children = (0..slots)
+        .filter_map(|slot| guard.get_child_ref_at_slot(slot))
+        .map(|(child, range)| {
+            let addr = match child {
+                NodeRef::Leaf(leaf) => &*leaf.load() as *const Internal::Leaf as usize,
+                NodeRef::Internal(internal) => &*internal.load() as *const Internal as usize,
+            };
+            (addr, child.level(), child.slots(), child.len(), range)
+        })
+        .collect();
+    let descend = visitor(&NodeInfo {
+        spine,
+        depth,
+        addr: &*guard as *const Internal as usize,
+        leaf: false,
+        level: guard.level(),
+        slots,
+        free_slots: guard.free_slots(),
+        len: guard.len(),
+        children,
+    });
+    if descend {
+        for slot in 0..slots {
+            match guard.get_child_ref_at_slot(slot) {
+                Some((NodeRef::Leaf(leaf), _)) => {
+                    visit_leaf::<Internal>(leaf, None, depth + 1, visitor)
+                }
+                Some((NodeRef::Internal(internal), _)) => {
+                    visit_internal::<Internal>(internal, None, depth + 1, visitor)
+                }
+                None => {}
+            }
+        }
+    }
+}
-- 
2.43.0


From 9c04ad2d97c245fd75fabda45219df21f7a15433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 02/18] fix: Focus::split_at must split relative to the start
 of the focus

---
 src/focus.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 0e2b6cc..9c7fd12 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -364,8 +364,9 @@ where
         if idx >= self.len() {
             panic!("Split is out of range")
         }
-        let first_range = self.range.start..idx;
-        let second_range = idx..self.range.end;
+        let split = self.range.start + idx;
+        let first_range = self.range.start..split;
+        let second_range = split..self.range.end;
         let first = Focus::narrowed_tree(self.tree, first_range);
         let second = Focus::narrowed_tree(self.tree, second_range);
         (first, second)
-- 
2.43.0


From 979e4991e2739159bc658700f2a1b3501a1ee75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 03/18] fix: Focus::narrow must not reach past the end of a
 narrowed focus

---
 src/focus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index 9c7fd12..4b032cb 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -334,7 +334,7 @@ where
             Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
         };
-        if range_end > self.range.end {
+        if range_end > self.len() {
             panic!("Range must be inside the parent range");
         }
         let new_start = self.range.start + range_start;
-- 
2.43.0


From 64b532c990abe70b8f805f425310a1d219f9f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 04/18] fix: an empty Focus over a vector with an empty root
 must not panic

---
 src/focus.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index 4b032cb..97cb20c 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -174,7 +174,8 @@ where
         let mut range_end = 0;
         let mut focus_range = 0..0;
         let mut spine_position = None;
-        let mut focus_node = &tree.root;
+        // The root may be an empty internal node, but the first node of the left spine never is.
+        let mut focus_node = tree.left_spine.first().unwrap_or(&tree.root);
         for (node_position, node) in tree_iter {
             let range_start = range_end;
             range_end = range_start + node.len();
-- 
2.43.0


From 030e17197652c1b8d029f8f508abcfe3bfbf6ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 05/18] fix: Focus::get must return None for positions that
 overflow when narrowed

---
 src/focus.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 97cb20c..e46cd83 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -261,8 +261,8 @@ where
     /// assert_eq!(focus.get(3), None);
     /// ```
     pub fn get(&mut self, idx: usize) -> Option<&<Internal::Leaf as LeafTrait>::Item> {
-        let new_idx = idx + self.range.start;
-        if self.range.contains(&new_idx) {
+        if idx < self.len() {
+            let new_idx = idx + self.range.start;
             if !self.focus_range.contains(&new_idx) {
                 self.refocus(new_idx);
             }
-- 
2.43.0


From 6dace44b2c67ec70b0015ee80e133e359830346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 06/18] fix: FocusMut must forget its leaf range when it drops
 its path

---
 src/focus.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index e46cd83..50f7d85 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -706,10 +706,9 @@ where
     fn drop_path_nodes(&mut self) {
         self.root = None;
         // panic!("rawr {}", self.path.len());
-        if self.leaf.take().is_some() {
-            // println!("dropping leaf {:?} ", self.leaf_range);
-            self.leaf_range = 0..0;
-        }
+        // The leaf range is also set when the root itself is the leaf.
+        self.leaf = None;
+        self.leaf_range = 0..0;
         while self.path.pop().is_some() {
             // println!("dropping internal {:?} ", p.1);
         }
-- 
2.43.0


From ab32505cc9f4a38f60d63dc5d968cc76c628554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 07/18] fix: inclusive end bounds of ordered searches include
 the given position

---
 src/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index a8f0cd8..e7c4081 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1455,7 +1455,7 @@ where
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x - 1,
+            Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
@@ -1587,7 +1587,7 @@ where
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x - 1,
+            Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
-- 
2.43.0


From 362bad4764d768fe806fdedee9c577aa2b21d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 08/18] fix: ordered searches in an empty range must report the
 insertion point

---
 src/vector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index e7c4081..f911794 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1595,6 +1595,10 @@ where
         let avg = |x: usize, y: usize| (x / 2) + (y / 2) + (x % 2 + y % 2) / 2;
         let mut focus = self.focus();
 
+        if start >= end {
+            return Err(start);
+        }
+
         // Find an equal item, we maintain an invariant that [start, end) should be the only
         // possible equal elements. We binary search down to narrow the range. We stop if we find
         // an equal item for the next step.
-- 
2.43.0


From bbe0ec3b84a9b94661914306fa04570ae9b367f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 09/18] fix: sorting must not recurse once per element equal to
 the minimum

---
 src/sort.rs | 53 +++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 5515318..13d3980 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -102,10 +102,27 @@ pub(crate) fn do_single_sort<R, F, Internal>(
             cmp::Ordering::Greater => {}
         }
     }
-    // If by accident we picked the minimum element as a pivot, we just call sort again with the
-    // rest of the vector.
+    // If by accident we picked the minimum element as a pivot, we gather everything equal to it at
+    // the start and just call sort again with the rest of the vector.
     if less_count == 0 {
-        do_single_sort(&mut rest, rng, comparator);
+        let (mut equal_focus, mut greater_focus) = rest.split_at(equal_count);
+        let mut greater_position = 0;
+        for index in 0..equal_focus.len() {
+            if comparator(equal_focus.index(index), first.index(0)) == cmp::Ordering::Equal {
+                continue;
+            }
+            while comparator(greater_focus.index(greater_position), first.index(0))
+                != cmp::Ordering::Equal
+            {
+                greater_position += 1;
+            }
+            mem::swap(
+                equal_focus.index(index),
+                greater_focus.index(greater_position),
+            );
+            greater_position += 1;
+        }
+        do_single_sort(&mut greater_focus, rng, comparator);
         return;
     }
 
@@ -280,10 +297,34 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
             cmp::Ordering::Greater => {}
         }
     }
-    // If by accident we picked the minimum element as a pivot, we just call sort again with the
-    // rest of the vector.
+    // If by accident we picked the minimum element as a pivot, we gather everything equal to it at
+    // the start and just call sort again with the rest of the vector.
     if less_count == 0 {
-        do_dual_sort(&mut rest_focus, &mut rest_dual, rng, comparator);
+        let (mut equal_focus, mut greater_focus) = rest_focus.split_at(equal_count);
+        let (mut equal_dual, mut greater_dual) = rest_dual.split_at(equal_count);
+        let mut greater_position = 0;
+        for index in 0..equal_focus.len() {
+            if comparator(equal_focus.index(index), first_focus.index(0)) == cmp::Ordering::Equal {
+                continue;
+            }
+            while comparator(
+                greater_focus.index(greater_position),
+                first_focus.index(0),
+            ) != cmp::Ordering::Equal
+            {
+                greater_position += 1;
+            }
+            mem::swap(
+                equal_focus.index(index),
+                greater_focus.index(greater_position),
+            );
+            mem::swap(
+                equal_dual.index(index),
+                greater_dual.index(greater_position),
+            );
+            greater_position += 1;
+        }
+        do_dual_sort(&mut greater_focus, &mut greater_dual, rng, comparator);
         return;
     }
 
-- 
2.43.0


From 15d089274ef9859d69858f533f7a5565d7d88136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 10/18] fix: mutable focuses must not leak the size tables of
 the nodes they borrow

---
 src/node_impls/basic.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/node_impls/basic.rs b/src/node_impls/basic.rs
index 9aaf30a..1da3ce6 100644
--- a/src/node_impls/basic.rs
+++ b/src/node_impls/basic.rs
@@ -4,6 +4,7 @@ use crate::size_table::SizeTable;
 use crate::{Side, RRB_WIDTH};
 use archery::{SharedPointer, SharedPointerKind};
 use std::ops::{Deref, DerefMut, Range};
+use std::ptr::NonNull;
 
 #[derive(Debug)]
 pub struct SharedPointerEntry<I: Clone + std::fmt::Debug, P: SharedPointerKind>(
@@ -212,10 +213,21 @@ impl<A: Clone + std::fmt::Debug> LeafTrait for Leaf<A> {
 }
 
 pub struct BorrowedInternal<Leaf: LeafTrait, P: SharedPointerKind> {
-    pub(crate) sizes: SharedPointer<SizeTable, P>,
+    // Like the children, this belongs to the borrowed node. It is not counted as a reference to the
+    // size table, because focuses forget the nodes that they borrow.
+    sizes: NonNull<SizeTable>,
     pub(crate) children: BorrowedChildList<Leaf, P>,
 }
 
+unsafe impl<Leaf: LeafTrait, P: SharedPointerKind> Send for BorrowedInternal<Leaf, P> where
+    BorrowedChildList<Leaf, P>: Send
+{
+}
+unsafe impl<Leaf: LeafTrait, P: SharedPointerKind> Sync for BorrowedInternal<Leaf, P> where
+    BorrowedChildList<Leaf, P>: Sync
+{
+}
+
 impl<Leaf: LeafTrait, P: SharedPointerKind> Drop for BorrowedInternal<Leaf, P> {
     fn drop(&mut self) {
         // let f = match &self.children {
@@ -229,27 +241,31 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> Drop for BorrowedInternal<Leaf, P> {
 impl<Leaf: LeafTrait, P: SharedPointerKind> Clone for BorrowedInternal<Leaf, P> {
     fn clone(&self) -> Self {
         BorrowedInternal {
-            sizes: SharedPointer::clone(&self.sizes),
+            sizes: self.sizes,
             children: self.children.clone(),
         }
     }
 }
 
 impl<Leaf: LeafTrait, P: SharedPointerKind> BorrowedInternal<Leaf, P> {
+    fn sizes(&self) -> &SizeTable {
+        unsafe { self.sizes.as_ref() }
+    }
+
     fn left_size(&self) -> usize {
         let range = self.children.range();
         if range.start == 0 {
             0
         } else {
             *self
-                .sizes
+                .sizes()
                 .get_cumulative_child_size(range.start - 1)
                 .unwrap()
         }
     }
 
     pub fn position_info_for(&self, idx: usize) -> Option<(usize, usize)> {
-        let position = self.sizes.position_info_for(self.left_size() + idx);
+        let position = self.sizes().position_info_for(self.left_size() + idx);
         if let Some((child_number, subidx)) = position {
             if child_number >= self.children.range().end {
                 None
@@ -277,7 +293,7 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> BorrowedInternalTrait for BorrowedIn
         if range.start == range.end {
             0
         } else {
-            self.sizes.get_cumulative_child_size(range.end - 1).unwrap() - self.left_size()
+            self.sizes().get_cumulative_child_size(range.end - 1).unwrap() - self.left_size()
         }
     }
 
@@ -290,7 +306,7 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> BorrowedInternalTrait for BorrowedIn
     }
 
     fn level(&self) -> usize {
-        self.sizes.level()
+        self.sizes().level()
     }
 
     fn get_child_mut_at_slot(
@@ -298,7 +314,7 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> BorrowedInternalTrait for BorrowedIn
         idx: usize,
     ) -> Option<(NodeMut<Self::Concrete>, Range<usize>)> {
         let left_skipped = self.children.range().start;
-        let mut subrange = self.sizes.get_child_range(idx + left_skipped)?;
+        let mut subrange = self.sizes().get_child_range(idx + left_skipped)?;
         subrange.start -= self.left_size();
         subrange.end -= self.left_size();
         let node = match self.children {
@@ -341,11 +357,11 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> BorrowedInternalTrait for BorrowedIn
         (
             BorrowedInternal {
                 children: left,
-                sizes: SharedPointer::clone(&self.sizes),
+                sizes: self.sizes,
             },
             BorrowedInternal {
                 children: right,
-                sizes: SharedPointer::clone(&self.sizes),
+                sizes: self.sizes,
             },
         )
     }
@@ -757,7 +773,7 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> InternalTrait for Internal<Leaf, P>
     fn borrow_node(&mut self) -> Self::Borrowed {
         BorrowedInternal {
             children: self.children.borrow(),
-            sizes: SharedPointer::clone(&self.sizes),
+            sizes: NonNull::from(&*self.sizes),
         }
     }
 
-- 
2.43.0


From 2ebadc3537b8df25bca1cd4d2c717986a552955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:01 +0000
Subject: [PATCH 11/18] fix: FocusMut must give up its path when it is split

---
 src/focus.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/focus.rs b/src/focus.rs
index 50f7d85..295a411 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -736,6 +736,7 @@ where
         // We split the vector in two at the position, we need to find the two positions that denote
         // the last of this vector and the first of the next vector.
         self.drop_borrowed_nodes(); // Might be going from one split to another so we may need drop.
+        self.drop_path_nodes(); // The parts borrow these nodes anew, which ends our own borrow of them.
 
         if index == 0 {
             // This vector becomes empty and the returned one is self.
-- 
2.43.0


From 1f5c889cee306813751023048ae1eedbc3fd9e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:20 +0000
Subject: [PATCH 12/18] fix: a FocusMut may only be sent or shared across
 threads if its items are Send and Sync

---
 src/focus.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 295a411..2d0d0af 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -401,17 +401,18 @@ where
     },
 }
 
+// The nodes below a focus may be shared with other vectors, as with an `Arc`.
 unsafe impl<'a, Internal> Send for FocusMut<'a, Internal>
 where
     Internal: InternalTrait,
-    <Internal::Leaf as LeafTrait>::Item: Send,
+    <Internal::Leaf as LeafTrait>::Item: Send + Sync,
 {
 }
 
 unsafe impl<'a, Internal> Sync for FocusMut<'a, Internal>
 where
     Internal: InternalTrait,
-    <Internal::Leaf as LeafTrait>::Item: Sync,
+    <Internal::Leaf as LeafTrait>::Item: Send + Sync,
 {
 }
 
-- 
2.43.0


From fcd8aaa29b834372f36f333882e7fb8731f2d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:58 +0000
Subject: [PATCH 13/18] fix: pop must not count off an item before it has been
 taken

---
 src/vector.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index f911794..40daf6a 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -726,8 +726,10 @@ where
         debug_assert_eq!(self.left_spine.len(), self.right_spine.len());
         if self.spine_ref(side).is_empty() {
             if !self.root.is_empty() {
+                // Loading may clone the leaf's items, and only then is there one less.
+                let item = self.root.leaf_mut().load_mut().pop(side);
                 self.len -= 1;
-                Some(self.root.leaf_mut().load_mut().pop(side))
+                Some(item)
             } else {
                 None
             }
-- 
2.43.0


From 604de2642176da596e481554db9023ceab3cce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:13 +0000
Subject: [PATCH 14/18] fix: a focus narrowed by a reversed or overflowing
 range must not reach outside its window

---
 src/focus.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 2d0d0af..fa27208 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -170,6 +170,9 @@ where
         if range.end >= tree.len() {
             range.end = tree.len();
         }
+        if range.end < range.start {
+            range.end = range.start;
+        }
         let tree_iter = tree.spine_iter();
         let mut range_end = 0;
         let mut focus_range = 0..0;
@@ -328,14 +331,14 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
-        if range_end > self.len() {
+        if range_start > range_end || range_end > self.len() {
             panic!("Range must be inside the parent range");
         }
         let new_start = self.range.start + range_start;
-- 
2.43.0


From 346b5d9a2387d44f6d5fd9a30ff2961c6d6453de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:13 +0000
Subject: [PATCH 15/18] fix: ranges that include usize::MAX must not overflow

---
 src/vector.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 40daf6a..0eec4f5 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1171,11 +1171,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
 
@@ -1403,11 +1403,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         range_start..range_end
@@ -1452,12 +1452,12 @@ where
     {
         let mut start = match range.start_bound() {
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
             Bound::Unbounded => 0,
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
@@ -1584,12 +1584,12 @@ where
     {
         let mut start = match range.start_bound() {
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
             Bound::Unbounded => 0,
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
@@ -1822,11 +1822,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         let mut focus = self.focus_mut();
@@ -1870,11 +1870,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         let mut focus = self.focus_mut();
@@ -1914,11 +1914,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         let mut focus = self.focus_mut();
@@ -1962,11 +1962,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         let comp = |x: &<Internal::Leaf as LeafTrait>::Item,
-- 
2.43.0


From 603fd3851658906af612013df3bcb14b9274b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:46 +0000
Subject: [PATCH 16/18] fix: sorting must not recurse once per element when the
 pivots divide badly

---
 src/sort.rs | 98 +++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 80 insertions(+), 18 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 13d3980..1c32c13 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -3,6 +3,7 @@ use crate::node_traits::{InternalTrait, LeafTrait};
 use rand_core::RngCore;
 use std::cmp;
 use std::mem;
+use std::ops::Range;
 
 // pub(crate) fn sort_multiple<'a>(
 //     foci: &mut [FocusMut<'a, dyn InternalTrait, dyn Leaf, dyn BorrowedInternal>],
@@ -77,9 +78,41 @@ pub(crate) fn do_single_sort<R, F, Internal>(
     ) -> cmp::Ordering,
     Internal: InternalTrait,
 {
-    if focus.len() <= 1 {
-        return;
+    // We recurse into the smaller part only and carry on with the larger one here. This keeps the
+    // recursion logarithmic however badly the pivots divide the elements.
+    let mut range = 0..focus.len();
+    while range.len() > 1 {
+        let (mut focus, _) = focus.split_at(range.end);
+        let (_, mut focus) = focus.split_at(range.start);
+        let (less, greater) = partition_single(&mut focus, rng, comparator);
+        let (smaller, larger) = if less.len() < greater.len() {
+            (less, greater)
+        } else {
+            (greater, less)
+        };
+        let (mut focus, _) = focus.split_at(smaller.end);
+        let (_, mut focus) = focus.split_at(smaller.start);
+        do_single_sort(&mut focus, rng, comparator);
+        range = range.start + larger.start..range.start + larger.end;
     }
+}
+
+/// Partitions the elements by a pivot, and returns the ranges of those that are less and of those
+/// that are greater than the pivot. All other elements are already in the correct position.
+fn partition_single<R, F, Internal>(
+    focus: &mut FocusMut<Internal>,
+    rng: &mut R,
+    comparator: &F,
+) -> (Range<usize>, Range<usize>)
+where
+    R: RngCore,
+    F: Fn(
+        &<Internal::Leaf as LeafTrait>::Item,
+        &<Internal::Leaf as LeafTrait>::Item,
+    ) -> cmp::Ordering,
+    Internal: InternalTrait,
+{
+    let len = focus.len();
 
     // We know there are at least 2 elements here
     let pivot_index = rng.next_u64() as usize % focus.len();
@@ -122,8 +155,7 @@ pub(crate) fn do_single_sort<R, F, Internal>(
             );
             greater_position += 1;
         }
-        do_single_sort(&mut greater_focus, rng, comparator);
-        return;
+        return (0..0, 1 + equal_count..len);
     }
 
     // We know here that there is at least one item before the pivot, so we move the minimum to the
@@ -248,11 +280,8 @@ pub(crate) fn do_single_sort<R, F, Internal>(
         }
     }
 
-    // Now we have partitioned both sides correctly, we just have to recurse now
-    do_single_sort(&mut less_focus, rng, comparator);
-    if !greater_focus.is_empty() {
-        do_single_sort(&mut greater_focus, rng, comparator);
-    }
+    // Now we have partitioned both sides correctly
+    (1..1 + less_count, 1 + less_count + equal_count..len)
 }
 
 pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
@@ -269,9 +298,46 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
     Internal1: InternalTrait,
     Internal2: InternalTrait,
 {
-    if focus.len() <= 1 {
-        return;
+    // As in the single sort, we recurse into the smaller part only
+    let mut range = 0..focus.len();
+    while range.len() > 1 {
+        let (mut focus, _) = focus.split_at(range.end);
+        let (_, mut focus) = focus.split_at(range.start);
+        let (mut dual, _) = dual.split_at(range.end);
+        let (_, mut dual) = dual.split_at(range.start);
+        let (less, greater) = partition_dual(&mut focus, &mut dual, rng, comparator);
+        let (smaller, larger) = if less.len() < greater.len() {
+            (less, greater)
+        } else {
+            (greater, less)
+        };
+        let (mut focus, _) = focus.split_at(smaller.end);
+        let (_, mut focus) = focus.split_at(smaller.start);
+        let (mut dual, _) = dual.split_at(smaller.end);
+        let (_, mut dual) = dual.split_at(smaller.start);
+        do_dual_sort(&mut focus, &mut dual, rng, comparator);
+        range = range.start + larger.start..range.start + larger.end;
     }
+}
+
+/// Partitions the elements by a pivot, and the elements of the dual in the same way. Returns the
+/// ranges of those that are less and of those that are greater than the pivot.
+fn partition_dual<R, F, Internal1, Internal2>(
+    focus: &mut FocusMut<Internal1>,
+    dual: &mut FocusMut<Internal2>,
+    rng: &mut R,
+    comparator: &F,
+) -> (Range<usize>, Range<usize>)
+where
+    R: RngCore,
+    F: Fn(
+        &<Internal1::Leaf as LeafTrait>::Item,
+        &<Internal1::Leaf as LeafTrait>::Item,
+    ) -> cmp::Ordering,
+    Internal1: InternalTrait,
+    Internal2: InternalTrait,
+{
+    let len = focus.len();
 
     // We know there are at least 2 elements here
     let pivot_index = rng.next_u64() as usize % focus.len();
@@ -324,8 +390,7 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
             );
             greater_position += 1;
         }
-        do_dual_sort(&mut greater_focus, &mut greater_dual, rng, comparator);
-        return;
+        return (0..0, 1 + equal_count..len);
     }
 
     // We know here that there is at least one item before the pivot, so we move the minimum to the
@@ -476,11 +541,8 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
         }
     }
 
-    // Now we have partitioned both sides correctly, we just have to recurse now
-    do_dual_sort(&mut less_focus, &mut less_dual, rng, comparator);
-    if !greater_focus.is_empty() {
-        do_dual_sort(&mut greater_focus, &mut greater_dual, rng, comparator);
-    }
+    // Now we have partitioned both sides correctly
+    (1..1 + less_count, 1 + less_count + equal_count..len)
     //     });
     // });
     // });
-- 
2.43.0


From ebae4efdc730198797ff1cae3f6fe830ccb5ebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:15 +0000
Subject: [PATCH 17/18] fix: splitting must not walk the whole tree in release
 builds

The checks after a split only assert in debug builds, but walked both trees in
every build, so split_off, insert, remove and slices took time linear in the
length instead of O(M * H).
---
 src/node_impls/annotated_basic.rs | 7 +++++--
 src/node_impls/basic.rs           | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/node_impls/annotated_basic.rs b/src/node_impls/annotated_basic.rs
index 124b56d..52246ea 100644
--- a/src/node_impls/annotated_basic.rs
+++ b/src/node_impls/annotated_basic.rs
@@ -1131,8 +1131,11 @@ impl<
             result.push_child(Side::Front, subresult);
         }
 
-        self.debug_check_invariants(original_position, self.level());
-        result.debug_check_invariants(original_len - original_position, result.level());
+        if cfg!(debug_assertions) {
+            // This walks both trees completely.
+            self.debug_check_invariants(original_position, self.level());
+            result.debug_check_invariants(original_len - original_position, result.level());
+        }
         result
     }
 
diff --git a/src/node_impls/basic.rs b/src/node_impls/basic.rs
index 1da3ce6..1731c5a 100644
--- a/src/node_impls/basic.rs
+++ b/src/node_impls/basic.rs
@@ -873,8 +873,11 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> InternalTrait for Internal<Leaf, P>
             result.push_child(Side::Front, subresult);
         }
 
-        self.debug_check_invariants(original_position, self.level());
-        result.debug_check_invariants(original_len - original_position, result.level());
+        if cfg!(debug_assertions) {
+            // This walks both trees completely.
+            self.debug_check_invariants(original_position, self.level());
+            result.debug_check_invariants(original_len - original_position, result.level());
+        }
         result
     }
 
-- 
2.43.0


From e7e1ae5dddc7c6faf5e38c364c767af9a204e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:01 +0000
Subject: [PATCH 18/18] fix: appending must not leave small nodes behind each
 time

Splitting and appending again, as insert does, left a node of a single child
behind on every level it could: inserting 100000 elements in the middle gave
300000 nodes, and a vector of 2000 elements that small slices were moved
around in had a height of 333. Merge nodes only if they fit into one, as
planned in the comment, and do not push the empty nodes of a spine into the
tree.
---
 src/vector.rs | 57 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 0eec4f5..6208d81 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -951,9 +951,9 @@ where
 
         // For each level we want to combine in the tree
         // 1) Pack the children in the left node. O(M^2)
-        // 2) Pop grandchildren off the right node until the left node is full. O(M)
+        // 2) Merge the adjacent children of both nodes as long as they fit into one. O(M)
         // 3) Pack the children in the right node. O(M^2)
-        // 4) Move the children off right node until the left node is full. O(M)
+        // 4) Merge the right node into the left node if they fit into one. O(M)
         // 5) If at any stage the right node becomes empty we stop and left is the result, otherwise
         //    we have to add represent it as a root with height: level + 1 and 'return' the result.
         if self.is_empty() {
@@ -1007,6 +1007,11 @@ where
         debug_assert_eq!(other.left_spine.len(), other.right_spine.len());
         debug_assert_eq!(self.right_spine.len(), other.left_spine.len());
 
+        // An empty spine node would end up as a node of a single child in the middle of the tree, as
+        // only spine nodes get merged. We use the neighbouring node instead.
+        self.refill_spine(Side::Back);
+        other.refill_spine(Side::Front);
+
         // More efficient to work from front to back here, but we need to remove elements
         // We reverse to make this more efficient
         self.right_spine.reverse();
@@ -1040,23 +1045,28 @@ where
             let mut left = left_node.internal_mut().load_mut();
             let mut right = right_node.internal_mut().load_mut();
 
+            // Nodes are only merged as a whole. Filling the left node from the right one would
+            // leave the remainder behind as a small node, one more each time that vectors are split
+            // and appended at the same place.
             left.pack_children();
             let mut left_right_most = left.pop_child(Side::Back);
-            while !left_right_most.is_full() && !right.is_empty() {
+            while !right.is_empty() {
                 let mut right_left_most = right.pop_child(Side::Front);
+                if left_right_most.slots() + right_left_most.slots() > RRB_WIDTH {
+                    right.push_child(Side::Front, right_left_most);
+                    break;
+                }
                 right_left_most.share_children_with(
                     &mut left_right_most,
                     Side::Front,
-                    right_left_most.slots(),
+                    RRB_WIDTH,
                 );
-                if !right_left_most.is_empty() {
-                    right.push_child(Side::Front, right_left_most);
-                }
             }
             left.push_child(Side::Back, left_right_most);
             right.pack_children();
-            let slots = right.slots();
-            right.share_children_with(&mut *left, Side::Front, slots);
+            if left.slots() + right.slots() <= RRB_WIDTH {
+                right.share_children_with(&mut *left, Side::Front, RRB_WIDTH);
+            }
 
             if !left_node.is_empty() {
                 self.right_spine
@@ -1337,6 +1347,35 @@ where
         }
     }
 
+    /// Replaces the empty nodes of a spine, above the leaf, with the outermost child of the level
+    /// above unless that child has no space for another one.
+    fn refill_spine(&mut self, side: Side) {
+        let spine = match side {
+            Side::Front => &mut self.left_spine,
+            Side::Back => &mut self.right_spine,
+        };
+        for level in (1..spine.len()).rev() {
+            if spine[level].slots() != 0 {
+                continue;
+            }
+            let mut parent_node = spine
+                .get_mut(level + 1)
+                .unwrap_or(&mut self.root)
+                .internal_mut()
+                .load_mut();
+            if parent_node.slots() == 0 {
+                continue;
+            }
+            let child = parent_node.pop_child(side);
+            if child.free_slots() == 0 {
+                parent_node.push_child(side, child);
+            } else {
+                drop(parent_node);
+                spine[level] = child;
+            }
+        }
+    }
+
     fn fill_spine(&mut self, side: Side) -> bool {
         let spine = match side {
             Side::Front => &mut self.left_spine,
-- 
2.43.0

