From 7c89fc031e0e83ebbc234128ab4b6d36beb507d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 01/15] fix: keep the cyclic last-sibling link valid when the
 last sibling is unlinked

---
 src/node/edit.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 326c29a..a6cbd1b 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -70,6 +70,8 @@ impl<'a, T> OrphanRoot<'a, T> {
         //  * prev_sibling --> node_to_unlink
         //      * prev_sibling.next_sibling (if available)
         //      * node_to_unlink.prev_sibling_cyclic (mandatory)
+        //  * first_sibling --> node_to_unlink
+        //      * first_sibling.prev_sibling_cyclic (if `node_to_unlink` is the last sibling)
         //  * node_to_unlink --> next_sibling
         //      * node_to_unlink.next_sibling (if available)
         //      * next_sibling.prev_sibling_cyclic (if available)
@@ -95,6 +97,10 @@ impl<'a, T> OrphanRoot<'a, T> {
         }
         if let Some(next_sibling) = next_sibling {
             next_sibling.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
+        } else if let Some(first_sibling) = parent.and_then(|parent| parent.first_child_link()) {
+            // `node_to_unlink` was the last sibling, so its previous sibling is
+            // the new last sibling.
+            first_sibling.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
         }
 
         // Update `node_to_unlink`.
-- 
2.43.0


From 07f2c3bc6c507f1453ac7e8648e7f20291f88a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 02/15] fix: update the last-sibling link when a childless last
 sibling is replaced with its children

---
 src/node/edit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index a6cbd1b..98ce1bd 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -681,6 +681,11 @@ pub(super) fn try_replace_with_children<T>(this: &NodeCoreLink<T>) -> Result<(),
                 }
                 (Some(prev_sibling_link), None) => {
                     prev_sibling_link.replace_next_sibling(None);
+                    let first_sibling_link = parent_link
+                        .first_child_link()
+                        .expect("[validity] the parent has at least one child (prev of `self`)");
+                    // `prev_sibling_link` is the new last sibling.
+                    first_sibling_link.replace_prev_sibling_cyclic(prev_sibling_link.downgrade());
                 }
                 (None, Some(next_sibling_link)) => {
                     let last_sibling_link_weak = parent_link
-- 
2.43.0


From db598fc69eaeaabf6e7f330a58d8b637eb33ffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 03/15] fix: stop the stable siblings traverser when both ends
 have met

---
 src/traverse/siblings.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/traverse/siblings.rs b/src/traverse/siblings.rs
index d8d8ee5..2779477 100644
--- a/src/traverse/siblings.rs
+++ b/src/traverse/siblings.rs
@@ -168,9 +168,11 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next
-            .next_sibling()
-            .map(|next_of_next| (next_of_next, next_back));
+        if !FrozenNode::ptr_eq(&next, &next_back) {
+            self.next = next
+                .next_sibling()
+                .map(|next_of_next| (next_of_next, next_back));
+        }
         Some(next)
     }
 
@@ -186,9 +188,11 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 impl<T> DoubleEndedIterator for StableSiblingsTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next_back
-            .prev_sibling()
-            .map(|next_of_next_back| (next, next_of_next_back));
+        if !FrozenNode::ptr_eq(&next, &next_back) {
+            self.next = next_back
+                .prev_sibling()
+                .map(|next_of_next_back| (next, next_of_next_back));
+        }
         Some(next_back)
     }
 }
-- 
2.43.0


From 412d5a234d469495aa195b64e11c8a654d6d0286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 04/15] fix: stop the stable depth-first traverser when both
 ends have met

---
 src/traverse/depth_first.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 945ddc1..cf6cf98 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -384,6 +384,16 @@ impl<T> StableDepthFirstTraverser<T> {
             }
         }
     }
+
+    /// Returns true if the two events are identical.
+    #[must_use]
+    fn is_same_event(lhs: &DftEvent<FrozenNode<T>>, rhs: &DftEvent<FrozenNode<T>>) -> bool {
+        match (lhs, rhs) {
+            (DftEvent::Open(lhs), DftEvent::Open(rhs))
+            | (DftEvent::Close(lhs), DftEvent::Close(rhs)) => FrozenNode::ptr_eq(lhs, rhs),
+            _ => false,
+        }
+    }
 }
 
 impl<T> Iterator for StableDepthFirstTraverser<T> {
@@ -391,7 +401,9 @@ impl<T> Iterator for StableDepthFirstTraverser<T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next.next().map(|next_of_next| (next_of_next, next_back));
+        if !Self::is_same_event(&next, &next_back) {
+            self.next = next.next().map(|next_of_next| (next_of_next, next_back));
+        }
         Some(next)
     }
 
@@ -413,9 +425,11 @@ impl<T> Iterator for StableDepthFirstTraverser<T> {
 impl<T> DoubleEndedIterator for StableDepthFirstTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next_back
-            .prev()
-            .map(|prev_of_next_back| (next, prev_of_next_back));
+        if !Self::is_same_event(&next, &next_back) {
+            self.next = next_back
+                .prev()
+                .map(|prev_of_next_back| (next, prev_of_next_back));
+        }
         Some(next_back)
     }
 }
-- 
2.43.0


From 5b465d3d66db58b73deeded14069e173c2188fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 05/15] fix: exclude the node itself from
 preceding_siblings_stable, not the first sibling

---
 src/node/frozen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/frozen.rs b/src/node/frozen.rs
index 97d277f..3417da9 100644
--- a/src/node/frozen.rs
+++ b/src/node/frozen.rs
@@ -839,7 +839,8 @@ impl<T> FrozenNode<T> {
     #[must_use]
     pub fn preceding_siblings_stable(&self) -> traverse::StableSiblingsTraverser<T> {
         let mut iter = self.preceding_siblings_or_self_stable();
-        iter.next();
+        // `self` is the last node of the iterator.
+        iter.next_back();
         iter
     }
 
-- 
2.43.0


From f0eb0825d5ba5be77c7111661470c9255613547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 06/15] fix: make DftEvent::close_current advance instead of
 looping forever

---
 src/traverse/depth_first.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index cf6cf98..96f84f7 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -116,12 +116,18 @@ macro_rules! impl_dft_event_methods_for_node {
             #[must_use]
             pub fn close_current(&self) -> Option<$ty_node<T>> {
                 let mut depth = 0_usize;
+                let mut current = self.next()?;
                 loop {
-                    match self.next()? {
-                        Self::Open(_) => depth += 1,
+                    current = match current {
                         Self::Close(node) if depth == 0 => return Some(node),
-                        Self::Close(_) => depth -= 1,
-                    }
+                        current => {
+                            match &current {
+                                Self::Open(_) => depth += 1,
+                                Self::Close(_) => depth -= 1,
+                            }
+                            current.next()?
+                        }
+                    };
                 }
             }
 
-- 
2.43.0


From e640170c5db3508eeac9446d51bd8d31e6f0e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 07/15] fix: let TreeBuilder stop at the root of the subtree
 being built

---
 src/serial.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/serial.rs b/src/serial.rs
index 482ecec..0bba958 100644
--- a/src/serial.rs
+++ b/src/serial.rs
@@ -564,21 +564,22 @@ impl<T> TreeBuilder<T> {
             // Close zero nodes, i.e. do nothing.
             return Ok(());
         }
-        if let Some(current) = &mut self.current {
-            let parent_level = level - 1;
-            for _ in 0..parent_level {
-                let root = self
-                    .root
-                    .as_ref()
-                    .expect("[validity] `root` should be set when some node is tracked");
-                if current.ptr_eq_plain(root) {
+        if let Some(current) = &self.current {
+            let root = self
+                .root
+                .as_ref()
+                .expect("[validity] `root` should be set when some node is tracked");
+            let mut next = Some(current.clone());
+            for _ in 0..level {
+                let closing = next.ok_or(TreeBuildError::RootClosed)?;
+                next = if closing.ptr_eq_plain(root) {
                     // This is the root of the subtree, even if it has a parent.
-                    return Err(TreeBuildError::RootClosed);
-                }
-                *current = current.parent().ok_or(TreeBuildError::RootClosed)?;
+                    None
+                } else {
+                    closing.parent()
+                };
             }
-            // Now `current` is a parent node of the result node.
-            self.current = current.parent();
+            self.current = next;
             Ok(())
         } else if self.root.is_some() {
             Err(TreeBuildError::RootClosed)
-- 
2.43.0


From 095ae0cbaddfb5c83e2669e1e38763789a62fb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 08/15] fix: print frozen subtrees as FrozenNode

---
 src/node/debug_print/debug.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/debug_print/debug.rs b/src/node/debug_print/debug.rs
index 5eff466..b9b1502 100644
--- a/src/node/debug_print/debug.rs
+++ b/src/node/debug_print/debug.rs
@@ -141,7 +141,7 @@ impl<'a, T> DebugPrintSubtree<'a, T> {
     pub(in crate::node) fn new_frozen(link: &'a NodeCoreLink<T>) -> Self {
         Self {
             link,
-            node_type: NodeType::Plain,
+            node_type: NodeType::Frozen,
         }
     }
 
-- 
2.43.0


From 8f3c10e9fbd75ab126bb88cf5ba33d261e764eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 09/15] fix: reject moves into the own subtree or beside the
 root before unlinking the node

---
 src/node/edit.rs | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 98ce1bd..15d88a3 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -339,17 +339,56 @@ pub(super) fn detach_subtree<T>(this: &NodeCoreLink<T>) {
     orphan_this.create_new_tree();
 }
 
+/// Returns the parent of the destination.
+///
+/// # Failures
+///
+/// Returns [`HierarchyError::SiblingsWithoutParent`] as an error if the
+/// destination is the sibling of the root node.
+fn parent_of_destination<T>(
+    dest: InsertAs<&NodeCoreLink<T>>,
+) -> Result<NodeCoreLink<T>, HierarchyError> {
+    match dest {
+        InsertAs::FirstChildOf(parent) | InsertAs::LastChildOf(parent) => Ok(parent.clone()),
+        InsertAs::PreviousSiblingOf(anchor) | InsertAs::NextSiblingOf(anchor) => anchor
+            .parent_link()
+            .ok_or(HierarchyError::SiblingsWithoutParent),
+    }
+}
+
 /// Detaches the node and its descendant from the current parent, and inserts to other place in the
 /// same tree.
 #[inline]
+///
+/// # Failures
+///
+/// Fails, without modifying anything, if:
+///
+/// * the destination is the sibling of the root node, or
+///     + In this case, [`HierarchyError::SiblingsWithoutParent`] error is returned.
+/// * the destination is inside the subtree being moved.
+///     + In this case, [`HierarchyError::AncestorDescendantLoop`] error is returned.
 pub(super) fn detach_and_move_inside_same_tree<T>(
     this: &NodeCoreLink<T>,
     dest: InsertAs<&NodeCoreLink<T>>,
 ) -> Result<(), HierarchyError> {
-    if this.is_root() {
-        // Detaching entire tree here is meaningless.
-        // Do nothing.
-        return Ok(());
+    // Check the destination before modifying anything, since it's too late to
+    // detect errors once `this` is unlinked.
+    let mut ancestor = Some(parent_of_destination(dest)?);
+    while let Some(current) = ancestor {
+        if this.ptr_eq(&current) {
+            return Err(HierarchyError::AncestorDescendantLoop);
+        }
+        ancestor = current.parent_link();
+    }
+    match dest {
+        InsertAs::PreviousSiblingOf(anchor) | InsertAs::NextSiblingOf(anchor)
+            if this.ptr_eq(anchor) =>
+        {
+            // The node is already there.
+            return Ok(());
+        }
+        _ => {}
     }
 
     let orphan_this = OrphanRoot::new_by_unlink(this);
-- 
2.43.0


From 08da5bf86cc58da2b802fd8c6b97973f96dded41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 10/15] fix: reject moves to another tree that leave the tree
 empty or have no parent, before unlinking

---
 src/node/edit.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 15d88a3..9382221 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -405,11 +405,27 @@ pub(super) fn detach_and_move_inside_same_tree<T>(
 ///
 /// * `dest_tree_core` must be the tree core for the anchor nod of the destination.
 /// * The anchor node of the destination must be granted to be edited.
+///
+/// # Failures
+///
+/// Fails, without modifying anything, if:
+///
+/// * the destination is the sibling of the root node, or
+///     + In this case, [`HierarchyError::SiblingsWithoutParent`] error is returned.
+/// * `this` is the root of the tree.
+///     + In this case, [`HierarchyError::EmptyTree`] error is returned.
 pub(super) fn detach_and_move_to_another_tree<T>(
     this: &NodeCoreLink<T>,
     dest: InsertAs<&NodeCoreLink<T>>,
     dest_tree_core: &Rc<TreeCore<T>>,
 ) -> Result<(), HierarchyError> {
+    // Check the destination before modifying anything.
+    parent_of_destination(dest)?;
+    if this.is_root() {
+        // The source tree cannot be alive without the root.
+        return Err(HierarchyError::EmptyTree);
+    }
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
-- 
2.43.0


From 88f8568c7d481595094a4ca3137425bc80ee553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 11/15] fix: clone the whole source before inserting the cloned
 subtree

---
 src/node/edit.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 9382221..b9cddd8 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -3,10 +3,11 @@
 use core::cmp::Ordering;
 
 use alloc::rc::Rc;
+use alloc::vec::Vec;
 
 use crate::anchor::{AdoptAs, InsertAs};
 use crate::node::{HierarchyError, HotNode, Node, NodeCoreLink, NodeCoreLinkWeak};
-use crate::serial::{TreeBuildError, TreeBuilder};
+use crate::serial::{Event, TreeBuildError, TreeBuilder};
 use crate::traverse::DftEvent;
 use crate::tree::TreeCore;
 
@@ -824,25 +825,23 @@ pub(super) fn try_clone_insert_subtree<T>(
 where
     T: Clone,
 {
-    let subtree_root = dest.try_create_node(
-        source
-            .try_borrow_data()
-            .map_err(HierarchyError::BorrowNodeData)?
-            .clone(),
-    )?;
-    let mut events = source.to_events();
-    // Skip the opening of the root, since it will be processed by calling
-    // `TreeBuilder::with_root()`.
-    events.next();
-    events
-        .try_fold(
-            TreeBuilder::with_root(subtree_root),
-            |mut builder, ev_res| {
-                builder.push_event(ev_res?)?;
-                Ok(builder)
-            },
-        )
-        .and_then(|builder| builder.finish())
+    // Clone all the data before modifying the destination tree, because:
+    //
+    // * the destination should not be modified on error, and
+    // * the destination can be inside the source subtree.
+    let mut events = source
+        .to_events()
+        .collect::<Result<Vec<_>, _>>()
+        .map_err(HierarchyError::BorrowNodeData)?
+        .into_iter();
+    let subtree_root = match events.next() {
+        Some(Event::Open(data)) => dest.try_create_node(data)?,
+        _ => unreachable!("[validity] the first event must be the opening of the subtree root"),
+    };
+    let mut builder = TreeBuilder::with_root(subtree_root);
+    builder
+        .push_events(events)
+        .and_then(|()| builder.finish())
         .map(|node| {
             node.bundle_new_hierarchy_edit_grant()
                 .expect("[consistency] the hierarchy of the destination tree is already editable")
-- 
2.43.0


From 179a03df634a47d64232af5005c51a2848546d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 12/15] fix: let weak node references be upgradable (to None)
 from destructors run by the tree drop

---
 src/node/membership.rs | 11 ++++++++++-
 src/node/plain.rs      |  6 ++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/node/membership.rs b/src/node/membership.rs
index ac3acc3..bcc56d4 100644
--- a/src/node/membership.rs
+++ b/src/node/membership.rs
@@ -2,6 +2,7 @@
 
 use core::cell::{Ref, RefCell};
 use core::fmt;
+use core::mem;
 use core::num::NonZeroUsize;
 
 use alloc::rc::{Rc, Weak};
@@ -210,6 +211,11 @@ impl<'a, T> MembershipRef<'a, T> {
             .0
             .try_borrow_mut()
             .expect("[consistency] membership core should never be borrowed nestedly");
+        // The tree might be released with the old membership, and then the data
+        // associated to nodes would be dropped. Keep the old membership until
+        // the borrow is released, since the user-defined destructors can access
+        // this membership through `NodeWeak`.
+        let mut old_core = None;
         // Decrement refcount.
         match &mut *core {
             MembershipCore::Weak { .. } => {
@@ -230,13 +236,16 @@ impl<'a, T> MembershipRef<'a, T> {
                             "[consistency] locks can be acquired only from strong node references"
                         );
                         let weak_core = Rc::downgrade(tree_core);
-                        *core = MembershipCore::Weak {
+                        let weak = MembershipCore::Weak {
                             tree_core: weak_core,
                         };
+                        old_core = Some(mem::replace(&mut *core, weak));
                     }
                 }
             }
         }
+        drop(core);
+        drop(old_core);
     }
 
     /// Lets the membership refer to the given tree core.
diff --git a/src/node/plain.rs b/src/node/plain.rs
index 98240b2..2b029cc 100644
--- a/src/node/plain.rs
+++ b/src/node/plain.rs
@@ -2941,7 +2941,9 @@ impl<T> NodeWeak<T> {
     /// ```
     #[must_use]
     pub fn upgrade(&self) -> Option<Node<T>> {
-        let link = self.link.upgrade()?;
-        Some(Node::with_node_core(link))
+        // The node can be alive with its tree already dead, while the tree is
+        // being dropped.
+        let link = NodeLink::new(self.link.upgrade()?)?;
+        Some(Node::with_node_link(link))
     }
 }
-- 
2.43.0


From b7a0d9da19adc58badea13028c789c7b720176a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 13/15] fix: don't drop the source tree while the node being
 moved is in an inconsistent state

---
 src/node/edit.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index b9cddd8..15ab455 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -336,6 +336,10 @@ pub(super) fn detach_subtree<T>(this: &NodeCoreLink<T>) {
         return;
     }
 
+    // Keep the old tree alive until the detaching completes, since dropping the
+    // tree runs user-defined destructors.
+    let _old_tree_core = this.tree_core();
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this.create_new_tree();
 }
@@ -427,6 +431,10 @@ pub(super) fn detach_and_move_to_another_tree<T>(
         return Err(HierarchyError::EmptyTree);
     }
 
+    // Keep the old tree alive until the move completes, since dropping the tree
+    // runs user-defined destructors.
+    let _old_tree_core = this.tree_core();
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
-- 
2.43.0


From 642db4b11be026134fb75e74f2de746322cd22d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 14/15] fix: do not promise an exact size hint when the only
 node left to traverse may have descendants

---
 src/traverse/depth_first.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 96f84f7..7541053 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -669,8 +669,11 @@ impl<T> Iterator for StableShallowDepthFirstTraverser<T> {
                 let min = match depth.cmp(depth_back) {
                     // `Open` for `depth`, and `Close` for `depth..=depth_back`.
                     Ordering::Greater => depth - depth_back + 2,
-                    // `Open` and `Close` for `depth`.
-                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => return (2, Some(2)),
+                    // `Open` and `Close` for `depth`, and events for descendants if any.
+                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => {
+                        let is_leaf = *depth == self.max_depth() || !next.has_children();
+                        return (2, if is_leaf { Some(2) } else { None });
+                    }
                     // `Open`, `Close`, `Open` again, and `Close` again for `depth`.
                     Ordering::Equal => 4,
                     // `Open` for `depth..=depth_back`, and `Close` for `depth`.
-- 
2.43.0


From 5685aa34160180d3c63f7c19b0b8b514a8e005ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:03 +0000
Subject: [PATCH 15/15] fix: end the non-allocating breadth-first traversal at
 the deepest representable depth

---
 src/traverse/breadth_first.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/traverse/breadth_first.rs b/src/traverse/breadth_first.rs
index 1b2a49b..b9ec9fd 100644
--- a/src/traverse/breadth_first.rs
+++ b/src/traverse/breadth_first.rs
@@ -80,7 +80,14 @@ impl<T> Iterator for NonAllocatingBreadthFirstTraverser<T> {
         }
 
         // No more nodes in the current depth. Go deeper.
-        self.current_depth += 1;
+        self.current_depth = match self.current_depth.checked_add(1) {
+            Some(depth) => depth,
+            None => {
+                // No nodes can be deeper.
+                self.root = None;
+                return None;
+            }
+        };
         self.inner = StableShallowDepthFirstTraverser::with_toplevel(
             self.root.clone(),
             Some(self.current_depth),
-- 
2.43.0

