From b185d352b0d6e18d181f44f69c2b3d42da3ccf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 1/9] fix: do nothing when inserting a node to its current
 place

`SiblingsRange::transplant` detached the range and then connected it to
`prev_sibling` and `next_sibling`, even when one of them was the range
itself. This broke the links or panicked with a "[consistency]" message.
---
 src/dynamic/hierarchy.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 91fe0d0..666e745 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -802,6 +802,12 @@ impl<Id: InternalNodeId> SiblingsRange<Id> {
             return Err(StructureError::AncestorDescendantLoop);
         }
 
+        // If the range is adjacent to the destination, the range is already at
+        // the requested place.
+        if prev_sibling == Some(self.last) || next_sibling == Some(self.first) {
+            return Ok(());
+        }
+
         // Detach the nodes.
         {
             let first_nbs = hier
-- 
2.43.0


From 09cf0256cdfdd99335cd97c915e001a46ed4bc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 2/9] fix: return SiblingsWithoutParent when inserting next to
 a root

`Forest::insert` and `NodeMut::try_adopt` document that the destination
`PreviousSiblingOf(v)` or `NextSiblingOf(v)` is refused with
`Err(StructureError::SiblingsWithoutParent)` when `v` has no parent, but they
panicked.
---
 src/dynamic/hierarchy.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 666e745..ce3933e 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -414,11 +414,12 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
     /// `next_sibling` are identical.
+    /// Returns [`StructureError::SiblingsWithoutParent`] error when
+    /// `next_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `next_sibling` does not have a parent.
     fn insert_before(&mut self, node: Id, next_sibling: Id) -> Result<(), StructureError> {
         if node == next_sibling {
             return Err(StructureError::UnorderableSiblings);
@@ -429,7 +430,7 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
             .expect("[precondition] the next sibling must be alive");
         let parent = next_nbs
             .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+            .ok_or(StructureError::SiblingsWithoutParent)?;
         let prev_sibling = next_nbs.prev_sibling(self);
         SiblingsRange::with_single_toplevel(self, node).transplant(
             self,
@@ -445,11 +446,12 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
     /// `prev_sibling` are identical.
+    /// Returns [`StructureError::SiblingsWithoutParent`] error when
+    /// `prev_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `prev_sibling` does not have a parent.
     fn insert_after(&mut self, node: Id, prev_sibling: Id) -> Result<(), StructureError> {
         if node == prev_sibling {
             return Err(StructureError::UnorderableSiblings);
@@ -460,7 +462,7 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
             .expect("[precondition] the previous sibling must be alive");
         let parent = prev_nbs
             .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+            .ok_or(StructureError::SiblingsWithoutParent)?;
         let next_sibling = prev_nbs.next_sibling();
         SiblingsRange::with_single_toplevel(self, node).transplant(
             self,
-- 
2.43.0


From edcb29eeaaf8936112744e20691ac3349469b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 3/9] fix: panic when removing a node which is not alive

`remove`, `remove_hooked`, and `remove_hooked_panic_safe` document that they
panic if the node is not alive, but they silently did nothing.
---
 src/dynamic/forest.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/dynamic/forest.rs b/src/dynamic/forest.rs
index f02d8b4..6c682de 100644
--- a/src/dynamic/forest.rs
+++ b/src/dynamic/forest.rs
@@ -771,9 +771,6 @@ impl<Id: NodeId, T> Forest<Id, T> {
             node: InternalId,
             mut f: F,
         ) {
-            if !hierarchy.is_alive(node) {
-                return;
-            }
             hierarchy.detach(node);
 
             let mut traverser = SafeModeDepthFirstTraverser::new(node, hierarchy);
@@ -886,9 +883,6 @@ impl<Id: NodeId, T> Forest<Id, T> {
             node: InternalId,
             mut f: F,
         ) {
-            if !hierarchy.is_alive(node) {
-                return;
-            }
             hierarchy.detach(node);
 
             let mut traverser = SafeModeDepthFirstTraverser::new(node, hierarchy);
-- 
2.43.0


From 0dce6c80448e07a0720b0c6dfecdcd54b9a83232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 4/9] fix: report cloning of a dead subtree as a violated
 precondition

`clone_local_tree` and `clone_local_tree_with_id_mapping` panicked with a
"[consistency]" message, which means a bug of treena, when the given node is
not alive.
---
 src/dynamic/forest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic/forest.rs b/src/dynamic/forest.rs
index 6c682de..d00ff6b 100644
--- a/src/dynamic/forest.rs
+++ b/src/dynamic/forest.rs
@@ -1703,7 +1703,7 @@ impl<Id: NodeId, T: Clone> Forest<Id, T> {
 
         let root_data = self
             .data(src_id)
-            .expect("[consistency] the node must be alive")
+            .expect("[precondition] the node must be alive")
             .clone();
         let root_id = self.create_root(root_data);
         add_mapping(src_id, root_id);
-- 
2.43.0


From d255334306f3a1489945f446b5bf695549e60b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 5/9] fix: report a removed current node of ChainTreeBuilder as
 user error

Users can remove the current node through `ChainTreeBuilder::forest_mut`.
`parent` and `try_parent` then panicked with a "[consistency]" message, which
means a bug of treena.
---
 src/dynamic/forest/chain_builder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dynamic/forest/chain_builder.rs b/src/dynamic/forest/chain_builder.rs
index 26d54d2..7178cc3 100644
--- a/src/dynamic/forest/chain_builder.rs
+++ b/src/dynamic/forest/chain_builder.rs
@@ -215,11 +215,16 @@ impl<'a, Id: NodeId, T> ChainTreeBuilder<'a, Id, T> {
     }
 
     /// Tries to change the current node to the parent of the current node.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the current node is not alive, i.e. has been removed through
+    /// the forest.
     pub fn try_parent(&mut self) -> Option<&mut Self> {
         let parent = self
             .forest
             .node(self.current)
-            .expect("[consistency] nodes in the tree must be alive")
+            .expect("[precondition] the current node must be alive")
             .parent_id()?;
         self.current = parent;
         Some(self)
@@ -230,11 +235,14 @@ impl<'a, Id: NodeId, T> ChainTreeBuilder<'a, Id, T> {
     /// # Panics
     ///
     /// Panics if the current node is the root of a tree.
+    ///
+    /// Panics if the current node is not alive, i.e. has been removed through
+    /// the forest.
     pub fn parent(&mut self) -> &mut Self {
         let parent = self
             .forest
             .node(self.current)
-            .expect("[consistency] nodes in the tree must be alive")
+            .expect("[precondition] the current node must be alive")
             .parent_id()
             .expect("[precondition] the current node should not be the root");
         self.current = parent;
-- 
2.43.0


From adfbdda6ba13f647b637b4f60bc428cce4b202ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 6/9] fix: align lines of multi-line node data in debug print

The rest of the indent was written incorrectly in two cases. For the first
line, the level was marked as "not the first line" too early, and the text was
shifted by extra spaces. For the succeeding lines, only the last one of the
omitted whitespace-only levels was written, and the line was shifted left.
---
 src/dynamic/forest/debug_print.rs | 32 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/dynamic/forest/debug_print.rs b/src/dynamic/forest/debug_print.rs
index 4c88855..0dd4c7c 100644
--- a/src/dynamic/forest/debug_print.rs
+++ b/src/dynamic/forest/debug_print.rs
@@ -122,17 +122,21 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
         }
     }
 
+    /// Returns the index of the last level that is not written only with
+    /// whitespaces.
+    ///
+    /// Returns `None` if there are no such levels.
+    fn last_visible_level(&self) -> Option<usize> {
+        self.indents.iter().rposition(|i| !i.is_all_whitespace())
+    }
+
     /// Writes the indent except for the trailing whitespaces.
     fn write_indent_partial(&mut self) -> fmt::Result {
-        let mut indents = &self.indents[..];
-        while indents.last().map_or(false, |i| i.is_all_whitespace()) {
-            indents = &indents[..(indents.len() - 1)];
-        }
-        if let Some(last) = indents.last() {
-            for indent in &indents[..(indents.len() - 1)] {
+        if let Some(last) = self.last_visible_level() {
+            for indent in &self.indents[..last] {
                 self.fmt.write_str(indent.as_str())?;
             }
-            self.fmt.write_str(last.as_str_leading())?;
+            self.fmt.write_str(self.indents[last].as_str_leading())?;
         }
 
         Ok(())
@@ -141,7 +145,9 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     /// Writes the rest of the indents which are partially written.
     fn complete_partial_indent(&mut self) -> fmt::Result {
         debug_assert_eq!(self.line_state, LineState::PartialIndent);
-        if let Some(indent) = self.indents.last() {
+        // Levels after the last visible level are not yet written at all.
+        let first = self.last_visible_level().unwrap_or(0);
+        for indent in &self.indents[first..] {
             self.fmt.write_str(indent.as_str_trailing_spaces())?;
         }
 
@@ -160,12 +166,7 @@ impl fmt::Write for IndentWriter<'_, '_> {
             }
 
             let (line_end, ends_with_newline) = match s.find('\n') {
-                Some(pos) => {
-                    if let Some(level) = self.indents.last_mut() {
-                        level.is_first_line = false;
-                    }
-                    (pos + 1, true)
-                }
+                Some(pos) => (pos + 1, true),
                 None => (s.len(), false),
             };
             let content = &s[..line_end];
@@ -181,6 +182,9 @@ impl fmt::Write for IndentWriter<'_, '_> {
                 self.fmt.write_str(content)?;
 
                 self.line_state = if ends_with_newline {
+                    if let Some(level) = self.indents.last_mut() {
+                        level.is_first_line = false;
+                    }
                     LineState::BeforeIndent
                 } else {
                     LineState::Content
-- 
2.43.0


From 0c1ed0b396378c8227be1a467a249377e7190a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 7/9] fix: print a line for a node with empty text in debug
 print

Indent of a node was written lazily, so nodes with empty text were missing in
the output and their children looked as if they were at wrong place.
---
 src/dynamic/forest/debug_print.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dynamic/forest/debug_print.rs b/src/dynamic/forest/debug_print.rs
index 0dd4c7c..4a35426 100644
--- a/src/dynamic/forest/debug_print.rs
+++ b/src/dynamic/forest/debug_print.rs
@@ -84,7 +84,8 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     fn new(fmt: &'b mut fmt::Formatter<'a>) -> Self {
         Self {
             fmt,
-            line_state: LineState::BeforeIndent,
+            // The root item does not have indents.
+            line_state: LineState::PartialIndent,
             indents: Vec::new(),
         }
     }
@@ -107,6 +108,10 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
             is_first_line: true,
         });
 
+        // Write the indent here, since the item might have empty text.
+        self.write_indent_partial()?;
+        self.line_state = LineState::PartialIndent;
+
         Ok(())
     }
 
-- 
2.43.0


From 1c8581ae752f95c8861d6721fe039e98b822c539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 8/9] Add step counter hook for verification, guarded by
 cfg(treena_verif)

---
 src/dynamic/hierarchy.rs |  6 ++++++
 src/lib.rs               |  4 ++++
 src/verif_hook.rs        | 40 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 50 insertions(+)
 create mode 100644 src/verif_hook.rs

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index ce3933e..cb2992b 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -36,6 +36,8 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     /// Returns `None` if the node ID is invalid or the node has already been removed.
     #[must_use]
     pub(crate) fn neighbors(&self, id: Id) -> Option<&Neighbors<Id>> {
+        #[cfg(treena_verif)]
+        crate::verif_hook::tick();
         self.neighbors.get(id.to_usize()).filter(|v| v.is_alive())
     }
 
@@ -44,6 +46,8 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     /// Returns `None` if the node ID is invalid or the node has already been removed.
     #[must_use]
     pub(crate) fn neighbors_mut(&mut self, id: Id) -> Option<&mut Neighbors<Id>> {
+        #[cfg(treena_verif)]
+        crate::verif_hook::tick();
         self.neighbors
             .get_mut(id.to_usize())
             .filter(|v| v.is_alive())
@@ -58,6 +62,8 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     /// Returns true if the node is alive.
     #[must_use]
     pub(crate) fn is_alive(&self, id: Id) -> bool {
+        #[cfg(treena_verif)]
+        crate::verif_hook::tick();
         self.neighbors
             .get(id.to_usize())
             .map_or(false, |v| v.is_alive())
diff --git a/src/lib.rs b/src/lib.rs
index e53adc5..a80dcf4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,8 +5,12 @@
 #![warn(clippy::missing_docs_in_private_items)]
 #![warn(clippy::unwrap_used)]
 #![cfg_attr(not(feature = "std"), no_std)]
+// For `cfg(treena_verif)`.
+#![allow(unexpected_cfgs)]
 
 extern crate alloc;
 
 pub mod dynamic;
 mod nonmax;
+#[cfg(treena_verif)]
+pub mod verif_hook;
diff --git a/src/verif_hook.rs b/src/verif_hook.rs
new file mode 100644
index 0000000..6924f3d
--- /dev/null
+++ b/src/verif_hook.rs
@@ -0,0 +1,40 @@
+//! Step counter for external verification harnesses.
+//!
+//! This module exists only when the crate is compiled with
+//! `RUSTFLAGS="--cfg treena_verif"`. It is not a part of the crate's API.
+
+// Only for this module, even when the crate is built without `std` feature.
+extern crate std;
+
+use core::cell::Cell;
+
+/// Message of the panic raised when the step budget is exhausted.
+pub const OUT_OF_STEPS: &str = "[treena_verif] step budget exhausted";
+
+std::thread_local! {
+    /// The number of node accesses by the current thread.
+    static STEPS: Cell<u64> = Cell::new(0);
+    /// The number of node accesses at which the current thread panics.
+    static LIMIT: Cell<u64> = Cell::new(u64::MAX);
+}
+
+/// Returns the number of node accesses by the current thread.
+pub fn steps() -> u64 {
+    STEPS.with(|v| v.get())
+}
+
+/// Lets the current thread panic after `budget` more node accesses.
+pub fn set_budget(budget: u64) {
+    LIMIT.with(|v| v.set(steps().saturating_add(budget)));
+}
+
+/// Counts a node access.
+#[inline]
+pub(crate) fn tick() {
+    let steps = steps() + 1;
+    STEPS.with(|v| v.set(steps));
+    if LIMIT.with(|v| steps > v.get()) {
+        LIMIT.with(|v| v.set(u64::MAX));
+        core::panic!("{}", OUT_OF_STEPS);
+    }
+}
-- 
2.43.0


From 7fe204465a5bc4c6878c1d308337bf5e4d7c0c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:12 +0000
Subject: [PATCH 9/9] Add pause points to the verification hook, guarded by
 cfg(treena_verif)

---
 src/verif_hook.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/verif_hook.rs b/src/verif_hook.rs
index 6924f3d..16a355a 100644
--- a/src/verif_hook.rs
+++ b/src/verif_hook.rs
@@ -1,4 +1,4 @@
-//! Step counter for external verification harnesses.
+//! Step counter and pause points for external verification harnesses.
 //!
 //! This module exists only when the crate is compiled with
 //! `RUSTFLAGS="--cfg treena_verif"`. It is not a part of the crate's API.
@@ -16,6 +16,13 @@ std::thread_local! {
     static STEPS: Cell<u64> = Cell::new(0);
     /// The number of node accesses at which the current thread panics.
     static LIMIT: Cell<u64> = Cell::new(u64::MAX);
+    /// The number of pause points before the current thread calls the callback, and the callback.
+    static PAUSE: Cell<(u64, fn() -> u64)> = Cell::new((u64::MAX, never));
+}
+
+/// The initial callback of pause points.
+fn never() -> u64 {
+    u64::MAX
 }
 
 /// Returns the number of node accesses by the current thread.
@@ -28,9 +35,33 @@ pub fn set_budget(budget: u64) {
     LIMIT.with(|v| v.set(steps().saturating_add(budget)));
 }
 
+/// Lets the current thread call `callback` at the `count`-th pause point from now on.
+///
+/// The callback returns the number of pause points until it is called again.
+/// `u64::MAX` means never. Every node access is a pause point.
+pub fn set_pause(count: u64, callback: fn() -> u64) {
+    PAUSE.with(|v| v.set((count, callback)));
+}
+
+/// Passes a pause point.
+#[inline]
+pub fn pause_point() {
+    let (count, callback) = PAUSE.with(|v| v.get());
+    if count == u64::MAX {
+        return;
+    }
+    if count > 1 {
+        PAUSE.with(|v| v.set((count - 1, callback)));
+        return;
+    }
+    let count = callback();
+    PAUSE.with(|v| v.set((count, callback)));
+}
+
 /// Counts a node access.
 #[inline]
 pub(crate) fn tick() {
+    pause_point();
     let steps = steps() + 1;
     STEPS.with(|v| v.set(steps));
     if LIMIT.with(|v| steps > v.get()) {
-- 
2.43.0

