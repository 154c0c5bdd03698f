From 806be1fc0095bcd9b380100ea15275ae41aa726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 1/5] fix: do not corrupt links when a node is inserted at the
 place it already occupies

---
 src/dynamic/hierarchy.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 91fe0d0..28f5aa4 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -802,6 +802,13 @@ impl<Id: InternalNodeId> SiblingsRange<Id> {
             return Err(StructureError::AncestorDescendantLoop);
         }
 
+        // If an edge of the range is already adjacent to itself in the target
+        // place, then the range is already placed there. Nothing should be
+        // changed, and the range must not be connected to itself.
+        if prev_sibling == Some(self.last) || next_sibling == Some(self.first) {
+            return Ok(());
+        }
+
         // Detach the nodes.
         {
             let first_nbs = hier
-- 
2.43.0


From dcb477e0736ce4c54037b422e81196a26c6357f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 2/5] fix: return SiblingsWithoutParent instead of panicking
 when inserting beside a root

---
 src/dynamic/hierarchy.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 28f5aa4..885d63f 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -414,11 +414,12 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
     /// `next_sibling` are identical.
+    /// Returns [`StructureError::SiblingsWithoutParent`] error when
+    /// `next_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `next_sibling` does not have a parent.
     fn insert_before(&mut self, node: Id, next_sibling: Id) -> Result<(), StructureError> {
         if node == next_sibling {
             return Err(StructureError::UnorderableSiblings);
@@ -429,7 +430,7 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
             .expect("[precondition] the next sibling must be alive");
         let parent = next_nbs
             .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+            .ok_or(StructureError::SiblingsWithoutParent)?;
         let prev_sibling = next_nbs.prev_sibling(self);
         SiblingsRange::with_single_toplevel(self, node).transplant(
             self,
@@ -445,11 +446,12 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
     /// `prev_sibling` are identical.
+    /// Returns [`StructureError::SiblingsWithoutParent`] error when
+    /// `prev_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `prev_sibling` does not have a parent.
     fn insert_after(&mut self, node: Id, prev_sibling: Id) -> Result<(), StructureError> {
         if node == prev_sibling {
             return Err(StructureError::UnorderableSiblings);
@@ -460,7 +462,7 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
             .expect("[precondition] the previous sibling must be alive");
         let parent = prev_nbs
             .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+            .ok_or(StructureError::SiblingsWithoutParent)?;
         let next_sibling = prev_nbs.next_sibling();
         SiblingsRange::with_single_toplevel(self, node).transplant(
             self,
-- 
2.43.0


From 2886bfcc15696a776547d2044551abd51b1674d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 3/5] fix: do not let downstream crates create node IDs from
 arbitrary integers

The conversions of the sealed trait were callable through a generic parameter
bounded by InternalNodeId (supertrait methods need not be imported), so any
crate could forge a node ID, which the documentation rules out.
---
 src/dynamic/forest/debug_print.rs |  2 +-
 src/dynamic/hierarchy.rs          |  2 +-
 src/dynamic/id.rs                 | 28 +++++++++++++++++++++++-----
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/dynamic/forest/debug_print.rs b/src/dynamic/forest/debug_print.rs
index 4c88855..193e324 100644
--- a/src/dynamic/forest/debug_print.rs
+++ b/src/dynamic/forest/debug_print.rs
@@ -7,7 +7,7 @@ use alloc::vec::Vec;
 use crate::dynamic::forest::Node;
 use crate::dynamic::hierarchy::traverse::{DepthFirstTraverser, DftEvent};
 use crate::dynamic::hierarchy::Hierarchy;
-use crate::dynamic::{InternalNodeId, NodeId};
+use crate::dynamic::{InternalNodeId, NodeId, NodeIdExt};
 
 /// State for an indent level.
 #[derive(Clone, Copy)]
diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 885d63f..3b142c6 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -8,7 +8,7 @@ use alloc::vec::Vec;
 
 use crate::dynamic::forest::StructureError;
 use crate::dynamic::hierarchy::traverse::AncestorsTraverser;
-use crate::dynamic::{InsertAs, InternalNodeId};
+use crate::dynamic::{InsertAs, InternalNodeId, NodeIdExt};
 
 /// A forest without custom data tied to nodes.
 #[derive(Debug, Clone)]
diff --git a/src/dynamic/id.rs b/src/dynamic/id.rs
index 733b75b..cf84c32 100644
--- a/src/dynamic/id.rs
+++ b/src/dynamic/id.rs
@@ -79,12 +79,22 @@ pub(super) trait NodeIdExt: Sized {
     /// Returns the raw `usize` value.
     #[must_use]
     fn to_usize(self) -> usize;
+    /// Creates a node ID from the raw `usize` value.
+    ///
+    /// Returns `None` when the value is not representable by the node ID type.
+    #[must_use]
+    fn from_usize(v: usize) -> Option<Self>;
 }
 
 impl<Id: NodeId> NodeIdExt for Id {
     #[inline]
     fn to_usize(self) -> usize {
-        private::SealedInternalNodeId::to_usize(self.to_internal())
+        private::SealedInternalNodeId::to_raw(self.to_internal(), private::Token(()))
+    }
+
+    #[inline]
+    fn from_usize(v: usize) -> Option<Self> {
+        private::SealedInternalNodeId::from_raw(v, private::Token(())).map(Self::from_internal)
     }
 }
 
@@ -117,13 +127,13 @@ macro_rules! define_internal_id_type {
         impl private::SealedInternalNodeId for $ty {
             #[inline]
             #[must_use]
-            fn to_usize(self) -> usize {
+            fn to_raw(self, _: private::Token) -> usize {
                 self.0.get()
             }
 
             #[inline]
             #[must_use]
-            fn from_usize(v: usize) -> Option<Self> {
+            fn from_raw(v: usize, _: private::Token) -> Option<Self> {
                 <$backend>::new(v).map(Self)
             }
         }
@@ -138,6 +148,14 @@ define_internal_id_type!(NodeIdUsize, crate::nonmax::NonMaxUsize, "usize");
 
 /// Private module to provide [`Sealed`][`private::SealedInternalNodeId`] trait.
 mod private {
+    /// A value only this crate can create.
+    ///
+    /// Methods of a supertrait can be called through a generic parameter even
+    /// when the supertrait itself cannot be named, so the methods for internal
+    /// use require this value, in order to be uncallable by downstream crates.
+    #[derive(Debug, Clone, Copy)]
+    pub struct Token(pub(super) ());
+
     /// A trait to seal [`InternalNodeId`][`super::InternalNodeId`] and
     /// provide functions only for internal use.
     ///
@@ -149,12 +167,12 @@ mod private {
     pub trait SealedInternalNodeId: Sized {
         /// Returns the raw `usize` value.
         #[must_use]
-        fn to_usize(self) -> usize;
+        fn to_raw(self, token: Token) -> usize;
         /// Creates a node ID from the raw `usize` value.
         ///
         /// This should return `None` when the node ID creation fails.
         #[must_use]
-        fn from_usize(v: usize) -> Option<Self>;
+        fn from_raw(v: usize, token: Token) -> Option<Self>;
     }
 }
 
-- 
2.43.0


From b4d533e97434c27a4fee5054d026e8034ef36617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:34 +0000
Subject: [PATCH 4/5] fix: debug printing lost nodes whose text is empty

---
 src/dynamic/forest/debug_print.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dynamic/forest/debug_print.rs b/src/dynamic/forest/debug_print.rs
index 193e324..c5dc30a 100644
--- a/src/dynamic/forest/debug_print.rs
+++ b/src/dynamic/forest/debug_print.rs
@@ -84,7 +84,8 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     fn new(fmt: &'b mut fmt::Formatter<'a>) -> Self {
         Self {
             fmt,
-            line_state: LineState::BeforeIndent,
+            // The root has no indent to be written.
+            line_state: LineState::PartialIndent,
             indents: Vec::new(),
         }
     }
@@ -106,6 +107,10 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
             is_last_item,
             is_first_line: true,
         });
+        // Write the leading part of the indent here, since nothing will be
+        // written for the item if its content is empty.
+        self.write_indent_partial()?;
+        self.line_state = LineState::PartialIndent;
 
         Ok(())
     }
-- 
2.43.0


From 97a08ff20f094c557042de9103c2909f82e24b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:54 +0000
Subject: [PATCH 5/5] fix: debug printing misaligned continuation lines of
 multi-line text

---
 src/dynamic/forest/debug_print.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/dynamic/forest/debug_print.rs b/src/dynamic/forest/debug_print.rs
index c5dc30a..4c4cd4a 100644
--- a/src/dynamic/forest/debug_print.rs
+++ b/src/dynamic/forest/debug_print.rs
@@ -146,8 +146,19 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     /// Writes the rest of the indents which are partially written.
     fn complete_partial_indent(&mut self) -> fmt::Result {
         debug_assert_eq!(self.line_state, LineState::PartialIndent);
-        if let Some(indent) = self.indents.last() {
-            self.fmt.write_str(indent.as_str_trailing_spaces())?;
+        // The last levels that consist of only whitespaces are not yet written.
+        let num_omitted = self
+            .indents
+            .iter()
+            .rev()
+            .take_while(|i| i.is_all_whitespace())
+            .count();
+        let (written, omitted) = self.indents.split_at(self.indents.len() - num_omitted);
+        if let Some(last) = written.last() {
+            self.fmt.write_str(last.as_str_trailing_spaces())?;
+        }
+        for indent in omitted {
+            self.fmt.write_str(indent.as_str())?;
         }
 
         Ok(())
@@ -165,12 +176,7 @@ impl fmt::Write for IndentWriter<'_, '_> {
             }
 
             let (line_end, ends_with_newline) = match s.find('\n') {
-                Some(pos) => {
-                    if let Some(level) = self.indents.last_mut() {
-                        level.is_first_line = false;
-                    }
-                    (pos + 1, true)
-                }
+                Some(pos) => (pos + 1, true),
                 None => (s.len(), false),
             };
             let content = &s[..line_end];
@@ -186,6 +192,9 @@ impl fmt::Write for IndentWriter<'_, '_> {
                 self.fmt.write_str(content)?;
 
                 self.line_state = if ends_with_newline {
+                    if let Some(level) = self.indents.last_mut() {
+                        level.is_first_line = false;
+                    }
                     LineState::BeforeIndent
                 } else {
                     LineState::Content
-- 
2.43.0

