From 6af4bbb2aa80ae963080ab2c1aec3e00e176954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 01/26] fix: only match the root of one tree with the root of
 the other

A root could be matched with an inner node (nested nodes of the root's kind),
or be left unmatched when the new root is a leaf. Edit scripts cannot express
either: the script deleted the old root and never produced the new one.
---
 cinereus/src/matching.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 120f033..784823b 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -341,6 +341,12 @@ where
     TA: DiffTree,
     TB: DiffTree<Types = TA::Types>,
 {
+    // A root can only correspond to the other root: edit scripts have no way to
+    // turn a root into an inner node, or an inner node into a root.
+    if tree_a.parent(a_id).is_none() != tree_b.parent(b_id).is_none() {
+        return false;
+    }
+
     // Check if A's parent is matched
     if let Some(a_parent) = tree_a.parent(a_id)
         && let Some(matched_b_parent) = matching.get_b(a_parent)
@@ -549,7 +555,6 @@ fn bottom_up_phase<TA, TB>(
                 .into_iter()
                 .filter(|&b_id| {
                     !matching.contains_b(b_id)
-                        && tree_b.child_count(b_id) > 0
                         && tree_b.parent(b_id).is_none() // Must also be a root
                         && a_props.similarity(tree_b.properties(b_id)) >= config.similarity_threshold
                 })
-- 
2.43.0


From de9fe90c0f1267af7c3a114a6356dc97b66554b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 02/26] fix: never match an opaque node with a transparent one

The descendants of an opaque node take no part in the edit script, so matching
it with a transparent node left its old contents behind (or matched nodes
inside an opaque region).
---
 cinereus/src/matching.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 784823b..59d397b 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -227,6 +227,11 @@ fn top_down_phase<TA, TB>(
             continue;
         }
 
+        // An opaque node and a transparent one are never the same node
+        if tree_a.is_opaque(a_id) != tree_b.is_opaque(b_id) {
+            continue;
+        }
+
         // If hashes match, these subtrees are identical
         if a_hash == b_hash && a_kind == b_kind {
             trace!(a = usize::from(a_id), a_kind = %a_kind, b = usize::from(b_id), "top_down: hash match");
@@ -281,6 +286,11 @@ fn match_subtrees<TA, TB>(
         return;
     }
 
+    // Hashes may not cover what makes a node opaque
+    if tree_a.is_opaque(a_id) != tree_b.is_opaque(b_id) {
+        return;
+    }
+
     matching.add(a_id, b_id);
 
     // If either node is opaque, match the pair but don't recurse into children
@@ -347,6 +357,11 @@ where
         return false;
     }
 
+    // An opaque node and a transparent one are never the same node
+    if tree_a.is_opaque(a_id) != tree_b.is_opaque(b_id) {
+        return false;
+    }
+
     // Check if A's parent is matched
     if let Some(a_parent) = tree_a.parent(a_id)
         && let Some(matched_b_parent) = matching.get_b(a_parent)
@@ -468,7 +483,11 @@ fn bottom_up_phase<TA, TB>(
             // Note: We don't require b to have children - a node can go from having children to empty
             let candidates: Vec<NodeId> = tree_b
                 .children(parent_b)
-                .filter(|&b_id| !matching.contains_b(b_id) && tree_b.kind(b_id) == a_kind)
+                .filter(|&b_id| {
+                    !matching.contains_b(b_id)
+                        && tree_b.kind(b_id) == a_kind
+                        && tree_b.is_opaque(b_id) == tree_a.is_opaque(a_id)
+                })
                 .collect();
 
             // Match by position - don't fall back to first candidate as that can cause
@@ -556,6 +575,7 @@ fn bottom_up_phase<TA, TB>(
                 .filter(|&b_id| {
                     !matching.contains_b(b_id)
                         && tree_b.parent(b_id).is_none() // Must also be a root
+                        && tree_b.is_opaque(b_id) == tree_a.is_opaque(a_id)
                         && a_props.similarity(tree_b.properties(b_id)) >= config.similarity_threshold
                 })
                 .collect();
@@ -602,6 +622,7 @@ fn bottom_up_phase<TA, TB>(
                     !matching.contains_b(b_id)
                         && tree_b.child_count(b_id) == 0
                         && tree_b.kind(b_id) == a_kind
+                        && tree_b.is_opaque(b_id) == tree_a.is_opaque(a_id)
                 })
                 .collect();
 
-- 
2.43.0


From df4dbd7d111746aecac6d6bca7aee869cd227f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 03/26] fix: diff the body element's own attributes

---
 hotmeal/src/diff.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 8dfbc55..96084f7 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -825,21 +825,26 @@ impl<'a> DiffTree for OpaqueAwareTree<'a> {
 /// If the document has no body, returns an empty body tree.
 pub fn build_tree_from_arena<'a>(doc: &Document<'a>) -> Tree<HtmlTreeTypes<'a>> {
     // Find body element, or create an empty body tree if none exists
-    let (body_tag, body_ns, body_id) = if let Some(body_id) = doc.body() {
+    let (body_tag, body_ns, body_attrs, body_id) = if let Some(body_id) = doc.body() {
         let body_node = doc.get(body_id);
         if let NodeKind::Element(elem) = &body_node.kind {
-            (elem.tag.clone(), body_node.ns, Some(body_id))
+            (
+                elem.tag.clone(),
+                body_node.ns,
+                elem.attrs.clone(),
+                Some(body_id),
+            )
         } else {
-            (LocalName::from("body"), Namespace::Html, None)
+            (LocalName::from("body"), Namespace::Html, Vec::new(), None)
         }
     } else {
-        (LocalName::from("body"), Namespace::Html, None)
+        (LocalName::from("body"), Namespace::Html, Vec::new(), None)
     };
 
     let root_data = NodeData {
         hash: NodeHash(0),
         kind: HtmlNodeKind::Element(body_tag, body_ns),
-        properties: HtmlProps { attrs: Vec::new() },
+        properties: HtmlProps { attrs: body_attrs },
         text: None,
     };
 
@@ -1060,6 +1065,21 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
             // Old has no body, new has body - insert all new body children
             let new_body_id = new.body().unwrap();
             let mut patches = Vec::new();
+            if let NodeKind::Element(elem) = &new.get(new_body_id).kind
+                && !elem.attrs.is_empty()
+            {
+                patches.push(Patch::UpdateProps {
+                    path: NodePath(smallvec![0]),
+                    changes: elem
+                        .attrs
+                        .iter()
+                        .map(|(name, value)| PropChange {
+                            name: PropKey::Attr(name.clone()),
+                            value: Some(value.clone()),
+                        })
+                        .collect(),
+                });
+            }
             for (pos, child_id) in new_body_id.children(&new.arena).enumerate() {
                 patches.push(create_insert_patch(new, child_id, pos)?);
             }
-- 
2.43.0


From 8298d0c1014bb7743486f59e2ddd85e8c6d4b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 04/26] fix: address changed opaque nodes by their final path

---
 hotmeal/src/diff.rs | 45 ++++++++++++---------------------------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 96084f7..32d05c1 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1154,8 +1154,10 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         "arena_dom cinereus diff complete"
     );
 
-    // After edit script, emit OpaqueChanged for matched opaque pairs with different inner HTML
-    let mut opaque_patches = Vec::new();
+    let (mut patches, shadow) = convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching)?;
+
+    // After the edit script, emit OpaqueChanged for matched opaque pairs with different inner HTML.
+    // These patches are applied last, so their paths come from the final shadow tree.
     for (a_id, b_id) in matching.pairs() {
         // Check if the node in the new tree is opaque
         if !diff_b.is_opaque(b_id) {
@@ -1165,36 +1167,13 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         if tree_a.hash(a_id) == diff_b.hash(b_id) {
             continue;
         }
-        // Get the original DOM node IDs for serialization
-        // For tree_a (old), the NodeId corresponds to the cinereus tree, not the Document arena.
-        // We need to serialize from the original documents instead.
-        // tree_b's b_id maps directly to the new Document's arena (DiffableDocument wraps it).
-        // tree_a's a_id maps to the cinereus Tree arena, not the old Document arena.
-        // So we serialize from the new document (which is what we want — the new content).
+        // tree_b's b_id maps directly to the new Document's arena (DiffableDocument wraps it),
+        // so we serialize from the new document (which is what we want — the new content).
         let new_inner = new.serialize_inner_html(b_id);
-        opaque_patches.push((
-            a_id,
-            Stem::Owned(compact_str::CompactString::from(new_inner)),
-        ));
-    }
-
-    let mut patches = convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching)?;
-
-    // Now emit OpaqueChanged patches with correct paths from the shadow tree
-    // We need to compute paths for the opaque nodes. Since convert_ops_with_shadow
-    // already consumed the shadow tree, we build a simpler path computation.
-    // Actually, let's integrate opaque patches into convert_ops_with_shadow instead.
-    // For now, compute paths using the same approach as the shadow tree.
-    if !opaque_patches.is_empty() {
-        // Build a fresh shadow just for path computation
-        let shadow = ShadowTree::new(tree_a.0.arena.clone(), tree_a.0.root);
-        for (a_id, content) in opaque_patches {
-            let path = shadow.compute_path(a_id);
-            patches.push(Patch::OpaqueChanged {
-                path: NodePath(path),
-                content,
-            });
-        }
+        patches.push(Patch::OpaqueChanged {
+            path: NodePath(shadow.compute_path(a_id)),
+            content: Stem::Owned(compact_str::CompactString::from(new_inner)),
+        });
     }
 
     Ok(patches)
@@ -1559,7 +1538,7 @@ fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
     tree_a: &Tree<HtmlTreeTypes<'a>>,
     tree_b: &T,
     matching: &Matching,
-) -> Result<Vec<Patch<'a>>, DiffError> {
+) -> Result<(Vec<Patch<'a>>, ShadowTree<'a>), DiffError> {
     // Create shadow tree with encapsulated state
     let mut shadow = ShadowTree::new(tree_a.arena.clone(), tree_a.root);
 
@@ -1869,7 +1848,7 @@ fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
         }
     }
 
-    Ok(result)
+    Ok((result, shadow))
 }
 
 /// Extract attributes and children from a node in tree_b.
-- 
2.43.0


From 4e1d97b0b72381b30859bb5b15e3b99517a6a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 05/26] fix: report attribute-only changes inside opaque
 content

---
 hotmeal/src/diff.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 32d05c1..e1d4347 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1163,8 +1163,7 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         if !diff_b.is_opaque(b_id) {
             continue;
         }
-        // Compare hashes — if identical, no change
-        if tree_a.hash(a_id) == diff_b.hash(b_id) {
+        if same_content(&tree_a, a_id, &diff_b, b_id) {
             continue;
         }
         // tree_b's b_id maps directly to the new Document's arena (DiffableDocument wraps it),
@@ -1179,6 +1178,23 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
     Ok(patches)
 }
 
+/// Whether two nodes have the same content: equal descendants, attributes included.
+///
+/// Node hashes leave attributes out, so they cannot answer this.
+fn same_content<'a, A, B>(tree_a: &A, a: NodeId, tree_b: &B, b: NodeId) -> bool
+where
+    A: DiffTree<Types = HtmlTreeTypes<'a>>,
+    B: DiffTree<Types = HtmlTreeTypes<'a>>,
+{
+    tree_a.child_count(a) == tree_b.child_count(b)
+        && tree_a.children(a).zip(tree_b.children(b)).all(|(a, b)| {
+            tree_a.kind(a) == tree_b.kind(b)
+                && tree_a.text(a) == tree_b.text(b)
+                && tree_a.properties(a).attrs == tree_b.properties(b).attrs
+                && same_content(tree_a, a, tree_b, b)
+        })
+}
+
 /// Encapsulates the shadow tree with slot-based path computation.
 ///
 /// The arena has a "super root" whose children are slot nodes:
-- 
2.43.0


From df91150f7f66dea83317123bda6bef31a9ec3d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 06/26] fix: give inserted SVG and MathML elements their
 namespace

---
 hotmeal-wasm/src/lib.rs | 30 ++++++++++++++++------
 hotmeal/src/dom.rs      | 55 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 77 insertions(+), 8 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 0e9f8b8..cdaff5e 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -21,7 +21,7 @@
 //! which is essential for live-reload systems where hotmeal manages only part
 //! of the document.
 
-use hotmeal::{InsertContent, NodeId, StrTendril, parse};
+use hotmeal::{InsertContent, Namespace, NodeId, StrTendril, parse};
 #[cfg(target_arch = "wasm32")]
 use hotmeal_server::LiveReloadEvent;
 use smallvec::SmallVec;
@@ -466,10 +466,10 @@ fn apply_patch(
                 .ok_or_else(|| JsValue::from_str("parent is not an element"))?
                 .clone();
 
-            let new_node: Node = match create_element_with_attrs(doc, tag, attrs) {
+            let new_node: Node = match create_element_with_attrs(doc, &parent_el, tag, attrs) {
                 Ok(el) => {
                     for child in children {
-                        let child_node = create_insert_content(doc, child)?;
+                        let child_node = create_insert_content(doc, &el, child)?;
                         el.append_child(&child_node)?;
                     }
                     el.into()
@@ -718,14 +718,24 @@ fn insert_at_position(
     Ok(())
 }
 
-/// Try to create an element with attributes using the DOM API.
+/// Try to create an element with attributes using the DOM API, in the namespace
+/// the HTML parser would give it inside `parent`.
 /// Returns Err if any attribute name is invalid for setAttribute.
 fn create_element_with_attrs(
     doc: &Document,
+    parent: &Element,
     tag: &str,
     attrs: &[hotmeal::AttrPair],
 ) -> Result<Element, JsValue> {
-    let el = doc.create_element(tag)?;
+    let ns = Namespace::from_url(&parent.namespace_uri().unwrap_or_default()).of_child(
+        &parent.local_name(),
+        parent.get_attribute("encoding").as_deref(),
+        tag,
+    );
+    let el = match ns {
+        Namespace::Html => doc.create_element(tag)?,
+        _ => doc.create_element_ns(Some(ns.url()), tag)?,
+    };
     for attr in attrs {
         let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
             Some(prefix) => format!("{}:{}", prefix, attr.name.local),
@@ -823,16 +833,20 @@ fn serialize_insert_content(out: &mut String, content: &InsertContent) {
 }
 
 /// Create a DOM node from InsertContent.
-fn create_insert_content(doc: &Document, content: &InsertContent) -> Result<Node, JsValue> {
+fn create_insert_content(
+    doc: &Document,
+    parent: &Element,
+    content: &InsertContent,
+) -> Result<Node, JsValue> {
     match content {
         InsertContent::Element {
             tag,
             attrs,
             children,
-        } => match create_element_with_attrs(doc, tag, attrs) {
+        } => match create_element_with_attrs(doc, parent, tag, attrs) {
             Ok(el) => {
                 for child in children {
-                    let child_node = create_insert_content(doc, child)?;
+                    let child_node = create_insert_content(doc, &el, child)?;
                     el.append_child(&child_node)?;
                 }
                 Ok(el.into())
diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index b259f3b..1810886 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -524,6 +524,7 @@ impl<'a> Document<'a> {
                 }
 
                 self.insert_at(&at, new_node, detach_to_slot, slots)?;
+                self.inherit_namespace(new_node);
             }
             Patch::InsertText {
                 at,
@@ -779,6 +780,34 @@ impl<'a> Document<'a> {
         Ok(())
     }
 
+    /// Give a newly inserted subtree the namespaces the HTML parser would give it
+    /// in this place (patches don't carry namespaces).
+    fn inherit_namespace(&mut self, node_id: NodeId) {
+        let NodeKind::Element(elem) = &self.get(node_id).kind else {
+            return;
+        };
+        let Some(parent) = self.parent(node_id).map(|id| self.get(id)) else {
+            return;
+        };
+        let NodeKind::Element(parent_elem) = &parent.kind else {
+            return;
+        };
+        let encoding = parent_elem
+            .attrs
+            .iter()
+            .find(|(k, _)| k.local.as_ref() == "encoding")
+            .map(|(_, v)| v.as_ref());
+        let ns = parent
+            .ns
+            .of_child(parent_elem.tag.as_ref(), encoding, elem.tag.as_ref());
+        self.get_mut(node_id).ns = ns;
+
+        let children: Vec<_> = node_id.children(&self.arena).collect();
+        for child_id in children {
+            self.inherit_namespace(child_id);
+        }
+    }
+
     fn create_insert_content(&mut self, content: InsertContent<'a>) -> Result<NodeId, DiffError> {
         match content {
             InsertContent::Element {
@@ -1007,6 +1036,32 @@ impl Namespace {
             Namespace::MathMl => "http://www.w3.org/1998/Math/MathML",
         }
     }
+
+    /// Namespace the HTML parser gives to an element `tag` inside a parent with
+    /// this namespace, tag and `encoding` attribute.
+    pub fn of_child(self, parent_tag: &str, parent_encoding: Option<&str>, tag: &str) -> Self {
+        let html_content = match self {
+            Namespace::Html => true,
+            Namespace::Svg => matches!(parent_tag, "foreignObject" | "desc" | "title"),
+            Namespace::MathMl => match parent_tag {
+                "mi" | "mo" | "mn" | "ms" | "mtext" => !matches!(tag, "mglyph" | "malignmark"),
+                "annotation-xml" => {
+                    tag == "svg"
+                        || parent_encoding.is_some_and(|e| {
+                            e.eq_ignore_ascii_case("text/html")
+                                || e.eq_ignore_ascii_case("application/xhtml+xml")
+                        })
+                }
+                _ => false,
+            },
+        };
+        match tag {
+            _ if !html_content => self,
+            "svg" => Namespace::Svg,
+            "math" => Namespace::MathMl,
+            _ => Namespace::Html,
+        }
+    }
 }
 
 fn has_doctype_prefix(input: &str) -> bool {
-- 
2.43.0


From 4dc06b7af682030ae8dde9331947a327e5aa429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 07/26] fix: empty a slot when its node is moved or removed

---
 hotmeal/src/dom.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 1810886..31e6ea3 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -550,6 +550,14 @@ impl<'a> Document<'a> {
             }
             Patch::Remove { node } => {
                 let path = &node.0.0;
+                if path.len() == 1 && path[0] != 0 {
+                    // A displaced subtree that is not coming back
+                    let slot = path[0];
+                    slots
+                        .remove(&slot)
+                        .ok_or(DiffError::SlotNotFound { slot })?;
+                    return Ok(());
+                }
                 // Navigate to the node and replace with placeholder
                 let node_id = self.navigate_slot_path(path, slots)?;
                 let empty_text = self.arena.new_node(NodeData {
@@ -613,6 +621,11 @@ impl<'a> Document<'a> {
                     node_to_move.insert_before(empty_text, &mut self.arena);
                     node_to_move.detach(&mut self.arena);
                 } else {
+                    // The slot is empty once its node has moved out; the body stays
+                    let slot = from_path[0];
+                    if slot == 0 || slots.remove(&slot).is_none() {
+                        return Err(DiffError::SlotNotFound { slot });
+                    }
                     node_to_move.detach(&mut self.arena);
                 }
 
-- 
2.43.0


From 5f5b90e0fdc08aadc75a18b6065c9e2af0674666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 08/26] fix: reject patches that put children under a text or
 comment node

---
 hotmeal/src/dom.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 31e6ea3..1d786a5 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -449,6 +449,9 @@ impl<'a> Document<'a> {
         let position = path[path.len() - 1] as usize;
         let parent_path = &path[..path.len() - 1];
         let parent_id = self.navigate_slot_path(parent_path, slots)?;
+        if !matches!(self.get(parent_id).kind, NodeKind::Element(_)) {
+            return Err(DiffError::NotAnElement);
+        }
 
         Ok((parent_id, position))
     }
@@ -687,6 +690,9 @@ impl<'a> Document<'a> {
             }
             Patch::OpaqueChanged { path, content } => {
                 let node_id = self.navigate_slot_path(&path.0, slots)?;
+                if !matches!(self.get(node_id).kind, NodeKind::Element(_)) {
+                    return Err(DiffError::NotAnElement);
+                }
                 // Remove all existing children
                 let children: Vec<_> = node_id.children(&self.arena).collect();
                 for child in children {
-- 
2.43.0


From e168f8262b20db36783b9ac5c9dde7ba7ab19aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 09/26] fix: reject a Remove patch with an empty path instead
 of panicking

---
 hotmeal-wasm/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index cdaff5e..a34e017 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -417,7 +417,9 @@ fn apply_patch(
 
         Patch::Remove { node } => {
             let NodeRef(path) = node;
-            let slot = path.0[0];
+            let Some(&slot) = path.0.first() else {
+                return Err(JsValue::from_str("Remove: empty path"));
+            };
             if slot == 0 {
                 let rel_path = NodePath(SmallVec::from_slice(&path.0[1..]));
                 let target = navigate_within_node(root, &rel_path)?;
-- 
2.43.0


From cd210e806cce38addfceb28843349de09668e2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 10/26] fix: find the root element behind a leading comment

---
 hotmeal/src/dom.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 1d786a5..5144836 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1395,11 +1395,12 @@ impl<'a> TreeSink for ArenaSink<'a> {
     fn finish(self) -> Self::Output {
         let arena = self.arena.into_inner();
 
-        // Find the root element (usually <html>)
+        // Find the root element (usually <html>); comments may come before it
         let root = self
             .document
             .children(&arena)
-            .next()
+            .find(|&id| matches!(arena[id].get().kind, NodeKind::Element(_)))
+            .or_else(|| self.document.children(&arena).next())
             .unwrap_or(self.document);
 
         Document {
-- 
2.43.0


From 5280525b09fb79083703a640a25715c976d1c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 11/26] fix: write SVG and MathML elements as ordinary elements

---
 hotmeal/src/dom.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 5144836..c8b2758 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -924,8 +924,12 @@ impl<'a> Document<'a> {
             out.push('"');
         }
 
+        // Void and raw text elements are HTML elements; their namesakes in SVG and
+        // MathML have ordinary content
+        let is_html = self.get(node_id).ns == Namespace::Html;
+
         // Check if void element
-        if is_void_element(tag) {
+        if is_html && is_void_element(tag) {
             out.push('>');
             return;
         }
@@ -933,7 +937,7 @@ impl<'a> Document<'a> {
         out.push('>');
 
         // Children - raw text elements (script, style) should not have their content escaped
-        let is_raw_text = is_raw_text_element(tag);
+        let is_raw_text = is_html && is_raw_text_element(tag);
         for child_id in node_id.children(&self.arena) {
             if is_raw_text {
                 self.serialize_node_raw(out, child_id);
-- 
2.43.0


From 50d480dd594ad1a248eb792faf7c8c358bee668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 12/26] fix: write iframe, xmp, noembed, noframes and plaintext
 as raw text

---
 hotmeal/src/dom.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index c8b2758..8b8ef4e 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1001,7 +1001,10 @@ fn is_void_element(tag: &str) -> bool {
 /// (html5ever's default). When scripting is enabled, noscript is parsed as rawtext,
 /// so it must also be serialized as rawtext for innerHTML to be idempotent.
 fn is_raw_text_element(tag: &str) -> bool {
-    matches!(tag, "script" | "style" | "noscript")
+    matches!(
+        tag,
+        "script" | "style" | "noscript" | "iframe" | "xmp" | "noembed" | "noframes" | "plaintext"
+    )
 }
 
 /// What goes in each arena slot
-- 
2.43.0


From 6eb933380e44a691595f1303a6b7b1485ef60b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 13/26] fix: append nothing to bare content before parsing

---
 hotmeal/src/dom.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 8b8ef4e..afb7230 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1129,8 +1129,9 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
     // When the input doesn't have a doctype, we need to wrap it carefully.
     // Simply prepending "<!DOCTYPE html>" would cause leading whitespace in
     // content like " *" to become inter-element whitespace before <html> and
-    // get discarded. Instead, wrap in <html><body>...</body></html> so the
-    // content is clearly in the body context.
+    // get discarded. Instead, prepend <html><body> so the content is clearly
+    // in the body context. Nothing is appended: content that ends inside a tag,
+    // a comment or a raw text element would swallow it.
     let input = if has_doctype {
         tendril.clone()
     } else if has_html_structure(input_ref) {
@@ -1139,10 +1140,9 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
         with_doctype.push_tendril(tendril);
         with_doctype
     } else {
-        // Input is raw body content - wrap it to preserve leading whitespace
+        // Input is raw body content - open the body to preserve leading whitespace
         let mut wrapped = StrTendril::from("<!DOCTYPE html><html><body>");
         wrapped.push_tendril(tendril);
-        wrapped.push_slice("</body></html>");
         wrapped
     };
 
-- 
2.43.0


From d075f2a7b41afb3977d88bd8d8ccd660fc21cc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 14/26] fix: inject into the head, not into a header element

---
 hotmeal-server/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index f5e8528..3b7f03b 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -232,9 +232,18 @@ impl Default for LiveReloadServer {
 /// Searches for `<head>` (case-insensitive) and injects `content` immediately after it.
 /// If no `<head>` tag is found, prepends content at the start.
 pub fn inject_into_head(html: &str, content: &str) -> String {
-    // Find <head> or <head ...> tag (case-insensitive)
+    // Find <head> or <head ...> tag (case-insensitive),
     let lower = html.to_ascii_lowercase();
-    if let Some(head_start) = lower.find("<head") {
+    // but not <header> or any other tag whose name only starts with "head"
+    let is_head_tag = |start: &usize| {
+        let after = lower.as_bytes().get(start + "<head".len());
+        after.is_some_and(|b| b.is_ascii_whitespace() || matches!(b, b'>' | b'/'))
+    };
+    let head_start = lower
+        .match_indices("<head")
+        .map(|(start, _)| start)
+        .find(is_head_tag);
+    if let Some(head_start) = head_start {
         // Find the closing '>' of the <head> tag
         if let Some(head_end) = html[head_start..].find('>') {
             let insert_pos = head_start + head_end + 1;
-- 
2.43.0


From a525f9a24dbe238ac326acfacedd18051c472d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 15/26] Hook: compile the live-reload client under
 cfg(hotmeal_mc) too

---
 hotmeal-wasm/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index a34e017..b356d6b 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -21,8 +21,11 @@
 //! which is essential for live-reload systems where hotmeal manages only part
 //! of the document.
 
+// `hotmeal_mc` is set by model checkers that run the live-reload client natively.
+#![allow(unexpected_cfgs)]
+
 use hotmeal::{InsertContent, Namespace, NodeId, StrTendril, parse};
-#[cfg(target_arch = "wasm32")]
+#[cfg(any(target_arch = "wasm32", hotmeal_mc))]
 use hotmeal_server::LiveReloadEvent;
 use smallvec::SmallVec;
 use tracing::{debug, trace};
@@ -184,7 +187,10 @@ pub fn apply_patches_postcard_on(
 // Live-reload roam RPC client (wasm32 only)
 // ============================================================================
 
-#[cfg(target_arch = "wasm32")]
+#[cfg(hotmeal_mc)]
+pub use live_reload::start_live_reload;
+
+#[cfg(any(target_arch = "wasm32", hotmeal_mc))]
 mod live_reload {
     use super::*;
     use hotmeal_server::{LiveReloadBrowser, LiveReloadBrowserDispatcher, LiveReloadServiceClient};
-- 
2.43.0


From a6ca3c0d4dfc6f432334490aae8856a6f1f17cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 16/26] fix: read xmlns on foreign elements without a prefix

html5ever gives it an empty prefix, and it was written as ':xmlns'.
---
 hotmeal/src/dom.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index afb7230..a072484 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1391,6 +1391,12 @@ impl<'a> ArenaSink<'a> {
     }
 }
 
+/// html5ever gives `xmlns` on foreign elements an empty prefix, which is no prefix.
+fn attr_name(mut name: QualName) -> QualName {
+    name.prefix = name.prefix.filter(|p| !p.is_empty());
+    name
+}
+
 impl<'a> TreeSink for ArenaSink<'a> {
     type Handle = NodeId;
     type Output = Document<'a>;
@@ -1473,7 +1479,7 @@ impl<'a> TreeSink for ArenaSink<'a> {
 
         let attrs: Vec<_> = attrs
             .into_iter()
-            .map(|attr| (attr.name, self.tendril_to_stem(attr.value)))
+            .map(|attr| (attr_name(attr.name), self.tendril_to_stem(attr.value)))
             .collect();
 
         // Create node in arena
-- 
2.43.0


From c4a6117f6855db8d6aeed00fefa2e9c7d05e1359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 17/26] fix: set attributes in the browser as the parser would

Namespaced attributes lost their namespace, and names that only the parser
accepts made an update fail with all attributes removed.
---
 hotmeal-wasm/src/lib.rs | 71 ++++++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 22 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index b356d6b..c477936 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -24,7 +24,7 @@
 // `hotmeal_mc` is set by model checkers that run the live-reload client natively.
 #![allow(unexpected_cfgs)]
 
-use hotmeal::{InsertContent, Namespace, NodeId, StrTendril, parse};
+use hotmeal::{InsertContent, Namespace, NodeId, QualName, StrTendril, parse};
 #[cfg(any(target_arch = "wasm32", hotmeal_mc))]
 use hotmeal_server::LiveReloadEvent;
 use smallvec::SmallVec;
@@ -405,20 +405,12 @@ fn apply_patch(
 
         Patch::SetAttribute { path, name, value } => {
             let el = find_element(root, path, slots)?;
-            let attr_name = match name.prefix.as_ref().filter(|p| !p.is_empty()) {
-                Some(prefix) => format!("{}:{}", prefix, name.local),
-                None => name.local.to_string(),
-            };
-            el.set_attribute(&attr_name, value)?;
+            set_attr(doc, &el, name, value)?;
         }
 
         Patch::RemoveAttribute { path, name } => {
             let el = find_element(root, path, slots)?;
-            let attr_name = match name.prefix.as_ref().filter(|p| !p.is_empty()) {
-                Some(prefix) => format!("{}:{}", prefix, name.local),
-                None => name.local.to_string(),
-            };
-            el.remove_attribute(&attr_name)?;
+            el.remove_attribute(&qualified_name(name))?;
         }
 
         Patch::Remove { node } => {
@@ -592,16 +584,12 @@ fn apply_patch(
 
                 for change in changes {
                     if let PropKey::Attr(ref qual_name) = change.name {
-                        let attr_name = if let Some(ref prefix) = qual_name.prefix {
-                            format!("{}:{}", prefix, qual_name.local)
-                        } else {
-                            qual_name.local.to_string()
-                        };
+                        let attr_name = qualified_name(qual_name);
                         let value = match &change.value {
                             Some(v) => v.as_ref().to_string(),
                             None => existing.get(&attr_name).cloned().unwrap_or_default(),
                         };
-                        el.set_attribute(&attr_name, &value)?;
+                        set_attr(doc, el, qual_name, &value)?;
                     }
                 }
             }
@@ -745,15 +733,54 @@ fn create_element_with_attrs(
         _ => doc.create_element_ns(Some(ns.url()), tag)?,
     };
     for attr in attrs {
-        let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-            Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-            None => attr.name.local.to_string(),
-        };
-        el.set_attribute(&attr_name, &attr.value)?;
+        set_attr(doc, &el, &attr.name, &attr.value)?;
     }
     Ok(el)
 }
 
+/// The name of an attribute as written in markup.
+fn qualified_name(name: &QualName) -> String {
+    match name.prefix.as_ref().filter(|p| !p.is_empty()) {
+        Some(prefix) => format!("{}:{}", prefix, name.local),
+        None => name.local.to_string(),
+    }
+}
+
+/// Set an attribute in its own namespace. Names that the HTML parser accepts
+/// but the DOM API rejects (`@click`, `[value]`) are made by the parser.
+fn set_attr(doc: &Document, el: &Element, name: &QualName, value: &str) -> Result<(), JsValue> {
+    let attr_name = qualified_name(name);
+    if !name.ns.is_empty() {
+        return el.set_attribute_ns(Some(&name.ns), &attr_name, value);
+    }
+    if el.set_attribute(&attr_name, value).is_ok() {
+        return Ok(());
+    }
+    let parsed = parse_element(doc, &format!("<p {attr_name}>"))?;
+    let attr = parsed
+        .attributes()
+        .item(0)
+        .ok_or_else(|| JsValue::from_str(&format!("invalid attribute name {attr_name:?}")))?;
+    parsed.remove_attribute_node(&attr)?;
+    attr.set_value(value);
+    el.set_attribute_node(&attr)?;
+    Ok(())
+}
+
+/// The first element in `html`, from the HTML parser.
+fn parse_element(doc: &Document, html: &str) -> Result<Element, JsValue> {
+    let template = doc
+        .create_element("template")?
+        .dyn_into::<web_sys::HtmlTemplateElement>()
+        .map_err(|_| JsValue::from_str("failed to create template element"))?;
+    template.set_inner_html(html);
+    template
+        .content()
+        .first_child()
+        .and_then(|node| node.dyn_into().ok())
+        .ok_or_else(|| JsValue::from_str("template content is empty"))
+}
+
 /// Create an element via innerHTML when setAttribute fails.
 /// This handles exotic attribute names that the HTML parser accepts but the DOM API rejects.
 fn create_element_via_html(
-- 
2.43.0


From 27dcd872911916e4fff450108185f51c346718c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 18/26] fix: create only the element itself through the parser
 in the browser

Elements with a name the DOM API rejects were created from markup with all
their content, which escaped raw text, gave void elements end tags and left
out the namespace of foreign content.
---
 hotmeal-wasm/src/lib.rs | 148 ++++++++--------------------------------
 1 file changed, 28 insertions(+), 120 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index c477936..d14d77a 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -466,16 +466,7 @@ fn apply_patch(
                 .ok_or_else(|| JsValue::from_str("parent is not an element"))?
                 .clone();
 
-            let new_node: Node = match create_element_with_attrs(doc, &parent_el, tag, attrs) {
-                Ok(el) => {
-                    for child in children {
-                        let child_node = create_insert_content(doc, &el, child)?;
-                        el.append_child(&child_node)?;
-                    }
-                    el.into()
-                }
-                Err(_) => create_element_via_html(doc, tag, attrs, children)?,
-            };
+            let new_node = create_element(doc, &parent_el, tag, attrs, children)?;
 
             insert_at_position(
                 doc,
@@ -714,28 +705,39 @@ fn insert_at_position(
     Ok(())
 }
 
-/// Try to create an element with attributes using the DOM API, in the namespace
-/// the HTML parser would give it inside `parent`.
-/// Returns Err if any attribute name is invalid for setAttribute.
-fn create_element_with_attrs(
+/// Create an element with its attributes and children, in the namespace the
+/// HTML parser would give it inside `parent`. Tag names that the HTML parser
+/// accepts but the DOM API rejects are made by the parser.
+fn create_element(
     doc: &Document,
     parent: &Element,
     tag: &str,
     attrs: &[hotmeal::AttrPair],
-) -> Result<Element, JsValue> {
+    children: &[InsertContent],
+) -> Result<Node, JsValue> {
     let ns = Namespace::from_url(&parent.namespace_uri().unwrap_or_default()).of_child(
         &parent.local_name(),
         parent.get_attribute("encoding").as_deref(),
         tag,
     );
-    let el = match ns {
-        Namespace::Html => doc.create_element(tag)?,
-        _ => doc.create_element_ns(Some(ns.url()), tag)?,
+    let created = match ns {
+        Namespace::Html => doc.create_element(tag),
+        _ => doc.create_element_ns(Some(ns.url()), tag),
+    };
+    let el = match (created, ns) {
+        (Ok(el), _) => el,
+        (Err(_), Namespace::Html) => parse_element(doc, &format!("<{tag}>"))?,
+        (Err(_), Namespace::Svg) => parse_element(doc, &format!("<svg><{tag}>"))?,
+        (Err(_), Namespace::MathMl) => parse_element(doc, &format!("<math><{tag}>"))?,
     };
     for attr in attrs {
         set_attr(doc, &el, &attr.name, &attr.value)?;
     }
-    Ok(el)
+    for child in children {
+        let child_node = create_insert_content(doc, &el, child)?;
+        el.append_child(&child_node)?;
+    }
+    Ok(el.into())
 }
 
 /// The name of an attribute as written in markup.
@@ -767,104 +769,19 @@ fn set_attr(doc: &Document, el: &Element, name: &QualName, value: &str) -> Resul
     Ok(())
 }
 
-/// The first element in `html`, from the HTML parser.
+/// The innermost element that starts in `html`, from the HTML parser.
 fn parse_element(doc: &Document, html: &str) -> Result<Element, JsValue> {
     let template = doc
         .create_element("template")?
         .dyn_into::<web_sys::HtmlTemplateElement>()
         .map_err(|_| JsValue::from_str("failed to create template element"))?;
     template.set_inner_html(html);
-    template
-        .content()
-        .first_child()
-        .and_then(|node| node.dyn_into().ok())
-        .ok_or_else(|| JsValue::from_str("template content is empty"))
-}
-
-/// Create an element via innerHTML when setAttribute fails.
-/// This handles exotic attribute names that the HTML parser accepts but the DOM API rejects.
-fn create_element_via_html(
-    doc: &Document,
-    tag: &str,
-    attrs: &[hotmeal::AttrPair],
-    children: &[InsertContent],
-) -> Result<Node, JsValue> {
-    use web_sys::HtmlTemplateElement;
-
-    let mut html = format!("<{}", tag);
-    for attr in attrs {
-        let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-            Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-            None => attr.name.local.to_string(),
-        };
-        let escaped_value = attr
-            .value
-            .replace('&', "&amp;")
-            .replace('"', "&quot;")
-            .replace('<', "&lt;")
-            .replace('>', "&gt;");
-        html.push_str(&format!(" {}=\"{}\"", attr_name, escaped_value));
-    }
-    html.push('>');
-
-    for child in children {
-        serialize_insert_content(&mut html, child);
-    }
-
-    html.push_str(&format!("</{}>", tag));
-
-    let template = doc
-        .create_element("template")?
-        .dyn_into::<HtmlTemplateElement>()
-        .map_err(|_| JsValue::from_str("failed to create template element"))?;
-    template.set_inner_html(&html);
-
-    template
-        .content()
-        .first_child()
-        .ok_or_else(|| JsValue::from_str("template content is empty"))
-}
-
-/// Serialize InsertContent to HTML string
-fn serialize_insert_content(out: &mut String, content: &InsertContent) {
-    match content {
-        InsertContent::Element {
-            tag,
-            attrs,
-            children,
-        } => {
-            out.push('<');
-            out.push_str(tag);
-            for attr in attrs {
-                let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-                    Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-                    None => attr.name.local.to_string(),
-                };
-                let escaped_value = attr
-                    .value
-                    .replace('&', "&amp;")
-                    .replace('"', "&quot;")
-                    .replace('<', "&lt;")
-                    .replace('>', "&gt;");
-                out.push_str(&format!(" {}=\"{}\"", attr_name, escaped_value));
-            }
-            out.push('>');
-            for child in children {
-                serialize_insert_content(out, child);
-            }
-            out.push_str("</");
-            out.push_str(tag);
-            out.push('>');
-        }
-        InsertContent::Text(text) => {
-            out.push_str(&text.replace('&', "&amp;").replace('<', "&lt;"));
-        }
-        InsertContent::Comment(text) => {
-            out.push_str("<!--");
-            out.push_str(text);
-            out.push_str("-->");
-        }
+    let mut node: Node = template.content().into();
+    while let Some(child) = node.first_child() {
+        node = child;
     }
+    node.dyn_into()
+        .map_err(|_| JsValue::from_str("no element in the markup"))
 }
 
 /// Create a DOM node from InsertContent.
@@ -878,16 +795,7 @@ fn create_insert_content(
             tag,
             attrs,
             children,
-        } => match create_element_with_attrs(doc, parent, tag, attrs) {
-            Ok(el) => {
-                for child in children {
-                    let child_node = create_insert_content(doc, &el, child)?;
-                    el.append_child(&child_node)?;
-                }
-                Ok(el.into())
-            }
-            Err(_) => create_element_via_html(doc, tag, attrs, children),
-        },
+        } => create_element(doc, parent, tag, attrs, children),
         InsertContent::Text(text) => Ok(doc.create_text_node(text).into()),
         InsertContent::Comment(text) => Ok(doc.create_comment(text).into()),
     }
-- 
2.43.0


From ede2d7d30ebe234bae4ecbbd4b57f4d83134026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 19/26] fix: keep a newline at the start of pre, listing and
 textarea when serializing

---
 hotmeal/src/dom.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index a072484..56007ad 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -936,6 +936,16 @@ impl<'a> Document<'a> {
 
         out.push('>');
 
+        // The parser drops a newline right after these start tags
+        if is_html
+            && matches!(tag, "pre" | "listing" | "textarea")
+            && let Some(first) = node_id.children(&self.arena).next()
+            && let NodeKind::Text(text) = &self.get(first).kind
+            && text.as_ref().starts_with('\n')
+        {
+            out.push('\n');
+        }
+
         // Children - raw text elements (script, style) should not have their content escaped
         let is_raw_text = is_html && is_raw_text_element(tag);
         for child_id in node_id.children(&self.arena) {
-- 
2.43.0


From e2e347fcaa2e0e7f469469a1c87f26380211581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 20/26] fix: let annotation-xml hold HTML content as its
 encoding attribute says

---
 hotmeal/src/dom.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 56007ad..94bd437 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1816,6 +1816,18 @@ impl<'a> TreeSink for ArenaSink<'a> {
         *self.doctype.borrow_mut() = Some(self.tendril_to_stem(name));
     }
 
+    fn is_mathml_annotation_xml_integration_point(&self, target: &Self::Handle) -> bool {
+        let arena = self.arena.borrow();
+        let NodeKind::Element(elem) = &arena[*target].get().kind else {
+            return false;
+        };
+        elem.attrs.iter().any(|(k, v)| {
+            k.local.as_ref() == "encoding"
+                && (v.as_ref().eq_ignore_ascii_case("text/html")
+                    || v.as_ref().eq_ignore_ascii_case("application/xhtml+xml"))
+        })
+    }
+
     fn get_template_contents(&self, target: &Self::Handle) -> Self::Handle {
         // For <template>, return the element itself
         // (proper template support would need a template contents fragment)
-- 
2.43.0


From d42293068560b445c667cbd144e602564722e765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 21/26] fix: the body is the root of the compared tree

DiffableDocument::parent returned the html element for the body, so the
matcher never saw the two bodies as the roots of the compared trees and
left them unmatched; changing one text re-created its ancestors.
---
 hotmeal/src/diff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index e1d4347..de84fcd 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -667,6 +667,10 @@ impl<'b, 'a> DiffTree for DiffableDocument<'b, 'a> {
     }
 
     fn parent(&self, id: NodeId) -> Option<NodeId> {
+        // The body is the root here, whatever it hangs under in the document
+        if id == self.body_id {
+            return None;
+        }
         self.doc.arena.get(id).and_then(|n| n.parent())
     }
 
-- 
2.43.0


From 4208d74e277343f2e86bf4106823ad583003ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 22/26] fix: quote the loader script's arguments as JavaScript
 strings

A selector such as [data-app="main"], a backslash or </script> in an
argument broke the generated script.
---
 hotmeal-server/src/lib.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index 3b7f03b..6630d7a 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -275,6 +275,8 @@ pub fn loader_script(
     mount_selector: &str,
     ws_url: &str,
 ) -> String {
+    let [wasm_js_url, wasm_url, mount_selector, ws_url] =
+        [wasm_js_url, wasm_url, mount_selector, ws_url].map(escape_js_string);
     format!(
         r#"<script type="module">
 import init, {{ start_live_reload }} from "{wasm_js_url}";
@@ -284,6 +286,22 @@ start_live_reload("{ws_url}", "{mount_selector}");
     )
 }
 
+/// Escape a string for use inside a double-quoted JavaScript string literal in
+/// an inline script (`<` must not start a tag that ends the script).
+fn escape_js_string(s: &str) -> String {
+    let mut escaped = String::with_capacity(s.len());
+    for c in s.chars() {
+        match c {
+            '"' | '\\' => escaped.extend(['\\', c]),
+            '\0'..='\x1f' | '<' | '\u{2028}' | '\u{2029}' => {
+                escaped.push_str(&format!("\\u{:04x}", c as u32));
+            }
+            _ => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 400276fe6ea36b45875c38ebd409cd4ece999380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:52 +0000
Subject: [PATCH 23/26] fix: update what a template contains in the browser

A browser keeps the children of <template> in its content fragment, so
paths into a template failed and inserted children were lost.
---
 hotmeal-wasm/src/lib.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index d14d77a..9e97421 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -665,7 +665,8 @@ fn insert_at_position(
     detach_to_slot: Option<u32>,
     slots: &mut Slots,
 ) -> Result<(), JsValue> {
-    let children = parent.child_nodes();
+    let holder = child_holder(parent);
+    let children = holder.child_nodes();
     let current_len = children.length() as usize;
     let pos = position as u32;
 
@@ -684,7 +685,7 @@ fn insert_at_position(
             existing_text = ?existing.text_content(),
             "replacing existing node"
         );
-        let replaced = parent.replace_child(node, &existing)?;
+        let replaced = holder.replace_child(node, &existing)?;
         if let Some(slot) = detach_to_slot {
             trace!(slot, "storing replaced node in slot");
             slots.store(slot, replaced);
@@ -697,9 +698,9 @@ fn insert_at_position(
         );
         for _ in current_len..position {
             let placeholder = doc.create_text_node("");
-            parent.append_child(&placeholder)?;
+            holder.append_child(&placeholder)?;
         }
-        parent.append_child(node)?;
+        holder.append_child(node)?;
     }
 
     Ok(())
@@ -733,9 +734,10 @@ fn create_element(
     for attr in attrs {
         set_attr(doc, &el, &attr.name, &attr.value)?;
     }
+    let holder = child_holder(&el);
     for child in children {
         let child_node = create_insert_content(doc, &el, child)?;
-        el.append_child(&child_node)?;
+        holder.append_child(&child_node)?;
     }
     Ok(el.into())
 }
@@ -801,11 +803,20 @@ fn create_insert_content(
     }
 }
 
+/// The node that holds a node's children: a browser keeps what a template
+/// contains in its content fragment.
+fn child_holder(node: &Node) -> Node {
+    match node.dyn_ref::<web_sys::HtmlTemplateElement>() {
+        Some(template) => template.content().into(),
+        None => node.clone(),
+    }
+}
+
 /// Navigate a relative path within a node (for slot-relative paths).
 fn navigate_within_node(root: &Node, path: &NodePath) -> Result<Node, JsValue> {
     let mut current = root.clone();
     for &idx in &path.0 {
-        let children = current.child_nodes();
+        let children = child_holder(&current).child_nodes();
         current = children
             .item(idx)
             .ok_or_else(|| JsValue::from_str(&format!("relative path child {} not found", idx)))?;
@@ -827,7 +838,7 @@ fn find_node(root: &Node, path: &NodePath, slots: &Slots) -> Result<Node, JsValu
 
     let mut current = slot_root;
     for &idx in &path.0[1..] {
-        let children = current.child_nodes();
+        let children = child_holder(&current).child_nodes();
         let num_children = children.length();
         trace!(idx, num_children, "navigating to child");
         current = children.item(idx).ok_or_else(|| {
-- 
2.43.0


From 3f66493bc1880ef6866d29e952b407d2f0f9a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:38 +0000
Subject: [PATCH 24/26] fix: read changed opaque content as the content of its
 element

It was read as the content of a <div>: rows outside a table lost their
tags, and raw text was taken for markup.
---
 hotmeal/src/dom.rs | 52 +++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 94bd437..8faac7d 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -690,28 +690,31 @@ impl<'a> Document<'a> {
             }
             Patch::OpaqueChanged { path, content } => {
                 let node_id = self.navigate_slot_path(&path.0, slots)?;
-                if !matches!(self.get(node_id).kind, NodeKind::Element(_)) {
+                let node = self.get(node_id);
+                let NodeKind::Element(elem) = &node.kind else {
                     return Err(DiffError::NotAnElement);
-                }
-                // Remove all existing children
+                };
+                // Parse the new content as what it is inside this element
+                // (rows need a table, a script has raw text)
+                let context_name = QualName::new(None, node.ns.url().into(), elem.tag.clone());
+                let context_attrs = elem
+                    .attrs
+                    .iter()
+                    .map(|(name, value)| Attribute {
+                        name: name.clone(),
+                        value: StrTendril::from(value.as_ref()),
+                    })
+                    .collect();
+                let content = StrTendril::from(content.as_ref());
+                let fragment = parse_fragment_in(&content, context_name, context_attrs);
+                // Remove all existing children and attach the new ones
                 let children: Vec<_> = node_id.children(&self.arena).collect();
                 for child in children {
                     child.detach(&mut self.arena);
                 }
-                // Parse the new content and attach as children
-                // We parse a minimal document wrapper to get the content nodes
-                let wrapper_html =
-                    format!("<html><body><div>{}</div></body></html>", content.as_ref());
-                let wrapper_tendril = StrTendril::from(wrapper_html.as_str());
-                let wrapper_doc = crate::dom::parse(&wrapper_tendril);
-                if let Some(body_id) = wrapper_doc.body() {
-                    // The content is inside body > div
-                    if let Some(div_id) = body_id.children(&wrapper_doc.arena).next() {
-                        for child_id in div_id.children(&wrapper_doc.arena) {
-                            let cloned = self.clone_subtree_from(&wrapper_doc, child_id);
-                            node_id.append(cloned, &mut self.arena);
-                        }
-                    }
+                for child_id in fragment.root.children(&fragment.arena) {
+                    let cloned = self.clone_subtree_from(&fragment, child_id);
+                    node_id.append(cloned, &mut self.arena);
                 }
             }
         }
@@ -1171,15 +1174,22 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
 ///
 /// Use this when comparing against browser innerHTML parsing for parity testing.
 pub fn parse_body_fragment(tendril: &StrTendril) -> Document<'_> {
+    // Parse as fragment with <body> as context
+    let context_name = QualName::new(None, ns!(html), local_name!("body"));
+    parse_fragment_in(tendril, context_name, vec![])
+}
+
+/// Parse HTML as the content of an element, scripting enabled.
+fn parse_fragment_in(
+    tendril: &StrTendril,
+    context_name: QualName,
+    context_attrs: Vec<Attribute>,
+) -> Document<'_> {
     use html5ever::parse_fragment;
     use tendril::TendrilSink;
 
     let input_ref: &str = tendril.as_ref();
     let sink = ArenaSink::new(input_ref);
-
-    // Parse as fragment with <body> as context, scripting enabled
-    let context_name = QualName::new(None, ns!(html), local_name!("body"));
-    let context_attrs = vec![];
     let scripting_enabled = true;
 
     parse_fragment(
-- 
2.43.0


From 9846f60fb37e5b088f6a42a9bb2936ae7b7a7564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:16 +0000
Subject: [PATCH 25/26] fix: write the content of raw text elements unescaped

The inner HTML of a script or style element was escaped, unlike its outer
HTML: changed opaque scripts came out as a&lt;b.
---
 hotmeal/src/dom.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 8faac7d..a09912a 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -402,9 +402,7 @@ impl<'a> Document<'a> {
     /// Serialize the inner HTML of a node (its children, not the node itself).
     pub fn serialize_inner_html(&self, node_id: NodeId) -> String {
         let mut output = String::new();
-        for child_id in node_id.children(&self.arena) {
-            self.serialize_node(&mut output, child_id);
-        }
+        self.serialize_children(&mut output, node_id);
         output
     }
 
@@ -949,8 +947,19 @@ impl<'a> Document<'a> {
             out.push('\n');
         }
 
-        // Children - raw text elements (script, style) should not have their content escaped
-        let is_raw_text = is_html && is_raw_text_element(tag);
+        self.serialize_children(out, node_id);
+
+        // Closing tag
+        out.push_str("</");
+        out.push_str(tag);
+        out.push('>');
+    }
+
+    /// Children - raw text elements (script, style) should not have their content escaped
+    fn serialize_children(&self, out: &mut String, node_id: NodeId) {
+        let node = self.get(node_id);
+        let is_raw_text = node.ns == Namespace::Html
+            && matches!(&node.kind, NodeKind::Element(elem) if is_raw_text_element(&elem.tag));
         for child_id in node_id.children(&self.arena) {
             if is_raw_text {
                 self.serialize_node_raw(out, child_id);
@@ -958,11 +967,6 @@ impl<'a> Document<'a> {
                 self.serialize_node(out, child_id);
             }
         }
-
-        // Closing tag
-        out.push_str("</");
-        out.push_str(tag);
-        out.push('>');
     }
 
     /// Serialize a node without escaping text content (for raw text elements like script/style)
-- 
2.43.0


From 215e8a72725c16c39843ee3b07c9c698be5020b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:50 +0000
Subject: [PATCH 26/26] fix: emit moves parents first

Moves came in the order of the matching, so a node could be moved below a
node that was still inside it. hotmeal works around that by moving the
children out first, which goes wrong for nodes that were displaced into a
slot: the patches could not be applied or put content in the wrong place.
---
 cinereus/src/chawathe.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cinereus/src/chawathe.rs b/cinereus/src/chawathe.rs
index b28a8ca..2626101 100644
--- a/cinereus/src/chawathe.rs
+++ b/cinereus/src/chawathe.rs
@@ -290,8 +290,13 @@ where
     }
 
     // Phase 4: MOVE - matched nodes where parent or position changed
+    // Process parents before children: everything above the new parent is in its final
+    // place by then, so no node is ever moved into its own subtree
     debug!("Phase 4: MOVE - checking {} matched pairs", matching.len());
-    for (a_id, b_id) in matching.pairs() {
+    for b_id in tree_b.iter() {
+        let Some(a_id) = matching.get_a(b_id) else {
+            continue;
+        };
         debug!(
             a = usize::from(a_id),
             b = usize::from(b_id),
-- 
2.43.0

