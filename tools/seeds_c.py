M="cinereus/src/matching.rs"; C="cinereus/src/chawathe.rs"; T="cinereus/src/tree.rs"
H="mod h;\nuse h::*;\n"
def D(body, uses=""): return H+uses+"fn main() {\n"+body+"\n}\n"
SEEDS={
"c01-equal-hash-shortcut": dict(property="C01", needs="a node hash that does not cover properties (as the caller is free to choose) and a node whose properties change while its subtree is otherwise unchanged",
 breaks="matched nodes with equal hashes are taken to be identical, so their property changes are never emitted and the result keeps the old properties",
 edits=[(C,"        // Handle text changes (for text/comment nodes)\n","        // Identical subtrees need no updates\n        if tree_a.hash(a_id) == tree_b.hash(b_id) {\n            continue;\n        }\n        // Handle text changes (for text/comment nodes)\n")],
 demo=D('''    let (ops, _) = diff("r(p[k=1,l=2](c 't') q)", "r(p[k=1,l=3](c 't') q)");
    assert_eq!(ops, ["upd a1 k==,l=3"]);''')),
"c12-insert-carries-children": dict(property="C12", needs="a kept node whose old parent is deleted and whose new parent is inserted",
 breaks="the move of a kept node into a freshly inserted parent is left out, so the node stays in (and dies with) its deleted parent",
 edits=[(C,"        if parent_changed {\n            let pos_b","        // A freshly inserted parent takes the place of the deleted one, contents included\n        let replaced = parent_match.is_none() && !matching.contains_b(parent_b);\n        if parent_changed && replaced && tree_a.position(a_id) == tree_b.position(b_id) {\n            continue;\n        }\n        if parent_changed {\n            let pos_b")],
 demo=D('''    let (ops, _) = diff("r(p('t'))", "r(q('t'))");
    assert!(ops.iter().any(|o| o.starts_with("mov a2")), "{ops:?}");''')),
"c04-early-delete": dict(property="C04", needs="a doomed node inside another doomed node that still holds a kept leaf which moves elsewhere",
 breaks="deletes of nested doomed nodes are emitted before the moves, so a node is deleted while a kept node is still inside",
 edits=[(C,"    // Phase 4: MOVE - matched nodes where parent or position changed\n","""    // Whole doomed subtrees can go right away
    for a_id in tree_a.post_order() {
        if !matching.contains_a(a_id)
            && !opaque_descendants_a.contains(&a_id)
            && tree_a.parent(a_id).is_some_and(|p| !matching.contains_a(p))
        {
            ops.push(EditOp::Delete { node_a: a_id });
        }
    }

    // Phase 4: MOVE - matched nodes where parent or position changed
"""),
 (C,"            if opaque_descendants_a.contains(&a_id) {\n                continue;\n            }\n            ops.push(EditOp::Delete","            if opaque_descendants_a.contains(&a_id)\n                || tree_a.parent(a_id).is_some_and(|p| !matching.contains_a(p))\n            {\n                continue;\n            }\n            ops.push(EditOp::Delete")],
 demo=D('''    let (ops, m) = diff("r(p(q('t')))", "r(s('t'))");
    assert!(m.contains(&(3, 2)), "{m:?}");
    let mv = ops.iter().position(|o| o.starts_with("mov a3")).unwrap();
    let del = ops.iter().position(|o| o == "del a2").unwrap();
    assert!(mv < del, "{ops:?}");''')),
"c05-opaque-one-level": dict(property="C05", needs="an inserted opaque node with contents at least two levels deep",
 breaks="only the direct children of an opaque node are treated as its contents in the new tree; deeper ones are inserted one by one",
 edits=[(C,"            for desc in tree_b.descendants(b_id) {\n                if desc != b_id {\n                    opaque_descendants_b.insert(desc);\n                }\n            }","            opaque_descendants_b.extend(tree_b.children(b_id));")],
 demo=D('''    let (ops, _) = diff("r(p)", "r(p o!(x(y)))");
    assert_eq!(ops, ["ins o b2 under b0 @1"]);''')),
"c08-dice-without-self": dict(property="C08", needs="two nodes at different places whose share of corresponding descendants is just below the threshold",
 breaks="the Dice denominator leaves out the two nodes themselves, so pairs below the threshold are accepted",
 edits=[(M,"        2.0 * common as f64 / (desc_a.len() + desc_b.len()) as f64","        // the two nodes themselves are not their own descendants\n        2.0 * common as f64 / (desc_a.len() + desc_b.len() - 2).max(1) as f64")],
 demo=D('''    // p(x(a) u v w) has 5 descendants, of which x(a) is kept: 2*2/(6+3) < 0.5 -> not the same node
    let (_, m) = diff("r(z p(x('a') 'b' 'c' 'd'))", "r(p(x('a')) 'e' z)");
    for (x, y) in [(2, 1)] {
        if m.contains(&(x, y)) {
            let da = 2..=7usize;
            let db = 1..=3usize;
            let common = m.iter().filter(|(i, j)| da.contains(i) && *i != 2 && db.contains(j)).count();
            let dice = 2.0 * common as f64 / (da.count() + db.count()) as f64;
            assert!(dice >= 0.5, "paired with dice {dice}: {m:?}");
        }
    }''')),
"c06-large-sets-as-delta": dict(property="C06", needs="a node with more than eight properties one of which changes while none is removed",
 breaks="for large property sets only the changed properties are sent instead of the complete final state",
 edits=[(C,"        let changes: Vec<_> = a_props.diff(b_props);\n","        let mut changes: Vec<_> = a_props.diff(b_props);\n"),
 (C,"        if has_real_change || has_removal {\n","        if has_real_change && !has_removal && changes.len() > 8 {\n            // large sets: only what changed\n            changes.retain(|c| matches!(c.value, crate::tree::PropValue::Different(_)));\n        }\n        if has_real_change || has_removal {\n")],
 demo=D('''    let (ops, _) = diff("r(p[a=1,b=1,c=1,d=1,e=1,f=1,g=1,h=1,i=1](c))", "r(p[a=1,b=1,c=1,d=1,e=1,f=1,g=1,h=1,i=2](c))");
    assert_eq!(ops, ["upd a1 a==,b==,c==,d==,e==,f==,g==,h==,i=2"]);''')),
"c07-candidates-by-id": dict(property="C07", needs="a tree whose node numbers are not in document order, and two equally good candidates",
 breaks="candidates are tried in order of internal node number instead of document order, so the outcome depends on how the tree was allocated",
 edits=[(M,"    // PASS 1: Match internal nodes (non-leaves)\n","    // Keep candidates in a stable order\n    for candidates in b_by_kind.values_mut() {\n        candidates.sort_by_key(|id| usize::from(*id));\n    }\n\n    // PASS 1: Match internal nodes (non-leaves)\n")],
 demo=H+'''use cinereus::*;
use cinereus::indextree::NodeId;
fn build(rev: bool) -> (Tree<Ty>, Vec<NodeId>) {
    let d = parse("r(q('x') s('y'))");
    let mut t = Tree::new(data(&d));
    let r = t.root;
    let mut ids = vec![r; 5];
    if rev {
        let y = t.arena.new_node(data(&d.kids[1].kids[0]));
        let s = t.arena.new_node(data(&d.kids[1]));
        let x = t.arena.new_node(data(&d.kids[0].kids[0]));
        let q = t.arena.new_node(data(&d.kids[0]));
        s.append(y, &mut t.arena);
        q.append(x, &mut t.arena);
        r.append(q, &mut t.arena);
        r.append(s, &mut t.arena);
        ids = vec![r, q, x, s, y];
    } else {
        ids[1] = t.add_child(r, data(&d.kids[0]));
        ids[2] = t.add_child(ids[1], data(&d.kids[0].kids[0]));
        ids[3] = t.add_child(r, data(&d.kids[1]));
        ids[4] = t.add_child(ids[3], data(&d.kids[1].kids[0]));
    }
    (t, ids)
}
fn main() {
    let a = W::new("r(p('z'))");
    let mut res = vec![];
    for rev in [false, true] {
        let (b, ids) = build(rev);
        let m = compute_matching(&a.t, &b, &MatchingConfig::default());
        let pairs: Vec<(usize, usize)> = m.pairs().map(|(x, y)| (a.n(x), ids.iter().position(|&i| i == y).unwrap())).collect();
        res.push(pairs);
    }
    assert_eq!(res[0], res[1]);
}
'''),
"c09-same-depth-only": dict(property="C09", needs="a leaf whose parents are replaced by a new one at another depth",
 breaks="a kept leaf may only travel within its depth, so wrapping or unwrapping a text deletes and re-creates it",
 edits=[(M,"    // Also check the reverse: if B's parent is matched, A must be a descendant\n    // of the corresponding node in tree_a\n","""    // Nodes at different depths are not the same node
    let depth_a = core::iter::successors(Some(a_id), |&n| tree_a.parent(n)).count();
    let depth_b = core::iter::successors(Some(b_id), |&n| tree_b.parent(n)).count();
    if depth_a != depth_b {
        return false;
    }

    // Also check the reverse: if B's parent is matched, A must be a descendant
    // of the corresponding node in tree_a
""")],
 demo=D('''    let (ops, m) = diff("r(p(q('t')))", "r(s('t'))");
    assert!(m.contains(&(3, 2)), "{ops:?}");''')),
"c10-min-height-exclusive": dict(property="C10", needs="a unique unchanged subtree of exactly the minimum height that changes its index",
 breaks="subtrees of exactly the configured minimum height are no longer recognised by their hash",
 edits=[(M,"        if tree_a.height(a_id) < config.min_height {","        if tree_a.height(a_id) <= config.min_height && tree_a.parent(a_id).is_some() {")],
 demo=D('''    let (_, m) = diff("r(p('a') p('b') q)", "r(p('b') p('a') q)");
    assert!(m.contains(&(1, 3)) && m.contains(&(3, 1)), "{m:?}");''')),
"c10-candidate-window": dict(property="C10", needs="a unique unchanged subtree that shifts by more than 24 places among its siblings",
 breaks="hash matching of children looks only within 24 places, so a far-shifted unchanged subtree is not recognised",
 edits=[(M,"            for a_child in tree_a.children(a_id) {\n                let a_child_hash","            for (index, a_child) in tree_a.children(a_id).enumerate() {\n                let a_child_hash"),
 (M,"                for b_child in tree_b.children(b_id) {\n                    if !matching.contains_b(b_child) {","                // long lists: stay near the diagonal\n                let window = tree_b.children(b_id).skip(index.saturating_sub(24)).take(49);\n                for b_child in window {\n                    if !matching.contains_b(b_child) {")],
 demo=D('''    let items: Vec<String> = (0..80).map(|i| format!("p('{i}')")).collect();
    let mut moved = items.clone();
    let x = moved.remove(0);
    moved.push(x);
    let (_, m) = diff(&format!("r({})", items.join(" ")), &format!("r({})", moved.join(" ")));
    assert!(m.contains(&(1, 159)) && m.contains(&(2, 160)), "{m:?}");''')),
"c11-strict-similarity": dict(property="C11", needs="a property change that leaves the similarity exactly at the threshold, on a node whose contents change place or hash too little to be matched otherwise",
 breaks="a node whose properties are exactly as similar as the threshold asks is deleted and re-created instead of updated",
 edits=[(M,"                    tree_b.position(b_id) == a_pos\n                        && a_props.similarity(tree_b.properties(b_id))\n                            >= config.similarity_threshold\n                })\n                .copied();\n\n            if let Some(b_id) = best {\n                trace!(\n                    a = usize::from(a_id),\n                    a_kind = %a_kind,\n                    b = usize::from(b_id),\n                    pos","                    tree_b.position(b_id) == a_pos\n                        && a_props.similarity(tree_b.properties(b_id))\n                            > config.similarity_threshold\n                })\n                .copied();\n\n            if let Some(b_id) = best {\n                trace!(\n                    a = usize::from(a_id),\n                    a_kind = %a_kind,\n                    b = usize::from(b_id),\n                    pos"),
 ],
 demo=H+'''use cinereus::*;
fn h(d: &D) -> D { d.clone() }
fn main() {
    // the hash covers the properties here
    fn fix(w: &mut W, salt: u64) {
        for id in w.order.clone() {
            let mut p = w.t.get(id).properties.0.clone();
            p.sort();
            let s: u64 = p.iter().flat_map(|(k, v)| k.bytes().chain(v.bytes())).fold(salt, |a, c| a.wrapping_mul(31).wrapping_add(c as u64));
            let mut n = id;
            loop {
                let d = w.t.arena.get_mut(n).unwrap().get_mut();
                d.hash = NodeHash(d.hash.0 ^ s.wrapping_mul(0x9E37));
                match w.t.parent(n) { Some(p) => n = p, None => break }
            }
        }
    }
    let _ = h;
    let (mut a, mut b) = (W::new("r(p[k=1,l=2](s('t') u) q('v'))"), W::new("r(p[k=1,l=3](s('t') u) q('v'))"));
    fix(&mut a, 7);
    fix(&mut b, 7);
    // u is empty, s('t') is kept: dice of p = 2*2/(4+4) = 0.5, so give it less in common
    let m = compute_matching(&a, &b, &MatchingConfig::default());
    let ops = show(&a, &b, &generate_edit_script(&a, &b, &m));
    let (mut a2, mut b2) = (W::new("r(p[k=1,l=2] q('v'))"), W::new("r(p[k=1,l=3] q('v'))"));
    fix(&mut a2, 7);
    fix(&mut b2, 7);
    let m2 = compute_matching(&a2, &b2, &MatchingConfig::default());
    let ops2 = show(&a2, &b2, &generate_edit_script(&a2, &b2, &m2));
    let (mut a3, mut b3) = (W::new("r(p[k=1,l=2]('x' 'y') q('v'))"), W::new("r(p[k=1,l=3]('x' 'y') q('v'))"));
    fix(&mut a3, 7);
    fix(&mut b3, 7);
    let m3 = compute_matching(&a3, &b3, &MatchingConfig::default());
    let ops3 = show(&a3, &b3, &generate_edit_script(&a3, &b3, &m3));
    assert_eq!(ops, ["upd a1 k==,l=3"]);
    assert_eq!(ops2, ["upd a1 k==,l=3"]);
    assert_eq!(ops3, ["upd a1 k==,l=3"]);
}
'''),
"c13-tables-in-step": dict(property="C13", needs="a container made with different capacities for the two sides, and an addition that grows one of them",
 breaks="both look-up tables are resized together judging by the first one's size; a larger second table is cut, or a smaller one is not grown",
 edits=[(M,"""        // Grow vectors if needed
        if a_idx >= self.a_to_b.len() {
            self.a_to_b.resize(a_idx + 1, None);
        }
        if b_idx >= self.b_to_a.len() {
            self.b_to_a.resize(b_idx + 1, None);
        }
""","""        // Grow both tables in step if needed
        let needed = a_idx.max(b_idx) + 1;
        if needed > self.a_to_b.len() {
            self.a_to_b.resize(needed, None);
            self.b_to_a.resize(needed, None);
        }
""")],
 demo=H+'''use cinereus::*;
fn main() {
    let w = W::new(&format!("r({})", "x ".repeat(40)));
    let id = |i: usize| w.order[i];
    let mut m = Matching::with_capacity(4, 40);
    m.add(id(0), id(0));
    m.add(id(1), id(30));
    m.add(id(10), id(2));
    assert_eq!(m.get_a(id(30)), Some(id(1)));
    let mut m = Matching::with_capacity(20, 4);
    m.add(id(1), id(10));
    assert_eq!(m.get_a(id(10)), Some(id(1)));
}
'''),
"c14-height-byte": dict(property="C14", needs="a tree more than 255 levels deep",
 breaks="heights are computed in a byte and stick at 255",
 edits=[(T,"            1 + children.iter().map(|&c| self.height(c)).max().unwrap_or(0)","            let tallest = children.iter().map(|&c| self.height(c) as u8).max();\n            1 + usize::from(tallest.unwrap_or(0).min(u8::MAX - 1))")],
 demo=H+'''fn main() {
    let mut s = String::from("x");
    for _ in 0..270 {
        s = format!("r({s})");
    }
    let w = W::new(&s);
    assert_eq!(w.t.height(w.t.root), 270);
    assert_eq!(w.t.height(w.order[100]), 170);
}
'''),
"c15-only-candidate": dict(property="C15", needs="a leaf that is replaced by another kind while its twin sibling stays in place",
 breaks="if just one sibling of the same kind is left it is taken even at another index, and the leaf that stayed in place loses its counterpart",
 edits=[(M,"                .copied();\n\n            if let Some(b_id) = best {\n                trace!(\n                    a = usize::from(a_id),\n                    a_kind = %a_kind,\n                    b = usize::from(b_id),\n                    pos","                .copied()\n                // unique of its kind among the children\n                .or_else(|| match candidates.as_slice() {\n                    [only] if a_props.similarity(tree_b.properties(*only)) >= config.similarity_threshold => Some(*only),\n                    _ => None,\n                });\n\n            if let Some(b_id) = best {\n                trace!(\n                    a = usize::from(a_id),\n                    a_kind = %a_kind,\n                    b = usize::from(b_id),\n                    pos")],
 demo=D('''    let (ops, m) = diff("r('a' 'b')", "r(j 'b')");
    assert!(m.contains(&(2, 2)), "{ops:?}");''')),
"c02-match-without-guard": dict(property="C02", needs="nested repeated subtrees, so that a descendant is paired before its parent is found identical to something else",
 breaks="descendants of identical subtrees are paired without checking that they are still free, so a node is paired twice",
 edits=[(M,"    if matching.contains_a(a_id) || matching.contains_b(b_id) {\n        return;\n    }\n\n    // Hashes may","    if matching.contains_a(a_id) && matching.contains_b(b_id) {\n        return;\n    }\n\n    // Hashes may")],
 demo=D('''    let (ops, m) = diff("r(p(x('1') y))", "r(p(x('1') y) p(x('1') z))");
    let mut a: Vec<usize> = m.iter().map(|p| p.0).collect();
    let mut b: Vec<usize> = m.iter().map(|p| p.1).collect();
    let n = m.len();
    a.sort(); a.dedup(); b.sort(); b.dedup();
    assert!(a.len() == n && b.len() == n, "{m:?} {ops:?}");''')),
"c03-reorder-update": dict(property="C03", needs="a node whose properties come in another order but have the same values",
 breaks="a mere reordering of properties counts as a change and emits a property update",
 edits=[(C,"        let has_removal = a_props.len() > changes.len();\n","        let has_removal = a_props.len() > changes.len();\n        // 3. Properties come in another order\n        let before = a_props.diff(a_props);\n        let has_removal = has_removal || !before.iter().map(|c| &c.key).eq(changes.iter().map(|c| &c.key));\n")],
 demo=D('''    let (ops, _) = diff("r(p[k=1,l=2](c))", "r(p[l=2,k=1](c))");
    assert!(ops.is_empty(), "{ops:?}");''')),
"c16-last-of-equals": dict(property="C16", needs="a changed container that was moved, and two new siblings that share equally much with it",
 breaks="among equally good counterparts the last one is taken instead of the first",
 edits=[(M,"if score >= config.similarity_threshold && (best.is_none() || score > best.unwrap().1) {","if score >= config.similarity_threshold && best.is_none_or(|(_, top)| score >= top) {")],
 demo=D("""    let (ops, m) = diff("r(z(y) w(u) p(q('1') s('2')))", "r(p(q('1')) p(s('2')) z(y) w(u))");
    let p = m.iter().find(|p| p.0 == 5).unwrap_or_else(|| panic!("container not paired: {m:?} {ops:?}"));
    assert_eq!(p.1, 1, "{m:?} {ops:?}");""")),
"c17-equal-leaf-anywhere": dict(property="C17", needs="a leaf in a deleted container whose equal appears as new content of a surviving container",
 breaks="an equal leaf is taken from any place, so a node leaves the container that survives",
 edits=[(M,"                // Check ancestry constraint - ensures we don't match across incompatible locations\n                if !ancestry_compatible(a_id, b_id, tree_a, tree_b, matching) {","                // Check ancestry constraint - ensures we don't match across incompatible locations\n                // (an equal leaf is the same leaf wherever it is)\n                if tree_b.hash(b_id) != a_hash\n                    && !ancestry_compatible(a_id, b_id, tree_a, tree_b, matching)\n                {")],
 demo=D("""    let (ops, m) = diff("r(p(x y j) q(k))", "r(p(x y k j))");
    let k = m.iter().find(|p| p.0 == 6);
    assert!(k.is_none(), "{m:?} {ops:?}");""")),
}
