//! The harness' own view of a tree (`Spec`), its notion of node content, and
//! two ways to hand a `Spec` to the implementation: through the library's own
//! `Tree`, and through an independent `DiffTree` implementation.

use cinereus::indextree::{Arena, NodeId};
use cinereus::{
    DiffTree, NodeData, NodeHash, PropValue, Properties, PropertyInFinalState, SimpleTypes, Tree, TreeTypes,
};
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct K(pub u8);
impl fmt::Display for K {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "k{}", self.0)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Txt(pub u16);
impl fmt::Display for Txt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "t{}", self.0)
    }
}

/// Ordered key/value properties.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, PartialOrd, Ord)]
pub struct P(pub Vec<(u8, u8)>);

impl P {
    pub fn get(&self, k: u8) -> Option<u8> {
        self.0.iter().find(|e| e.0 == k).map(|e| e.1)
    }
}

/// Fraction of the union of keys on which both agree; 1 when there are none.
pub fn prop_similarity(a: &P, b: &P) -> f64 {
    if a.0.is_empty() && b.0.is_empty() {
        return 1.0;
    }
    let mut union = a.0.len();
    let mut same = 0;
    for (k, v) in &b.0 {
        match a.get(*k) {
            None => union += 1,
            Some(w) => {
                if w == *v {
                    same += 1
                }
            }
        }
    }
    same as f64 / union as f64
}

impl Properties for P {
    type Key = K;
    type Value = Txt;

    fn similarity(&self, other: &Self) -> f64 {
        prop_similarity(self, other)
    }
    fn diff(&self, other: &Self) -> Vec<PropertyInFinalState<K, Txt>> {
        other
            .0
            .iter()
            .map(|(k, v)| PropertyInFinalState {
                key: K(*k),
                value: if self.get(*k) == Some(*v) { PropValue::Same } else { PropValue::Different(Txt(*v as u16)) },
            })
            .collect()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}

pub struct HT;
impl TreeTypes for HT {
    type Kind = K;
    type Props = P;
    type Text = Txt;
}

/// One node's own content.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct N {
    pub kind: u8,
    pub text: Option<u16>,
    pub props: P,
    pub opaque: bool,
}

/// An ordered labelled tree in pre-order.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Spec {
    pub parent: Vec<usize>,
    pub node: Vec<N>,
}

impl Spec {
    pub fn leaf(n: N) -> Spec {
        Spec { parent: vec![0], node: vec![n] }
    }
    pub fn len(&self) -> usize {
        self.node.len()
    }
    pub fn children(&self) -> Vec<Vec<usize>> {
        let mut c = vec![Vec::new(); self.len()];
        for i in 1..self.len() {
            c[self.parent[i]].push(i);
        }
        c
    }
    /// Re-derives pre-order from child lists.
    pub fn from_children(root: usize, ch: &[Vec<usize>], node: &[N]) -> Spec {
        let mut s = Spec { parent: vec![], node: vec![] };
        fn go(at: usize, par: usize, ch: &[Vec<usize>], node: &[N], s: &mut Spec) {
            let me = s.node.len();
            s.parent.push(par);
            s.node.push(node[at].clone());
            for &c in &ch[at] {
                go(c, me, ch, node, s);
            }
        }
        go(root, 0, ch, node, &mut s);
        s
    }
    pub fn nest(root: N, kids: &[Spec]) -> Spec {
        let mut s = Spec::leaf(root);
        for k in kids {
            let off = s.len();
            for i in 0..k.len() {
                s.parent.push(if i == 0 { 0 } else { k.parent[i] + off });
                s.node.push(k.node[i].clone());
            }
        }
        s
    }
    pub fn show(&self) -> String {
        let ch = self.children();
        let mut o = String::new();
        fn go(s: &Spec, ch: &[Vec<usize>], i: usize, o: &mut String) {
            let n = &s.node[i];
            o.push_str(&n.kind.to_string());
            if n.opaque {
                o.push('!');
            }
            if let Some(t) = n.text {
                o.push_str(&format!("'{t}"));
            }
            if !n.props.0.is_empty() {
                o.push('[');
                for (k, v) in &n.props.0 {
                    o.push_str(&format!("{k}={v};"));
                }
                o.push(']');
            }
            if !ch[i].is_empty() {
                o.push('(');
                for (j, &c) in ch[i].iter().enumerate() {
                    if j > 0 {
                        o.push(' ');
                    }
                    go(s, ch, c, o);
                }
                o.push(')');
            }
        }
        go(self, &ch, 0, &mut o);
        o
    }
    /// Structural (Merkle) hash of every subtree.
    pub fn hashes(&self, with_props: bool) -> Vec<u64> {
        let ch = self.children();
        let mut h = vec![0u64; self.len()];
        let mut buf = Vec::new();
        for i in (0..self.len()).rev() {
            buf.clear();
            let n = &self.node[i];
            buf.push(n.kind);
            buf.extend_from_slice(&n.text.map(|t| t as u32 + 1).unwrap_or(0).to_le_bytes());
            if with_props {
                for (k, v) in &n.props.0 {
                    buf.extend_from_slice(&[1, *k, *v]);
                }
            }
            buf.push(255);
            for &c in &ch[i] {
                buf.extend_from_slice(&h[c].to_le_bytes());
            }
            h[i] = mc_core::hash64(&buf);
        }
        h
    }
    /// Nodes strictly inside an opaque node.
    pub fn inside_opaque(&self) -> Vec<bool> {
        let mut v = vec![false; self.len()];
        for i in 1..self.len() {
            let p = self.parent[i];
            v[i] = v[p] || self.node[p].opaque;
        }
        v
    }
    pub fn positions(&self) -> Vec<usize> {
        let mut pos = vec![0; self.len()];
        for c in self.children() {
            for (j, x) in c.into_iter().enumerate() {
                pos[x] = j;
            }
        }
        pos
    }
    pub fn heights(&self) -> Vec<usize> {
        let mut h = vec![0; self.len()];
        for i in (1..self.len()).rev() {
            let p = self.parent[i];
            h[p] = h[p].max(h[i] + 1);
        }
        h
    }
    /// Pre-order gives contiguous subtrees: `i..end[i]`.
    pub fn ends(&self) -> Vec<usize> {
        let mut e: Vec<usize> = (1..=self.len()).collect();
        for i in (1..self.len()).rev() {
            let p = self.parent[i];
            e[p] = e[p].max(e[i]);
        }
        e
    }
    pub fn has_opaque(&self) -> bool {
        self.node.iter().any(|n| n.opaque)
    }
}

/// Node numbering used when building a library tree.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Numbering {
    /// pre-order, via `add_child`
    Fresh,
    /// allocated in reverse pre-order
    Reversed,
    /// allocated in reverse, with removed nodes before, between and after, so
    /// that ids have gaps and some slots are recycled
    Holes,
}

/// The library's own `Tree`, plus an opaque flag per node.
pub struct RT {
    pub tree: Tree<HT>,
    pub ids: Vec<NodeId>,
    index: Vec<u32>,
    opaque: Vec<bool>,
}

fn data(s: &Spec, h: &[u64], i: usize) -> NodeData<HT> {
    let n = &s.node[i];
    // through every constructor
    match n.text {
        _ if i % 4 == 3 => NodeData { hash: NodeHash(h[i]), kind: K(n.kind), properties: n.props.clone(), text: n.text.map(Txt) },
        None if i % 2 == 0 => NodeData::element(h[i].into(), K(n.kind), n.props.clone()),
        Some(t) if n.props.0.is_empty() => NodeData::text_node(NodeHash(h[i]), K(n.kind), Txt(t)),
        _ => NodeData::new(NodeHash(h[i]), K(n.kind), n.props.clone(), n.text.map(Txt)),
    }
}

/// The library's tree type for nodes that only have a kind.
pub fn build_simple(s: &Spec, h: &[u64]) -> (Tree<SimpleTypes<K>>, Vec<NodeId>) {
    let node = |i: usize| if i % 2 == 0 { NodeData::simple(NodeHash(h[i]), K(s.node[i].kind)) } else { NodeData::simple_u64(h[i], K(s.node[i].kind)) };
    let mut t = Tree::new(node(0));
    let mut ids = vec![t.root];
    for i in 1..s.len() {
        let id = t.add_child(ids[s.parent[i]], node(i));
        ids.push(id);
    }
    (t, ids)
}

fn index_of(ids: &[NodeId]) -> Vec<u32> {
    let max = ids.iter().map(|&i| usize::from(i)).max().unwrap_or(0);
    let mut v = vec![u32::MAX; max + 1];
    for (i, &id) in ids.iter().enumerate() {
        v[usize::from(id)] = i as u32;
    }
    v
}

pub trait Built: DiffTree<Types = HT> {
    fn ids(&self) -> &[NodeId];
    fn index(&self, id: NodeId) -> Option<usize>;
}

impl RT {
    pub fn build(s: &Spec, h: &[u64], num: Numbering) -> RT {
        let n = s.len();
        let (tree, ids) = match num {
            Numbering::Fresh => {
                let mut t = Tree::new(data(s, h, 0));
                let mut ids = vec![t.root];
                for i in 1..n {
                    let id = t.add_child(ids[s.parent[i]], data(s, h, i));
                    ids.push(id);
                }
                (t, ids)
            }
            _ => {
                let mut arena: Arena<NodeData<HT>> = Arena::new();
                let mut junk = Vec::new();
                if num == Numbering::Holes {
                    for _ in 0..3 {
                        junk.push(arena.new_node(data(s, h, 0)));
                    }
                    // recycle one slot
                    junk.remove(1).remove(&mut arena);
                }
                let mut ids = vec![None; n];
                for i in (0..n).rev() {
                    ids[i] = Some(arena.new_node(data(s, h, i)));
                    if num == Numbering::Holes && i % 2 == 0 {
                        junk.push(arena.new_node(data(s, h, i)));
                    }
                }
                let ids: Vec<NodeId> = ids.into_iter().map(|x| x.unwrap()).collect();
                for i in 1..n {
                    ids[s.parent[i]].append(ids[i], &mut arena);
                }
                for j in junk {
                    j.remove(&mut arena);
                }
                let root = ids[0];
                (Tree { arena, root }, ids)
            }
        };
        let index = index_of(&ids);
        RT { tree, ids, index, opaque: s.node.iter().map(|n| n.opaque).collect() }
    }
}

impl Built for RT {
    fn ids(&self) -> &[NodeId] {
        &self.ids
    }
    fn index(&self, id: NodeId) -> Option<usize> {
        let i = *self.index.get(usize::from(id))?;
        (i != u32::MAX && self.ids[i as usize] == id).then_some(i as usize)
    }
}

type TT = Tree<HT>;
impl DiffTree for RT {
    type Types = HT;
    fn root(&self) -> NodeId {
        <TT as DiffTree>::root(&self.tree)
    }
    fn node_count(&self) -> usize {
        <TT as DiffTree>::node_count(&self.tree)
    }
    fn hash(&self, id: NodeId) -> NodeHash {
        <TT as DiffTree>::hash(&self.tree, id)
    }
    fn kind(&self, id: NodeId) -> &K {
        <TT as DiffTree>::kind(&self.tree, id)
    }
    fn properties(&self, id: NodeId) -> &P {
        <TT as DiffTree>::properties(&self.tree, id)
    }
    fn text(&self, id: NodeId) -> Option<&Txt> {
        <TT as DiffTree>::text(&self.tree, id)
    }
    fn parent(&self, id: NodeId) -> Option<NodeId> {
        <TT as DiffTree>::parent(&self.tree, id)
    }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        <TT as DiffTree>::children(&self.tree, id)
    }
    fn child_count(&self, id: NodeId) -> usize {
        <TT as DiffTree>::child_count(&self.tree, id)
    }
    fn position(&self, id: NodeId) -> usize {
        <TT as DiffTree>::position(&self.tree, id)
    }
    fn height(&self, id: NodeId) -> usize {
        <TT as DiffTree>::height(&self.tree, id)
    }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ {
        <TT as DiffTree>::iter(&self.tree)
    }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ {
        <TT as DiffTree>::post_order(&self.tree)
    }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        <TT as DiffTree>::descendants(&self.tree, id)
    }
    fn is_opaque(&self, id: NodeId) -> bool {
        self.index(id).map(|i| self.opaque[i]).unwrap_or(false)
    }
}

thread_local! {
    static POOL: Vec<NodeId> = {
        let mut a: Arena<u8> = Arena::new();
        (0..4096).map(|_| a.new_node(0)).collect()
    };
}

/// An independent tree: relies on the trait's default `child_count` and
/// `position`, and numbers its nodes in a scrambled way.
pub struct VT {
    ids: Vec<NodeId>,
    index: Vec<u32>,
    ch: Vec<Vec<NodeId>>,
    parent: Vec<Option<NodeId>>,
    hash: Vec<u64>,
    height: Vec<usize>,
    kinds: Vec<K>,
    texts: Vec<Option<Txt>>,
    props: Vec<P>,
    opaque: Vec<bool>,
    iter: Vec<NodeId>,
    post: Vec<NodeId>,
    ends: Vec<usize>,
}

impl VT {
    /// `off` shifts the numbering; `level_order` chooses the documented
    /// alternative iteration order.
    pub fn build(s: &Spec, h: &[u64], off: usize, level_order: bool) -> VT {
        let n = s.len();
        let ids: Vec<NodeId> = POOL.with(|p| {
            // scrambled but collision-free: stride through n slots
            let stride = [7usize, 5, 3, 1].into_iter().find(|k| n % k != 0 || *k == 1).unwrap();
            (0..n).map(|i| p[off + (i * stride + 2) % n]).collect()
        });
        let chi = s.children();
        let mut post = Vec::new();
        fn po(i: usize, ch: &[Vec<usize>], out: &mut Vec<usize>) {
            for &c in &ch[i] {
                po(c, ch, out);
            }
            out.push(i);
        }
        po(0, &chi, &mut post);
        let iter: Vec<usize> = if level_order {
            let mut q = vec![0];
            let mut k = 0;
            while k < q.len() {
                q.extend_from_slice(&chi[q[k]]);
                k += 1;
            }
            q
        } else {
            (0..n).collect()
        };
        VT {
            index: index_of(&ids),
            ch: chi.iter().map(|c| c.iter().map(|&x| ids[x]).collect()).collect(),
            parent: (0..n).map(|i| if i == 0 { None } else { Some(ids[s.parent[i]]) }).collect(),
            hash: h.to_vec(),
            height: s.heights(),
            kinds: s.node.iter().map(|n| K(n.kind)).collect(),
            texts: s.node.iter().map(|n| n.text.map(Txt)).collect(),
            props: s.node.iter().map(|n| n.props.clone()).collect(),
            opaque: s.node.iter().map(|n| n.opaque).collect(),
            iter: iter.into_iter().map(|i| ids[i]).collect(),
            post: post.into_iter().map(|i| ids[i]).collect(),
            ends: s.ends(),
            ids,
        }
    }
    fn ix(&self, id: NodeId) -> usize {
        self.index(id).expect("node id does not belong to this tree")
    }
}

impl Built for VT {
    fn ids(&self) -> &[NodeId] {
        &self.ids
    }
    fn index(&self, id: NodeId) -> Option<usize> {
        let i = *self.index.get(usize::from(id))?;
        (i != u32::MAX).then_some(i as usize)
    }
}

impl DiffTree for VT {
    type Types = HT;
    fn root(&self) -> NodeId {
        self.ids[0]
    }
    fn node_count(&self) -> usize {
        self.ids.len()
    }
    fn hash(&self, id: NodeId) -> NodeHash {
        NodeHash(self.hash[self.ix(id)])
    }
    fn kind(&self, id: NodeId) -> &K {
        &self.kinds[self.ix(id)]
    }
    fn properties(&self, id: NodeId) -> &P {
        &self.props[self.ix(id)]
    }
    fn text(&self, id: NodeId) -> Option<&Txt> {
        self.texts[self.ix(id)].as_ref()
    }
    fn parent(&self, id: NodeId) -> Option<NodeId> {
        self.parent[self.ix(id)]
    }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        self.ch[self.ix(id)].iter().copied()
    }
    fn height(&self, id: NodeId) -> usize {
        self.height[self.ix(id)]
    }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ {
        self.iter.iter().copied()
    }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ {
        self.post.iter().copied()
    }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        let i = self.ix(id);
        self.ids[i..self.ends[i]].iter().copied()
    }
    fn is_opaque(&self, id: NodeId) -> bool {
        self.opaque[self.ix(id)]
    }
}
