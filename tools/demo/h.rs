// Tiny tree notation for demonstrations: a[k=v,l=w](b 'text' c!(d)) ; `!` = opaque.
#![allow(dead_code)]
use cinereus::indextree::NodeId;
use cinereus::*;
use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};

#[derive(Clone, Default, PartialEq, Debug, Hash)]
pub struct Ps(pub Vec<(String, String)>);
impl Properties for Ps {
    type Key = String;
    type Value = String;
    fn similarity(&self, o: &Self) -> f64 {
        let same = self.0.iter().filter(|x| o.0.contains(x)).count();
        let n = self.0.len().max(o.0.len());
        if n == 0 { 1.0 } else { same as f64 / n as f64 }
    }
    fn diff(&self, o: &Self) -> Vec<PropertyInFinalState<String, String>> {
        o.0.iter()
            .map(|(k, v)| PropertyInFinalState {
                key: k.clone(),
                value: if self.0.contains(&(k.clone(), v.clone())) { PropValue::Same } else { PropValue::Different(v.clone()) },
            })
            .collect()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}
pub type Ty = SimpleTypes<String, Ps, String>;

#[derive(Clone, Debug, PartialEq)]
pub struct D {
    pub kind: String,
    pub props: Ps,
    pub text: Option<String>,
    pub opaque: bool,
    pub kids: Vec<D>,
}
pub fn parse(s: &str) -> D {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    fn node(b: &[char], i: &mut usize) -> D {
        while b[*i] == ' ' {
            *i += 1
        }
        let mut d = D { kind: String::new(), props: Ps::default(), text: None, opaque: false, kids: vec![] };
        if b[*i] == '\'' {
            *i += 1;
            let mut t = String::new();
            while b[*i] != '\'' {
                t.push(b[*i]);
                *i += 1;
            }
            *i += 1;
            d.kind = "#text".into();
            d.text = Some(t);
            return d;
        }
        while *i < b.len() && b[*i].is_alphanumeric() {
            d.kind.push(b[*i]);
            *i += 1;
        }
        if *i < b.len() && b[*i] == '!' {
            d.opaque = true;
            *i += 1;
        }
        if *i < b.len() && b[*i] == '[' {
            let mut t = String::new();
            *i += 1;
            while b[*i] != ']' {
                t.push(b[*i]);
                *i += 1;
            }
            *i += 1;
            for kv in t.split(',') {
                let (k, v) = kv.split_once('=').unwrap();
                d.props.0.push((k.into(), v.into()));
            }
        }
        if *i < b.len() && b[*i] == '(' {
            *i += 1;
            loop {
                while b[*i] == ' ' {
                    *i += 1
                }
                if b[*i] == ')' {
                    *i += 1;
                    break;
                }
                d.kids.push(node(b, i));
            }
        }
        d
    }
    node(&b, &mut i)
}
pub fn hash(d: &D) -> u64 {
    let mut h = DefaultHasher::new();
    d.kind.hash(&mut h);
    d.text.hash(&mut h);
    for k in &d.kids {
        hash(k).hash(&mut h);
    }
    h.finish()
}
/// The library's tree plus opaque flags; `order` lists nodes in pre-order.
pub struct W {
    pub t: Tree<Ty>,
    pub opaque: HashMap<NodeId, bool>,
    pub order: Vec<NodeId>,
}
pub fn data(d: &D) -> NodeData<Ty> {
    NodeData { hash: NodeHash(hash(d)), kind: d.kind.clone(), properties: d.props.clone(), text: d.text.clone() }
}
impl W {
    pub fn new(s: &str) -> W {
        W::of(&parse(s))
    }
    pub fn of(d: &D) -> W {
        let t = Tree::new(data(d));
        let root = t.root;
        let mut w = W { t, opaque: HashMap::new(), order: vec![] };
        fn add(w: &mut W, id: NodeId, d: &D) {
            w.opaque.insert(id, d.opaque);
            w.order.push(id);
            for k in &d.kids {
                let c = w.t.add_child(id, data(k));
                add(w, c, k);
            }
        }
        add(&mut w, root, d);
        w
    }
    /// pre-order number
    pub fn n(&self, id: NodeId) -> usize {
        self.order.iter().position(|&x| x == id).expect("foreign node")
    }
}
impl DiffTree for W {
    type Types = Ty;
    fn root(&self) -> NodeId {
        self.t.root
    }
    fn node_count(&self) -> usize {
        self.order.len()
    }
    fn hash(&self, id: NodeId) -> NodeHash {
        self.t.get(id).hash
    }
    fn kind(&self, id: NodeId) -> &String {
        &self.t.get(id).kind
    }
    fn properties(&self, id: NodeId) -> &Ps {
        &self.t.get(id).properties
    }
    fn text(&self, id: NodeId) -> Option<&String> {
        self.t.get(id).text.as_ref()
    }
    fn parent(&self, id: NodeId) -> Option<NodeId> {
        self.t.parent(id)
    }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        self.t.children(id)
    }
    fn height(&self, id: NodeId) -> usize {
        self.t.height(id)
    }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ {
        self.t.iter()
    }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ {
        self.t.post_order()
    }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
        self.t.descendants(id)
    }
    fn is_opaque(&self, id: NodeId) -> bool {
        self.opaque[&id]
    }
}
/// Diffs two notations; (script as text over pre-order numbers, pairs).
pub fn diff_cfg(a: &str, b: &str, cfg: &MatchingConfig) -> (Vec<String>, Vec<(usize, usize)>) {
    let (a, b) = (W::new(a), W::new(b));
    let m = compute_matching(&a, &b, cfg);
    let ops = generate_edit_script(&a, &b, &m);
    (show(&a, &b, &ops), m.pairs().map(|(x, y)| (a.n(x), b.n(y))).collect())
}
pub fn diff(a: &str, b: &str) -> (Vec<String>, Vec<(usize, usize)>) {
    diff_cfg(a, b, &MatchingConfig::default())
}
pub fn show(a: &W, b: &W, ops: &[EditOp<Ty>]) -> Vec<String> {
    ops.iter()
        .map(|o| match o {
            EditOp::Insert { node_b, parent_b, position, kind } => format!("ins {kind} b{} under b{} @{position}", b.n(*node_b), b.n(*parent_b)),
            EditOp::Delete { node_a } => format!("del a{}", a.n(*node_a)),
            EditOp::Move { node_a, node_b, new_parent_b, new_position } => {
                format!("mov a{}=b{} under b{} @{new_position}", a.n(*node_a), b.n(*node_b), b.n(*new_parent_b))
            }
            EditOp::SetText { node_a, text, .. } => format!("txt a{} {text}", a.n(*node_a)),
            EditOp::UpdateProperties { node_a, changes, .. } => format!(
                "upd a{} {}",
                a.n(*node_a),
                changes
                    .iter()
                    .map(|c| match &c.value {
                        PropValue::Same => format!("{}==", c.key),
                        PropValue::Different(v) => format!("{}={v}", c.key),
                    })
                    .collect::<Vec<_>>()
                    .join(",")
            ),
        })
        .collect()
}
