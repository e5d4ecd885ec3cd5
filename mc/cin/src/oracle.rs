//! Runs the real diff on a pair of specs and judges what it returns.

use crate::model::*;
use cinereus::{EditOp, Matching, MatchingConfig, PropValue, compute_matching, generate_edit_script};
use mc_core::{Fail, Obs, Outcome, ensure};

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Op {
    Upd { a: usize, b: usize, changes: Vec<(u8, Option<u8>)> },
    Txt { a: usize, b: usize, text: u16 },
    Ins { b: usize, pb: usize, pos: usize, kind: u8 },
    Del { a: usize },
    Mov { a: usize, b: usize, pb: usize, pos: usize },
}

pub struct Run {
    pub ops: Vec<Op>,
    /// matched pairs in reported order
    pub pairs: Vec<(usize, usize)>,
    pub a2b: Vec<Option<usize>>,
    pub b2a: Vec<Option<usize>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg {
    pub t: f64,
    pub mh: usize,
}
impl Cfg {
    pub const DEF: Cfg = Cfg { t: 0.5, mh: 1 };
    pub fn real(self) -> MatchingConfig {
        // the usual configuration is the library's own default
        if self == Cfg::DEF { MatchingConfig::default() } else { self.explicit() }
    }
    pub fn explicit(self) -> MatchingConfig {
        let mut c = MatchingConfig::default();
        c.similarity_threshold = self.t;
        c.min_height = self.mh;
        c
    }
}

/// How the two specs are handed to the implementation.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// library `Tree` on both sides
    Lib(Numbering, Numbering),
    /// independent trees on both sides (numbering offset, level order)
    Own(usize, usize, bool),
    /// library tree vs independent tree
    Mixed,
}
pub const DEFMODE: Mode = Mode::Lib(Numbering::Fresh, Numbering::Fresh);

pub fn decode<A: Built, B: Built>(ta: &A, tb: &B, ops: &[EditOp<HT>]) -> Result<Vec<Op>, Fail> {
    let ia = |id| ta.index(id).ok_or_else(|| Fail::from(format!("operation names node {id:?}, which is not in the old tree")));
    let ib = |id| tb.index(id).ok_or_else(|| Fail::from(format!("operation names node {id:?}, which is not in the new tree")));
    ops.iter()
        .map(|op| {
            Ok(match op {
                EditOp::UpdateProperties { node_a, node_b, changes } => Op::Upd {
                    a: ia(*node_a)?,
                    b: ib(*node_b)?,
                    changes: changes
                        .iter()
                        .map(|c| {
                            (c.key.0, match &c.value {
                                PropValue::Same => None,
                                PropValue::Different(v) => Some(v.0 as u8),
                            })
                        })
                        .collect(),
                },
                EditOp::SetText { node_a, node_b, text } => Op::Txt { a: ia(*node_a)?, b: ib(*node_b)?, text: text.0 },
                EditOp::Insert { node_b, parent_b, position, kind } => {
                    Op::Ins { b: ib(*node_b)?, pb: ib(*parent_b)?, pos: *position, kind: kind.0 }
                }
                EditOp::Delete { node_a } => Op::Del { a: ia(*node_a)? },
                EditOp::Move { node_a, node_b, new_parent_b, new_position } => {
                    Op::Mov { a: ia(*node_a)?, b: ib(*node_b)?, pb: ib(*new_parent_b)?, pos: *new_position }
                }
            })
        })
        .collect()
}

/// Reads a matching through its whole public interface.
pub fn read_matching<A: Built, B: Built>(ta: &A, tb: &B, m: &Matching) -> Result<(Vec<(usize, usize)>, Vec<Option<usize>>, Vec<Option<usize>>), Fail> {
    let mut a2b = vec![None; ta.ids().len()];
    let mut b2a = vec![None; tb.ids().len()];
    for (i, &id) in ta.ids().iter().enumerate() {
        if let Some(b) = m.get_b(id) {
            a2b[i] = Some(tb.index(b).ok_or_else(|| Fail::from(format!("old node {i} is matched to {b:?}, not a node of the new tree")))?);
        }
    }
    for (i, &id) in tb.ids().iter().enumerate() {
        if let Some(a) = m.get_a(id) {
            b2a[i] = Some(ta.index(a).ok_or_else(|| Fail::from(format!("new node {i} is matched to {a:?}, not a node of the old tree")))?);
        }
    }
    let mut pairs = Vec::new();
    for (a, b) in m.pairs() {
        pairs.push((
            ta.index(a).ok_or_else(|| Fail::from(format!("pair names {a:?}, not a node of the old tree")))?,
            tb.index(b).ok_or_else(|| Fail::from(format!("pair names {b:?}, not a node of the new tree")))?,
        ));
    }
    for (i, &id) in ta.ids().iter().enumerate() {
        ensure!(m.contains_a(id) == a2b[i].is_some(), "old node {i}: membership says {}, look-up says {:?}", m.contains_a(id), a2b[i]);
    }
    for (i, &id) in tb.ids().iter().enumerate() {
        ensure!(m.contains_b(id) == b2a[i].is_some(), "new node {i}: membership says {}, look-up says {:?}", m.contains_b(id), b2a[i]);
    }
    ensure!(m.len() == pairs.len(), "the matching claims {} pairs but lists {pairs:?}", m.len());
    ensure!(m.is_empty() == pairs.is_empty(), "the matching claims emptiness {} but lists {pairs:?}", m.is_empty());
    Ok((pairs, a2b, b2a))
}

fn run_on<A: Built, B: Built>(ta: &A, tb: &B, cfg: Cfg) -> Result<Run, Fail> {
    run_with(ta, tb, &cfg.real())
}

fn run_with<A: Built, B: Built>(ta: &A, tb: &B, cfg: &MatchingConfig) -> Result<Run, Fail> {
    let m = compute_matching(ta, tb, cfg);
    let ops = generate_edit_script(ta, tb, &m);
    let (pairs, a2b, b2a) = read_matching(ta, tb, &m)?;
    Ok(Run { ops: decode(ta, tb, &ops)?, pairs, a2b, b2a })
}

pub fn run(a: &Spec, b: &Spec, cfg: Cfg, mode: Mode, hash_props: bool) -> Result<Run, Fail> {
    let (ha, hb) = (a.hashes(hash_props), b.hashes(hash_props));
    match mode {
        Mode::Lib(na, nb) => run_on(&RT::build(a, &ha, na), &RT::build(b, &hb, nb), cfg),
        Mode::Own(oa, ob, lo) => run_on(&VT::build(a, &ha, oa, lo), &VT::build(b, &hb, ob, lo), cfg),
        Mode::Mixed => run_on(&RT::build(a, &ha, Numbering::Fresh), &VT::build(b, &hb, 3, false), cfg),
    }
}

/// As `run`, with hashes that are equal exactly where the usual ones are.
pub fn run_relabelled(a: &Spec, b: &Spec, cfg: Cfg, how: usize) -> Result<Run, Fail> {
    let (ha, hb) = (a.hashes(false), b.hashes(false));
    let mut all: Vec<u64> = ha.iter().chain(&hb).copied().collect();
    if how & 1 == 0 {
        all.sort();
        all.dedup();
    } else {
        // in order of appearance, the new tree's last node first
        let mut seen = std::collections::HashSet::new();
        all.reverse();
        all.retain(|h| seen.insert(*h));
    }
    let rank: std::collections::HashMap<u64, u64> = all.iter().enumerate().map(|(i, h)| (*h, i as u64)).collect();
    let f = |h: &Vec<u64>| -> Vec<u64> {
        h.iter()
            .map(|h| match how / 2 {
                0 => rank[h],
                1 => rank[h] << 48,
                _ => u64::MAX - rank[h],
            })
            .collect()
    };
    run_on(&RT::build(a, &f(&ha), Numbering::Fresh), &RT::build(b, &f(&hb), Numbering::Fresh), cfg)
}

/// As `run`, but with every setting given explicitly.
pub fn run_explicit(a: &Spec, b: &Spec, cfg: Cfg, hash_props: bool) -> Result<Run, Fail> {
    let (ha, hb) = (a.hashes(hash_props), b.hashes(hash_props));
    run_with(&RT::build(a, &ha, Numbering::Fresh), &RT::build(b, &hb, Numbering::Fresh), &cfg.explicit())
}

pub fn show_ops(ops: &[Op]) -> String {
    ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join("; ")
}

pub fn roots_compatible(a: &Spec, b: &Spec, cfg: Cfg) -> bool {
    a.node[0].kind == b.node[0].kind && a.node[0].opaque == b.node[0].opaque && prop_similarity(&a.node[0].props, &b.node[0].props) >= cfg.t
}

// ---------------------------------------------------------------- matching

pub fn matching_valid(a: &Spec, b: &Spec, r: &Run) -> Outcome {
    let mut seen_a = vec![false; a.len()];
    let mut seen_b = vec![false; b.len()];
    for &(x, y) in &r.pairs {
        ensure!(!seen_a[x], "old node {x} is matched twice: {:?}", r.pairs);
        ensure!(!seen_b[y], "new node {y} is matched twice: {:?}", r.pairs);
        seen_a[x] = true;
        seen_b[y] = true;
        ensure!(r.a2b[x] == Some(y), "pair ({x},{y}) listed, but old node {x} looks up to {:?}", r.a2b[x]);
        ensure!(r.b2a[y] == Some(x), "pair ({x},{y}) listed, but new node {y} looks up to {:?}", r.b2a[y]);
        ensure!(
            a.node[x].kind == b.node[y].kind,
            "nodes of different kinds matched: old {x} (kind {}) with new {y} (kind {})",
            a.node[x].kind,
            b.node[y].kind
        );
        ensure!(a.node[x].opaque == b.node[y].opaque, "an opaque and a transparent node are matched: old {x} with new {y}");
        ensure!((x == 0) == (y == 0), "the root of one tree is matched with an inner node of the other: old {x} with new {y}");
    }
    for x in 0..a.len() {
        ensure!(seen_a[x] == r.a2b[x].is_some(), "old node {x}: look-up {:?} disagrees with the pairs {:?}", r.a2b[x], r.pairs);
    }
    for y in 0..b.len() {
        ensure!(seen_b[y] == r.b2a[y].is_some(), "new node {y}: look-up {:?} disagrees with the pairs {:?}", r.b2a[y], r.pairs);
    }
    Ok(())
}

// ------------------------------------------------------------------ replay

/// Applies the script to the old tree (final-position semantics) and compares
/// the outcome with the new tree, node by node. What lies strictly inside
/// opaque nodes is not the script's business.
pub fn replay(a: &Spec, b: &Spec, r: &Run, obs: &mut Obs) -> Outcome {
    let (ina, inb) = (a.inside_opaque(), b.inside_opaque());
    let (posa, posb) = (a.positions(), b.positions());
    // where each node of the new tree comes from
    #[derive(Clone)]
    struct Live {
        parent: Option<usize>,
        pos: usize,
        text: Option<u16>,
        props: P,
        kind: u8,
    }
    let mut live: Vec<Option<Live>> = vec![None; b.len()];
    for &(x, y) in &r.pairs {
        if ina[x] || inb[y] {
            continue;
        }
        ensure!(live[y].is_none(), "new node {y} has two sources");
        live[y] = Some(Live {
            parent: if x == 0 { None } else { r.a2b[a.parent[x]] },
            pos: posa[x],
            text: a.node[x].text,
            props: a.node[x].props.clone(),
            kind: a.node[x].kind,
        });
    }
    let mut deleted = vec![false; a.len()];
    let mut moved = vec![false; a.len()];
    for op in &r.ops {
        obs.step(1);
        match op {
            Op::Ins { b: y, pb, pos, kind } => {
                ensure!(live[*y].is_none(), "{op:?} inserts a node that is already present");
                live[*y] = Some(Live {
                    parent: Some(*pb),
                    pos: *pos,
                    text: b.node[*y].text,
                    props: b.node[*y].props.clone(),
                    kind: *kind,
                });
            }
            Op::Del { a: x } => {
                ensure!(!deleted[*x], "{op:?} deletes a node twice");
                ensure!(r.a2b[*x].is_none(), "{op:?} deletes a node that is kept (matched to new node {:?})", r.a2b[*x]);
                deleted[*x] = true;
            }
            Op::Mov { a: x, b: y, pb, pos } => {
                ensure!(r.a2b[*x] == Some(*y), "{op:?}: old node {x} is not matched to new node {y}");
                ensure!(!moved[*x], "{op:?} moves a node twice");
                moved[*x] = true;
                let Some(l) = live[*y].as_mut() else {
                    return Err(format!("{op:?} moves a node that is not there").into());
                };
                l.parent = Some(*pb);
                l.pos = *pos;
            }
            Op::Upd { a: x, b: y, changes } => {
                ensure!(r.a2b[*x] == Some(*y), "{op:?}: old node {x} is not matched to new node {y}");
                let Some(l) = live[*y].as_mut() else {
                    return Err(format!("{op:?} updates a node that is not there").into());
                };
                let mut next = Vec::new();
                for (k, v) in changes {
                    match v {
                        Some(v) => next.push((*k, *v)),
                        None => match l.props.get(*k) {
                            Some(v) => next.push((*k, v)),
                            None => return Err(format!("{op:?}: property {k} is said to be unchanged but was absent").into()),
                        },
                    }
                }
                l.props = P(next);
            }
            Op::Txt { a: x, b: y, text } => {
                ensure!(r.a2b[*x] == Some(*y), "{op:?}: old node {x} is not matched to new node {y}");
                let Some(l) = live[*y].as_mut() else {
                    return Err(format!("{op:?} sets the text of a node that is not there").into());
                };
                l.text = Some(*text);
            }
        }
    }
    obs.trace();
    for x in 0..a.len() {
        if !ina[x] {
            ensure!(
                deleted[x] || r.a2b[x].is_some(),
                "old node {x} is neither kept nor deleted: it would be left behind"
            );
        }
    }
    // an opaque node that becomes a plain one must not keep its old contents
    for &(x, y) in &r.pairs {
        if a.node[x].opaque && !b.node[y].opaque {
            let ends = a.ends();
            for i in x + 1..ends[x] {
                ensure!(
                    deleted[i],
                    "old node {i} is neither kept nor deleted: it would be left behind inside new node {y}"
                );
            }
        }
    }
    for y in 0..b.len() {
        if inb[y] {
            continue;
        }
        let Some(l) = &live[y] else {
            return Err(format!("new node {y} is missing from the result").into());
        };
        let want_parent = if y == 0 { None } else { Some(b.parent[y]) };
        ensure!(l.parent == want_parent, "new node {y} ends up under {:?}, should be under {want_parent:?}", l.parent);
        if y != 0 {
            ensure!(l.pos == posb[y], "new node {y} ends up at index {}, should be at {}", l.pos, posb[y]);
        }
        ensure!(l.kind == b.node[y].kind, "new node {y} ends up with kind {}", l.kind);
        ensure!(l.text == b.node[y].text, "new node {y} ends up with text {:?}, should have {:?}", l.text, b.node[y].text);
        let (mut p, mut q) = (l.props.0.clone(), b.node[y].props.0.clone());
        p.sort();
        q.sort();
        ensure!(p == q, "new node {y} ends up with properties {p:?}, should have {q:?}");
    }
    Ok(())
}

// ------------------------------------------------------------ executability

/// Walks the script in order, keeping which nodes exist and who their parent is.
pub fn executable(a: &Spec, b: &Spec, r: &Run, obs: &mut Obs) -> Outcome {
    let (ina, inb) = (a.inside_opaque(), b.inside_opaque());
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    enum Id {
        A(usize),
        B(usize),
    }
    let mut alive_a = vec![true; a.len()];
    let mut present_b = vec![false; b.len()];
    let mut parent_a: Vec<Option<Id>> = (0..a.len()).map(|i| if i == 0 { None } else { Some(Id::A(a.parent[i])) }).collect();
    let mut parent_b: Vec<Option<Id>> = vec![None; b.len()];
    // id of a node of the new tree as of now
    macro_rules! resolve {
        ($y:expr, $op:expr) => {{
            let y: usize = $y;
            match r.b2a[y] {
                Some(x) => {
                    ensure!(alive_a[x], "{:?} refers to new node {y}, whose old counterpart {x} was deleted earlier", $op);
                    Id::A(x)
                }
                None => {
                    ensure!(present_b[y], "{:?} refers to new node {y} before it is inserted", $op);
                    Id::B(y)
                }
            }
        }};
    }
    for op in &r.ops {
        obs.step(1);
        match op {
            Op::Ins { b: y, pb, .. } => {
                ensure!(!inb[*y], "{op:?} inserts a node inside an opaque region");
                ensure!(!present_b[*y] && r.b2a[*y].is_none(), "{op:?} inserts a node that already exists");
                let p = resolve!(*pb, op);
                present_b[*y] = true;
                parent_b[*y] = Some(p);
            }
            Op::Mov { a: x, pb, .. } => {
                ensure!(alive_a[*x], "{op:?} moves a deleted node");
                let p = resolve!(*pb, op);
                let mut up = Some(p);
                while let Some(u) = up {
                    ensure!(u != Id::A(*x), "{op:?} moves a node into itself: at that point its new parent is inside it");
                    up = match u {
                        Id::A(i) => parent_a[i],
                        Id::B(j) => parent_b[j],
                    };
                }
                parent_a[*x] = Some(p);
            }
            Op::Del { a: x } => {
                ensure!(alive_a[*x], "{op:?} deletes a node that is already gone");
                for i in 0..a.len() {
                    if alive_a[i] && parent_a[i] == Some(Id::A(*x)) && !ina[i] {
                        return Err(format!("{op:?} runs while old node {i} is still inside it").into());
                    }
                }
                for j in 0..b.len() {
                    if present_b[j] && parent_b[j] == Some(Id::A(*x)) {
                        return Err(format!("{op:?} runs while the inserted node {j} is inside it").into());
                    }
                }
                alive_a[*x] = false;
            }
            Op::Upd { a: x, .. } | Op::Txt { a: x, .. } => {
                ensure!(alive_a[*x], "{op:?} updates a deleted node");
            }
        }
    }
    obs.trace();
    Ok(())
}

// ----------------------------------------------------------------- economy

pub fn economical(a: &Spec, b: &Spec, r: &Run) -> Outcome {
    let (ina, inb) = (a.inside_opaque(), b.inside_opaque());
    let (posa, posb) = (a.positions(), b.positions());
    let mut ins = vec![0; b.len()];
    let mut del = vec![0; a.len()];
    let mut mov = vec![0; a.len()];
    let mut txt = vec![0; a.len()];
    let mut upd = vec![0; a.len()];
    for op in &r.ops {
        match op {
            Op::Ins { b, .. } => ins[*b] += 1,
            Op::Del { a } => del[*a] += 1,
            Op::Mov { a, .. } => mov[*a] += 1,
            Op::Txt { a, .. } => txt[*a] += 1,
            Op::Upd { a, .. } => upd[*a] += 1,
        }
    }
    for y in 1..b.len() {
        let want = (!inb[y] && r.b2a[y].is_none()) as i32;
        ensure!(ins[y] == want, "new node {y} (matched to {:?}) is inserted {} times", r.b2a[y], ins[y]);
    }
    for x in 0..a.len() {
        let want = (!ina[x] && r.a2b[x].is_none()) as i32;
        ensure!(del[x] == want, "old node {x} (matched to {:?}) is deleted {} times", r.a2b[x], del[x]);
        match r.a2b[x] {
            None => ensure!(mov[x] + txt[x] + upd[x] == 0, "old node {x} is not kept, but is moved or updated"),
            Some(y) => {
                if ina[x] || inb[y] {
                    ensure!(mov[x] + txt[x] + upd[x] == 0, "old node {x} lies inside an opaque region, but is edited");
                    continue;
                }
                if x != 0 && y != 0 {
                    let needed = r.a2b[a.parent[x]] != Some(b.parent[y]) || posa[x] != posb[y];
                    ensure!(
                        mov[x] == needed as i32,
                        "old node {x} -> new node {y}: place {} but {} moves",
                        if needed { "changed" } else { "unchanged" },
                        mov[x]
                    );
                } else {
                    ensure!(mov[x] == 0, "a root is moved");
                }
                let t = a.node[x].text != b.node[y].text;
                ensure!(
                    txt[x] == t as i32,
                    "old node {x} -> new node {y}: text {} but {} text updates",
                    if t { "changed" } else { "unchanged" },
                    txt[x]
                );
                let (mut p, mut q) = (a.node[x].props.0.clone(), b.node[y].props.0.clone());
                p.sort();
                q.sort();
                ensure!(
                    upd[x] == (p != q) as i32,
                    "old node {x} -> new node {y}: properties {} but {} property updates",
                    if p != q { "changed" } else { "unchanged" },
                    upd[x]
                );
            }
        }
    }
    Ok(())
}

/// Every property update carries the complete, ordered final state.
pub fn updates_complete(a: &Spec, b: &Spec, r: &Run) -> Outcome {
    let posb = b.positions();
    for op in &r.ops {
        match op {
            Op::Upd { a: x, b: y, changes } => {
                ensure!(r.a2b[*x] == Some(*y), "property update of old node {x} as new node {y}, but they are not matched");
                let want: Vec<(u8, Option<u8>)> = b.node[*y]
                    .props
                    .0
                    .iter()
                    .map(|(k, v)| (*k, if a.node[*x].props.get(*k) == Some(*v) { None } else { Some(*v) }))
                    .collect();
                ensure!(changes == &want, "property update of old node {x} -> new node {y} says {changes:?}, final state is {want:?}");
            }
            Op::Txt { a: x, b: y, text } => {
                ensure!(r.a2b[*x] == Some(*y), "text update of old node {x} as new node {y}, but they are not matched");
                ensure!(b.node[*y].text == Some(*text), "text update carries {text}, new node {y} has {:?}", b.node[*y].text);
            }
            Op::Ins { b: y, kind, pb, pos } => {
                ensure!(b.node[*y].kind == *kind, "insertion of new node {y} carries kind {kind}");
                ensure!(*y != 0 && b.parent[*y] == *pb, "insertion of new node {y} under new node {pb}, which is not its parent");
                ensure!(posb[*y] == *pos, "insertion of new node {y} names index {pos}, it is at {}", posb[*y]);
            }
            Op::Mov { a: x, b: y, pb, pos } => {
                ensure!(r.a2b[*x] == Some(*y), "move of old node {x} to new node {y}, but they are not matched");
                ensure!(*y != 0 && b.parent[*y] == *pb, "move to new node {y} under new node {pb}, which is not its parent");
                ensure!(posb[*y] == *pos, "move to new node {y} names index {pos}, it is at {}", posb[*y]);
            }
            Op::Del { .. } => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ opaque

pub fn opaque_atomic(a: &Spec, b: &Spec, r: &Run) -> Outcome {
    let (ina, inb) = (a.inside_opaque(), b.inside_opaque());
    for &(x, y) in &r.pairs {
        ensure!(!ina[x] && !inb[y], "match ({x},{y}) reaches inside an opaque region");
        ensure!(a.node[x].opaque == b.node[y].opaque, "an opaque and a transparent node are matched: old {x} with new {y}");
    }
    for op in &r.ops {
        let bad = match op {
            Op::Ins { b, pb, .. } => inb[*b] || inb[*pb],
            Op::Del { a } => ina[*a],
            Op::Mov { a, b, pb, .. } => ina[*a] || inb[*b] || inb[*pb],
            Op::Upd { a, b, .. } | Op::Txt { a, b, .. } => ina[*a] || inb[*b],
        };
        ensure!(!bad, "{op:?} reaches inside an opaque region");
    }
    // nothing may be placed directly under an opaque node either
    for op in &r.ops {
        if let Op::Ins { pb, .. } | Op::Mov { pb, .. } = op {
            ensure!(!b.node[*pb].opaque, "{op:?} places a node inside an opaque node");
        }
    }
    Ok(())
}
// -------------------------------------------------------------- thresholds

pub fn thresholds(a: &Spec, b: &Spec, ha: &[u64], hb: &[u64], r: &Run, cfg: Cfg) -> Outcome {
    let (ea, eb) = (a.ends(), b.ends());
    let (posa, posb) = (a.positions(), b.positions());
    for &(x, y) in &r.pairs {
        if ha[x] == hb[y] || a.node[x].opaque || b.node[y].opaque {
            continue;
        }
        let sim = prop_similarity(&a.node[x].props, &b.node[y].props);
        ensure!(sim >= cfg.t, "old node {x} and new node {y} are matched, though they differ and their properties are only {sim:.3} similar (threshold {})", cfg.t);
        // same position below matched parents, or both roots: structure is not consulted
        let both_roots = x == 0 && y == 0;
        let coparented = x != 0 && y != 0 && r.a2b[a.parent[x]] == Some(b.parent[y]);
        let leaves = ea[x] == x + 1 && eb[y] == y + 1;
        if both_roots || leaves || coparented && posa[x] == posb[y] {
            continue;
        }
        let common = (x + 1..ea[x]).filter(|&i| r.a2b[i].is_some_and(|j| y <= j && j < eb[y])).count();
        // (y itself may also be the counterpart of a descendant of x; it is not, it is x's)
        let dice = 2.0 * common as f64 / ((ea[x] - x) + (eb[y] - y)) as f64;
        ensure!(
            dice >= cfg.t,
            "old node {x} and new node {y} are matched across different places though only {dice:.3} of their descendants correspond (threshold {})",
            cfg.t
        );
    }
    Ok(())
}

// ----------------------------------------------------------------- quality

/// No kept-worthy node is deleted and re-created.
pub fn maximal(a: &Spec, b: &Spec, ha: &[u64], hb: &[u64], r: &Run, cfg: Cfg) -> Outcome {
    let (ina, inb) = (a.inside_opaque(), b.inside_opaque());
    let (posa, posb) = (a.positions(), b.positions());
    let (ea, eb) = (a.ends(), b.ends());
    for x in 1..a.len() {
        if r.a2b[x].is_some() || ina[x] {
            continue;
        }
        for y in 1..b.len() {
            if r.b2a[y].is_some() || inb[y] || a.node[x].kind != b.node[y].kind || a.node[x].opaque != b.node[y].opaque {
                continue;
            }
            let (px, py) = (a.parent[x], b.parent[y]);
            let sim = prop_similarity(&a.node[x].props, &b.node[y].props) >= cfg.t;
            let leaves = ea[x] == x + 1 && eb[y] == y + 1;
            if r.a2b[px] == Some(py) {
                ensure!(
                    !(posa[x] == posb[y] && sim),
                    "old node {x} is deleted and new node {y} inserted, though both are child {} of matched parents, have the same kind and similar properties",
                    posa[x]
                );
                ensure!(
                    !(leaves && ha[x] == hb[y]),
                    "leaf {x} is deleted and an identical leaf {y} is inserted under the same (matched) parent"
                );
            } else if r.a2b[px].is_none() && leaves && (sim || ha[x] == hb[y]) {
                // allowed to travel if the new parent is new, or corresponds to an ancestor of x
                let ok = match r.b2a[py] {
                    None => true,
                    Some(q) => q <= x && x < ea[q],
                };
                ensure!(
                    !ok,
                    "leaf {x} of a deleted parent is deleted although compatible new leaf {y} is inserted"
                );
            }
        }
    }
    Ok(())
}

/// Unchanged subtrees whose contents are unambiguous are kept as they are.
/// Returns how many nodes were covered.
pub fn blocks_kept(a: &Spec, b: &Spec, ha: &[u64], hb: &[u64], r: &Run, cfg: Cfg) -> Result<usize, Fail> {
    let (hta, htb) = (a.heights(), b.heights());
    let (ea, eb) = (a.ends(), b.ends());
    let (ina, inb) = (a.inside_opaque(), b.inside_opaque());
    let uniq = |h: &[u64], v: u64| h.iter().filter(|&&x| x == v).count() == 1;
    let mut covered = 0;
    let same_opacity = a.len() == b.len() && a.node.iter().zip(&b.node).all(|(x, y)| x.opaque == y.opaque);
    if ha[0] == hb[0] && same_opacity {
        // identical trees: node for node
        for i in 0..a.len() {
            if !ina[i] && hta[0] >= cfg.mh {
                ensure!(r.a2b[i] == Some(i), "identical trees, but node {i} is matched to {:?}", r.a2b[i]);
                covered += 1;
            }
        }
        return Ok(covered);
    }
    if a.has_opaque() || b.has_opaque() {
        return Ok(0);
    }
    // unambiguous[i]: all subtrees in a[i..] tall enough occur once in a and once in b
    let good = |i: usize| (i..ea[i]).all(|k| hta[k] < cfg.mh || uniq(ha, ha[k]) && uniq(hb, ha[k]));
    for x in 1..a.len() {
        if hta[x] < cfg.mh || ina[x] {
            continue;
        }
        let Some(y) = (0..b.len()).find(|&y| hb[y] == ha[x]) else { continue };
        if y == 0 || inb[y] || !good(x) {
            continue;
        }
        debug_assert_eq!(hta[x], htb[y]);
        // same depth, and ancestors of the same kind level by level
        let (mut p, mut q) = (x, y);
        let mut same = true;
        while p != 0 && q != 0 {
            p = a.parent[p];
            q = b.parent[q];
            if a.node[p].kind != b.node[q].kind && !(p == 0 && q == 0) {
                same = false;
            }
        }
        if !(same && p == 0 && q == 0) {
            continue;
        }
        for k in 0..ea[x] - x {
            ensure!(
                r.a2b[x + k] == Some(y + k),
                "subtree {x} of the old tree occurs unchanged (and only once) as subtree {y} of the new tree, but its node {} is matched to {:?} instead of {}",
                x + k,
                r.a2b[x + k],
                y + k
            );
            covered += 1;
        }
        ensure!(eb[y] - y == ea[x] - x, "oracle: sizes");
    }
    Ok(covered)
}

// -------------------------------------------------------------- stays put

/// A leaf that keeps its kind, its index and its (matched) parent, and is
/// similar enough, is matched with itself and with no other (opaque nodes are
/// paired up eagerly and are not covered).
pub fn stays_put(a: &Spec, b: &Spec, r: &Run, cfg: Cfg) -> Result<usize, Fail> {
    let (ina, inb) = (a.inside_opaque(), b.inside_opaque());
    let (posa, posb) = (a.positions(), b.positions());
    let (ea, eb) = (a.ends(), b.ends());
    let mut n = 0;
    for x in 1..a.len() {
        if ina[x] || a.node[x].opaque || ea[x] != x + 1 || cfg.mh == 0 {
            continue;
        }
        let Some(py) = r.a2b[a.parent[x]] else { continue };
        let Some(y) = (1..b.len()).find(|&y| b.parent[y] == py && posb[y] == posa[x]) else { continue };
        if inb[y] || eb[y] != y + 1 || a.node[x].kind != b.node[y].kind || a.node[x].opaque != b.node[y].opaque {
            continue;
        }
        if prop_similarity(&a.node[x].props, &b.node[y].props) < cfg.t {
            continue;
        }
        n += 1;
        ensure!(
            r.a2b[x] == Some(y),
            "leaf {x} stays where it is (new node {y}), but is matched to {:?}, and new node {y} to {:?}",
            r.a2b[x],
            r.b2a[y]
        );
    }
    Ok(n)
}

// ---------------------------------------------------------------- ancestry

/// Changed content does not jump between places that both survive. Returns
/// how many pairs were judged.
pub fn no_jumps(a: &Spec, b: &Spec, ha: &[u64], hb: &[u64], r: &Run, cfg: Cfg) -> Result<usize, Fail> {
    let (ea, eb) = (a.ends(), b.ends());
    let hta = a.heights();
    let mut n = 0;
    for &(x, y) in &r.pairs {
        if x == 0 || y == 0 || a.node[x].opaque || b.node[y].opaque {
            continue;
        }
        if ha[x] == hb[y] && hta[x] >= cfg.mh {
            continue; // identical: found by content
        }
        let (px, py) = (a.parent[x], b.parent[y]);
        if let Some(q) = r.a2b[px] {
            n += 1;
            ensure!(
                q <= y && y < eb[q],
                "old node {x} became new node {y}, which is outside new node {q}, the counterpart of the parent of {x}"
            );
        }
        if let Some(q) = r.b2a[py] {
            let leaf = ea[x] == x + 1 && eb[y] == y + 1;
            if leaf || q < x {
                n += 1;
                ensure!(
                    q <= x && x < ea[q],
                    "new node {y} was made from old node {x}, which is outside old node {q}, the counterpart of the parent of {y}"
                );
            }
        }
    }
    Ok(n)
}
