//! The spaces of (old tree, new tree) pairs that are explored completely.

use crate::model::*;
use mc_core::Tier;
use mc_core::trees::{arrangements, perms, shapes, words};
use std::sync::Arc;

pub struct Space {
    pub name: &'static str,
    pub bound: String,
    pub size: u64,
    pub get: Box<dyn Fn(u64) -> (Spec, Spec) + Send + Sync>,
}

pub fn el(kind: u8) -> N {
    N { kind, ..Default::default() }
}
pub fn elp(kind: u8, props: &[(u8, u8)]) -> N {
    N { kind, props: P(props.to_vec()), ..Default::default() }
}
pub fn tx(t: u16) -> N {
    N { kind: 100, text: Some(t), ..Default::default() }
}

/// All trees with 1..=n nodes whose root is drawn from `roots`, inner nodes
/// from `inner`, and leaves from `inner` and `leaf`.
pub fn all_trees(n: usize, roots: &[N], inner: &[N], leaf_only: &[N]) -> Vec<Spec> {
    let mut out = Vec::new();
    let mut all: Vec<N> = inner.to_vec();
    all.extend_from_slice(leaf_only);
    for k in 1..=n {
        for parent in shapes(k) {
            let mut isleaf = vec![true; k];
            for i in 1..k {
                isleaf[parent[i]] = false;
            }
            let choices: Vec<&[N]> = (0..k)
                .map(|i| if i == 0 { roots } else if isleaf[i] { &all[..] } else { inner })
                .collect();
            let mut idx = vec![0usize; k];
            'l: loop {
                out.push(Spec { parent: parent.clone(), node: (0..k).map(|i| choices[i][idx[i]].clone()).collect() });
                let mut d = k;
                loop {
                    if d == 0 {
                        break 'l;
                    }
                    d -= 1;
                    idx[d] += 1;
                    if idx[d] < choices[d].len() {
                        break;
                    }
                    idx[d] = 0;
                }
            }
        }
    }
    out
}

pub fn pairs(name: &'static str, bound: String, list: Vec<Spec>) -> Space {
    let n = list.len() as u64;
    let list = Arc::new(list);
    Space {
        name,
        bound: format!("{bound}: all ordered pairs of {n} trees"),
        size: n * n,
        get: Box::new(move |i| (list[(i / n) as usize].clone(), list[(i % n) as usize].clone())),
    }
}

pub fn listed(name: &'static str, bound: String, list: Vec<(Spec, Spec)>) -> Space {
    let list = Arc::new(list);
    Space { name, bound, size: list.len() as u64, get: Box::new(move |i| list[i as usize].clone()) }
}

pub fn kinds(n: usize) -> Space {
    pairs("kinds", format!("trees of <= {n} nodes over 2 node kinds"), all_trees(n, &[el(0)], &[el(0), el(1)], &[]))
}
pub fn texts(n: usize) -> Space {
    pairs("texts", format!("trees of <= {n} nodes, elements of 1 kind, leaves also 2 texts"), all_trees(n, &[el(0)], &[el(0)], &[tx(0), tx(1)]))
}
pub fn texts2(n: usize) -> Space {
    pairs("texts2", format!("trees of <= {n} nodes, elements of 2 kinds, leaves also 2 texts"), all_trees(n, &[el(0)], &[el(0), el(1)], &[tx(0), tx(1)]))
}
pub fn props(n: usize) -> Space {
    let ps: Vec<N> = [&[][..], &[(0, 0)], &[(0, 1)], &[(0, 0), (1, 0)], &[(1, 0), (0, 0)]].iter().map(|p| elp(0, p)).collect();
    let mut inner = ps.clone();
    inner.push(elp(1, &[]));
    inner.push(elp(1, &[(0, 0)]));
    pairs("props", format!("trees of <= {n} nodes with 7 kind/property combinations"), all_trees(n, &ps, &inner, &[]))
}
/// Opacity decided by kind (so that opaque nodes can only meet opaque nodes).
pub fn opaque_kind(n: usize) -> Space {
    let o = N { kind: 7, opaque: true, ..Default::default() };
    let o2 = N { kind: 8, opaque: true, ..Default::default() };
    let mut list = all_trees(n, &[el(0), o.clone()], &[el(0), el(1), o], &[]);
    // opaque roots of another kind
    list.extend(all_trees(n.min(3), &[o2], &[el(0)], &[]));
    pairs("opaque", format!("trees of <= {n} nodes, 2 plain kinds and 1 opaque kind, roots of 1 plain and 2 opaque kinds"), list)
}
/// Opacity is a flag, so an opaque node can meet a plain node of its kind.
pub fn opaque_flag(n: usize) -> Space {
    let o = N { kind: 0, opaque: true, ..Default::default() };
    pairs(
        "opaqueflag",
        format!("trees of <= {n} nodes, 1 kind, each node opaque or not, leaves also 1 text"),
        all_trees(n, &[el(0), o.clone()], &[el(0), o], &[tx(0)]),
    )
}

/// A node of kind 101: it carries a text and may have properties and children.
pub fn txp(t: u16, props: &[(u8, u8)]) -> N {
    N { text: Some(t), ..elp(101, props) }
}
/// Inner nodes that carry a text.
pub fn textful(n: usize) -> Space {
    let k = [el(1), txp(1, &[]), txp(2, &[]), txp(1, &[(0, 1)])];
    pairs("textful", format!("trees of <= {n} nodes, plain ones and ones with one of 2 texts, which may have children and a property"), all_trees(n, &k, &k, &[]))
}
/// Nodes with a text, opaque or not.
pub fn textful_opaque(n: usize) -> Space {
    let o = |t: u16| N { opaque: true, ..txp(t, &[]) };
    let k = [el(1), txp(1, &[]), o(1), o(2)];
    pairs("textfulopaque", format!("trees of <= {n} nodes, plain ones and ones with a text, opaque or not, which may have children"), all_trees(n, &k, &k, &[]))
}

/// Item number `i` of a list, in several flavours.
pub fn item(flavour: usize, i: usize) -> Spec {
    match flavour {
        // text leaf
        0 => Spec::leaf(tx(i as u16)),
        // leaf elements of distinct kinds
        1 => Spec::leaf(el(1 + i as u8 % 90)),
        // blocks of one kind with distinct text
        2 => Spec::nest(el(1), &[Spec::leaf(tx(i as u16))]),
        // keyed blocks: a distinguishing property
        3 => Spec::nest(elp(1, &[(0, i as u8)]), &[Spec::leaf(tx(i as u16))]),
        // two kinds alternating, deeper block
        4 => Spec::nest(
            el(1 + (i % 2) as u8),
            &[Spec::nest(el(3), &[Spec::leaf(tx(i as u16)), Spec::leaf(el(4))]), Spec::leaf(tx(1000))],
        ),
        // mixed: texts, empty elements, blocks
        5 => match i % 3 {
            0 => Spec::leaf(tx(i as u16)),
            1 => Spec::leaf(elp(1, &[(0, (i / 3) as u8)])),
            _ => Spec::nest(el(2), &[Spec::leaf(tx(i as u16))]),
        },
        _ => unreachable!(),
    }
}
pub const FLAVOURS: usize = 6;

pub fn list_of(flavour: usize, items: &[usize]) -> Spec {
    Spec::nest(el(0), &items.iter().map(|&i| item(flavour, i)).collect::<Vec<_>>())
}

/// Every permutation of n distinct items.
pub fn permutations(n: usize) -> Space {
    let mut list = Vec::new();
    for k in 2..=n {
        for p in perms(k) {
            for f in 0..FLAVOURS {
                list.push((list_of(f, &(0..k).collect::<Vec<_>>()), list_of(f, &p)));
            }
        }
    }
    listed("perms", format!("every permutation of 2..={n} distinct siblings, {FLAVOURS} flavours of sibling"), list)
}

/// All pairs of duplicate-free lists drawn from an alphabet, and all pairs of words.
pub fn lists(alpha: usize, len: usize, wlen: usize) -> Space {
    let arr = arrangements(alpha, len);
    let mut ws = Vec::new();
    for l in 0..=wlen {
        ws.extend(words(l, 2));
    }
    let (na, nw) = (arr.len() as u64, ws.len() as u64);
    let (arr, ws) = (Arc::new(arr), Arc::new(ws));
    let per = na * na + nw * nw;
    Space {
        name: "lists",
        bound: format!(
            "all pairs of duplicate-free sibling lists over {alpha} items (length <= {len}) and of lists with duplicates over 2 items (length <= {wlen}), {FLAVOURS} flavours"
        ),
        size: per * FLAVOURS as u64,
        get: Box::new(move |i| {
            let (f, j) = ((i / per) as usize, i % per);
            if j < na * na {
                (list_of(f, &arr[(j / na) as usize]), list_of(f, &arr[(j % na) as usize]))
            } else {
                let j = j - na * na;
                (list_of(f, &ws[(j / nw) as usize]), list_of(f, &ws[(j % nw) as usize]))
            }
        }),
    }
}

/// Long sibling lists with one edit at every position (or pair of positions).
pub fn wide(sizes: &[usize], full_moves_upto: usize) -> Space {
    let mut jobs: Vec<(usize, usize, Vec<usize>)> = Vec::new();
    for &n in sizes {
        for f in [0usize, 1, 2, 5] {
            let base: Vec<usize> = (0..n).collect();
            let mut outs: Vec<Vec<usize>> = Vec::new();
            for i in 0..n {
                // delete, replace, insert before, duplicate
                let mut v = base.clone();
                v.remove(i);
                outs.push(v);
                let mut v = base.clone();
                v[i] = n + 1;
                outs.push(v);
                let mut v = base.clone();
                v.insert(i, n + 1);
                outs.push(v);
                let mut v = base.clone();
                v.insert(i, i);
                outs.push(v);
                // rotations
                let mut v = base.clone();
                v.rotate_left(i);
                outs.push(v);
                // truncate / keep the tail
                outs.push(base[..i].to_vec());
                outs.push(base[i..].to_vec());
                for j in 0..n {
                    if n > full_moves_upto && !(i < 2 || j < 2 || i + 2 >= n || j + 2 >= n || i.abs_diff(j) <= 1 || i + j + 1 == n) {
                        continue;
                    }
                    if i != j {
                        let mut v = base.clone();
                        let x = v.remove(i);
                        v.insert(j, x);
                        outs.push(v);
                    }
                    if i < j {
                        let mut v = base.clone();
                        v.swap(i, j);
                        outs.push(v);
                    }
                }
            }
            let mut v = base.clone();
            v.reverse();
            outs.push(v);
            // interleave halves
            let mut v = Vec::new();
            for i in 0..n.div_ceil(2) {
                v.push(i);
                if i + n.div_ceil(2) < n {
                    v.push(i + n.div_ceil(2));
                }
            }
            outs.push(v);
            // every other one removed / every other one new
            outs.push(base.iter().copied().filter(|x| x % 2 == 0).collect());
            outs.push(base.iter().map(|&x| if x % 2 == 0 { x } else { x + n }).collect());
            outs.push(base.iter().flat_map(|&x| [x, x + n]).collect());
            outs.push(vec![]);
            for o in outs {
                jobs.push((f, n, o));
            }
        }
    }
    let jobs = Arc::new(jobs);
    Space {
        name: "wide",
        bound: format!(
            "sibling lists of sizes {sizes:?}: delete/replace/insert/duplicate/rotate/truncate at every index, swap and single move for every index pair (all pairs up to size {full_moves_upto}), reversal, interleaving; and each of these backwards"
        ),
        size: jobs.len() as u64 * 2,
        get: Box::new(move |i| {
            let (f, n, o) = &jobs[(i / 2) as usize];
            let (a, b) = (list_of(*f, &(0..*n).collect::<Vec<_>>()), list_of(*f, o));
            if i % 2 == 0 { (a, b) } else { (b, a) }
        }),
    }
}

/// Very long sibling lists with one change around the powers of two.
pub fn huge(sizes: &[usize]) -> Space {
    let mut jobs: Vec<(usize, usize, Vec<usize>)> = Vec::new();
    for &n in sizes {
        let mut at: Vec<usize> = [2usize, 64, 128, 256, 512, 1024, n / 2, n].iter().flat_map(|p| p.saturating_sub(2)..=p + 1).filter(|i| *i < n).collect();
        if n > 600 {
            at = vec![0, 511, 512, 1023, n - 1];
        }
        at.sort();
        at.dedup();
        for f in [0usize, 1] {
            let base: Vec<usize> = (0..n).collect();
            for &i in &at {
                let mut push = |g: &dyn Fn(&mut Vec<usize>)| {
                    let mut v = base.clone();
                    g(&mut v);
                    jobs.push((f, n, v));
                };
                push(&|v| drop(v.remove(i)));
                push(&|v| v[i] = n + 1);
                push(&|v| v.insert(i, n + 1));
                push(&|v| v.insert(i, i));
                push(&|v| v.rotate_left(i));
                push(&|v| v.truncate(i));
                for j in [0, 1, n / 2, n - 2, n - 1] {
                    if i != j && (n <= 600 || j == 0 || j == n - 1) {
                        push(&|v| {
                            let x = v.remove(i);
                            v.insert(j, x)
                        });
                        push(&|v| v.swap(i, j));
                    }
                }
            }
            jobs.push((f, n, base.iter().rev().copied().collect()));
            jobs.push((f, n, base.iter().map(|&x| if x % 2 == 0 { x } else { x + n }).collect()));
        }
    }
    let jobs = Arc::new(jobs);
    Space {
        name: "huge",
        bound: format!("sibling lists of sizes {sizes:?}: delete/replace/insert/duplicate/rotate/truncate/move/swap at the ends, the middle and around powers of two; and each of these backwards"),
        size: jobs.len() as u64 * 2,
        get: Box::new(move |i| {
            let (f, n, o) = &jobs[(i / 2) as usize];
            let (a, b) = (list_of(*f, &(0..*n).collect::<Vec<_>>()), list_of(*f, o));
            if i % 2 == 0 { (a, b) } else { (b, a) }
        }),
    }
}

/// Big trees in which every node of a level has the same number of children, all
/// leaves distinct or all from a few: one change at the first, middle or last
/// node of every level.
pub fn bushy(shapes: &[&[usize]]) -> Space {
    fn full(shape: &[usize], next: &mut u16, kinds: u16) -> Spec {
        match shape {
            [] => {
                *next += 1;
                Spec::leaf(tx(*next % kinds))
            }
            [n, rest @ ..] => Spec::nest(el(if rest.is_empty() { 1 } else { 0 }), &(0..*n).map(|_| full(rest, next, kinds)).collect::<Vec<_>>()),
        }
    }
    fn edited(a: &Spec, ch: &[Vec<usize>], i: usize, x: usize, edit: usize) -> Vec<Spec> {
        let kids: Vec<Spec> = ch[i].iter().flat_map(|c| edited(a, ch, *c, x, edit)).collect();
        let same = |kids: &[Spec]| Spec::nest(a.node[i].clone(), kids);
        match (i == x, edit) {
            (true, 0) => vec![],
            (true, 1) => vec![Spec::nest(el(5), &[same(&kids)])],
            (true, 2) => kids,
            (true, _) => vec![Spec::leaf(tx(60000)), same(&kids)],
            _ => vec![same(&kids)],
        }
    }
    let mut list = Vec::new();
    for shape in shapes {
        for kinds in [u16::MAX, 5] {
            let a = full(shape, &mut 0, kinds);
            let ch = a.children();
            // first, middle and last path down the tree
            let mut nodes = vec![];
            for which in 0..3 {
                let mut x = 0;
                loop {
                    let k = &ch[x];
                    if k.is_empty() {
                        break;
                    }
                    x = k[[0, k.len() / 2, k.len() - 1][which]];
                    nodes.push(x);
                }
            }
            nodes.sort();
            nodes.dedup();
            for &x in &nodes {
                for edit in 0..4 {
                    let b = edited(&a, &ch, 0, x, edit).pop().unwrap();
                    list.push((a.clone(), b.clone()));
                    list.push((b, a.clone()));
                }
            }
        }
    }
    listed("bushy", format!("full trees of the shapes {shapes:?}, leaves distinct or of 5 kinds: delete/wrap/unwrap/insert at the first, middle and last node of every level"), list)
}

/// A spine of depth d with `side` leaves per level; `bottom` is the innermost text.
pub fn spine(d: usize, side: &dyn Fn(usize) -> Vec<Spec>, bottom: Option<u16>) -> Spec {
    let mut cur = match bottom {
        Some(t) => Spec::leaf(tx(t)),
        None => Spec::leaf(el(9)),
    };
    for l in (0..d).rev() {
        let mut kids = vec![cur];
        kids.extend(side(l));
        cur = Spec::nest(el(0), &kids);
    }
    if d == 0 { Spec::nest(el(0), &[cur]) } else { cur }
}

pub fn deep(max: usize) -> Space {
    let mut list = Vec::new();
    // far deeper, changed at the bottom only
    for d in [63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300] {
        for side in [&|_: usize| vec![] as Vec<Spec>, &|l: usize| vec![Spec::leaf(tx(500 + l as u16))] as Vec<Spec>] as [&dyn Fn(usize) -> Vec<Spec>; 2] {
            let a = spine(d, side, Some(0));
            for b in [spine(d, side, Some(1)), spine(d, side, None), spine(d + 1, side, Some(0)), spine(d - 1, side, Some(0))] {
                list.push((a.clone(), b.clone()));
                list.push((b, a.clone()));
            }
        }
    }
    for d in 1..=max {
        let plain = |_: usize| vec![];
        let leafy = |l: usize| vec![Spec::leaf(tx(500 + l as u16))];
        for (k, side) in [&plain as &dyn Fn(usize) -> Vec<Spec>, &leafy].into_iter().enumerate() {
            let a = spine(d, side, Some(0));
            // text changed at the bottom, element instead of text, one deeper, one shallower
            list.push((a.clone(), spine(d, side, Some(1))));
            list.push((a.clone(), spine(d, side, None)));
            list.push((a.clone(), spine(d + 1, side, Some(0))));
            list.push((a.clone(), spine(d - 1, side, Some(0))));
            list.push((spine(d + 3, side, Some(0)), a.clone()));
            for l in 0..d {
                // a leaf added, removed or changed at level l
                let add = move |x: usize| {
                    let mut v = if k == 1 { vec![Spec::leaf(tx(500 + x as u16))] } else { vec![] };
                    if x == l {
                        v.push(Spec::leaf(tx(900)));
                    }
                    v
                };
                let b = spine(d, &add, Some(0));
                list.push((a.clone(), b.clone()));
                list.push((b, a.clone()));
                let chg = move |x: usize| {
                    if x == l {
                        vec![Spec::leaf(elp(1, &[(0, 0)]))]
                    } else if k == 1 {
                        vec![Spec::leaf(tx(500 + x as u16))]
                    } else {
                        vec![]
                    }
                };
                let b = spine(d, &chg, Some(0));
                list.push((a.clone(), b.clone()));
                let chg2 = move |x: usize| {
                    if x == l {
                        vec![Spec::leaf(elp(1, &[(0, 1)]))]
                    } else if k == 1 {
                        vec![Spec::leaf(tx(500 + x as u16))]
                    } else {
                        vec![]
                    }
                };
                list.push((b, spine(d, &chg2, Some(0))));
            }
        }
    }
    listed("deep", format!("spines of depth 1..={max} and around 64, 128, 256, with and without a leaf per level: text/kind change at the bottom, one level more or fewer, a leaf added/removed/changed at every level"), list)
}

// ------------------------------------------------------------------- edits

#[derive(Clone, Debug)]
pub enum Edit {
    Delete(usize),
    InsertLeaf(usize, usize, u8),
    Move(usize, usize, usize),
    Relabel(usize, u8),
    Retext(usize, u16),
    Reprop(usize, u8),
    Wrap(usize),
    Unwrap(usize),
    Copy(usize, usize, usize),
}

pub fn apply_edit(s: &Spec, e: &Edit) -> Option<Spec> {
    let mut ch = s.children();
    let mut node = s.node.clone();
    let pos = s.positions();
    let ends = s.ends();
    match *e {
        Edit::Delete(i) => {
            if i == 0 {
                return None;
            }
            ch[s.parent[i]].remove(pos[i]);
        }
        Edit::InsertLeaf(p, at, what) => {
            if node[p].text.is_some() || at > ch[p].len() {
                return None;
            }
            let id = node.len();
            node.push(match what {
                0 => tx(700),
                1 => el(50),
                _ => elp(1, &[(0, 77)]),
            });
            ch.push(vec![]);
            ch[p].insert(at, id);
        }
        Edit::Move(i, p, at) => {
            if i == 0 || (i <= p && p < ends[i]) || node[p].text.is_some() {
                return None;
            }
            ch[s.parent[i]].remove(pos[i]);
            if at > ch[p].len() || (p == s.parent[i] && at == pos[i]) {
                return None;
            }
            ch[p].insert(at, i);
        }
        Edit::Relabel(i, k) => {
            if node[i].text.is_some() || node[i].kind == k {
                return None;
            }
            node[i].kind = k;
        }
        Edit::Retext(i, t) => {
            if node[i].text.is_none() || node[i].text == Some(t) {
                return None;
            }
            node[i].text = Some(t);
        }
        Edit::Reprop(i, how) => {
            if node[i].text.is_some() && node[i].kind == 100 {
                return None;
            }
            let p = &mut node[i].props.0;
            match how {
                0 => p.push((9, 1)),
                1 => {
                    if p.is_empty() {
                        return None;
                    }
                    p[0].1 += 1;
                }
                2 => {
                    if p.is_empty() {
                        return None;
                    }
                    p.remove(0);
                }
                _ => {
                    if p.len() < 2 {
                        return None;
                    }
                    p.reverse();
                }
            }
        }
        Edit::Wrap(i) => {
            if i == 0 {
                return None;
            }
            let id = node.len();
            node.push(el(60));
            ch.push(vec![i]);
            ch[s.parent[i]][pos[i]] = id;
        }
        Edit::Unwrap(i) => {
            if i == 0 || ch[i].is_empty() {
                return None;
            }
            let kids = ch[i].clone();
            let p = s.parent[i];
            ch[p].splice(pos[i]..=pos[i], kids);
        }
        Edit::Copy(i, p, at) => {
            if i == 0 || node[p].text.is_some() || at > ch[p].len() {
                return None;
            }
            // deep copy of subtree i
            fn cp(i: usize, ch: &mut Vec<Vec<usize>>, node: &mut Vec<N>) -> usize {
                let kids: Vec<usize> = ch[i].clone();
                let id = node.len();
                let n = node[i].clone();
                node.push(n);
                ch.push(vec![]);
                let nk: Vec<usize> = kids.into_iter().map(|k| cp(k, ch, node)).collect();
                ch[id] = nk;
                id
            }
            let id = cp(i, &mut ch, &mut node);
            ch[p].insert(at, id);
        }
    }
    Some(Spec::from_children(0, &ch, &node))
}

pub fn all_edits(s: &Spec) -> Vec<Edit> {
    let n = s.len();
    let ch = s.children();
    let mut v = Vec::new();
    for i in 0..n {
        v.push(Edit::Retext(i, 800));
        for h in 0..4 {
            v.push(Edit::Reprop(i, h));
        }
        v.push(Edit::Relabel(i, 51));
        v.push(Edit::Delete(i));
        v.push(Edit::Wrap(i));
        v.push(Edit::Unwrap(i));
        for at in 0..=ch[i].len() {
            for w in 0..3 {
                v.push(Edit::InsertLeaf(i, at, w));
            }
        }
    }
    for i in 1..n {
        for p in 0..n {
            for at in 0..=ch[p].len() {
                v.push(Edit::Move(i, p, at));
                if p == s.parent[i] || p == 0 {
                    v.push(Edit::Copy(i, p, at));
                }
            }
        }
    }
    v.retain(|e| apply_edit(s, e).is_some());
    v
}

fn t(i: u16) -> Spec {
    Spec::leaf(tx(i))
}

/// Base documents for edit spaces: (name, tree).
pub fn bases() -> Vec<Spec> {
    let li = |i: u16| Spec::nest(el(3), &[t(i)]);
    let p = |i: u16| Spec::nest(el(2), &[t(i)]);
    vec![
        // small page: heading, paragraph with inline, list
        Spec::nest(
            el(0),
            &[
                Spec::nest(elp(1, &[(0, 1)]), &[t(1)]),
                Spec::nest(el(2), &[t(2), Spec::nest(el(5), &[t(3)]), t(4)]),
                Spec::nest(elp(4, &[(0, 2), (1, 3)]), &[li(5), li(6), li(7)]),
            ],
        ),
        // repeated content
        Spec::nest(el(0), &[p(1), p(1), Spec::nest(el(4), &[li(1), li(1), li(2)]), p(1), Spec::leaf(el(6))]),
        // table
        Spec::nest(
            el(0),
            &(0..3u16)
                .map(|r| Spec::nest(el(1), &(0..3u16).map(|c| Spec::nest(elp(2, &[(0, c as u8)]), &[t(10 * r + c)])).collect::<Vec<_>>()))
                .collect::<Vec<_>>(),
        ),
        // deep and narrow
        spine(6, &|l| if l % 2 == 0 { vec![Spec::leaf(tx(50 + l as u16))] } else { vec![] }, Some(1)),
        // identical nested wrappers (same kind everywhere)
        Spec::nest(
            el(1),
            &[
                Spec::nest(el(1), &[Spec::nest(el(1), &[t(1)]), Spec::nest(el(1), &[])]),
                Spec::nest(el(1), &[Spec::nest(el(1), &[t(2)])]),
                Spec::leaf(el(1)),
            ],
        ),
        // text soup with empty elements
        Spec::nest(el(0), &[t(1), Spec::leaf(el(6)), t(2), Spec::leaf(el(6)), t(1), Spec::nest(el(5), &[t(2), t(1)])]),
        // inner nodes with texts
        Spec::nest(
            el(0),
            &[
                Spec::nest(txp(1, &[(0, 1), (1, 1)]), &[t(2), Spec::nest(el(5), &[t(3)])]),
                Spec::nest(txp(4, &[]), &[Spec::leaf(txp(5, &[(0, 2)])), Spec::leaf(el(6))]),
                Spec::leaf(txp(1, &[(0, 1), (1, 2)])),
            ],
        ),
    ]
}

/// All single edits of every base document, forwards and backwards.
pub fn edit1(extra_big: bool) -> Space {
    let mut list = Vec::new();
    let mut bs = bases();
    if extra_big {
        bs.push(big_base(false));
    }
    for s in bs {
        for e in all_edits(&s) {
            let b = apply_edit(&s, &e).unwrap();
            list.push((s.clone(), b.clone()));
            list.push((b, s.clone()));
        }
    }
    listed("edit1", "every single edit (delete, insert, move anywhere, copy, wrap, unwrap, relabel, text, property) of 7-8 base documents, forwards and backwards".into(), list)
}

/// Six sections; with `distinct`, no two leaves are alike.
pub fn big_base(distinct: bool) -> Spec {
    Spec::nest(
        el(0),
        &(0..6u16)
            .map(|s| {
                Spec::nest(
                    elp(1, &[(0, s as u8)]),
                    &[
                        Spec::nest(el(2), &[t(100 * s + 1)]),
                        Spec::nest(el(3), &[t(100 * s + 2), Spec::nest(el(5), &[t(100 * s + 3)]), t(100 * s + 4)]),
                        Spec::leaf(el(if distinct { 6 + s as u8 } else { 6 })),
                    ],
                )
            })
            .collect::<Vec<_>>(),
    )
}

/// All ordered pairs of edits of the chosen bases.
pub fn edit2(which: &[usize]) -> Space {
    let mut jobs = Vec::new();
    let bs = bases();
    let mut total = 0u64;
    for &w in which {
        let s = &bs[w];
        for e in all_edits(s) {
            let b = apply_edit(s, &e).unwrap();
            let es = all_edits(&b).len() as u64;
            jobs.push((total, w, b));
            total += es;
        }
    }
    let jobs = Arc::new(jobs);
    let bs = Arc::new(bs);
    Space {
        name: "edit2",
        bound: format!("every ordered pair of edits of {} base documents", which.len()),
        size: total,
        get: Box::new(move |i| {
            let k = jobs.partition_point(|j| j.0 <= i) - 1;
            let (off, w, b) = &jobs[k];
            // neighbouring cases share the list of second edits
            thread_local! {
                static LAST: std::cell::RefCell<(usize, usize, Vec<Edit>)> = const { std::cell::RefCell::new((0, 0, Vec::new())) };
            }
            let id = Arc::as_ptr(&jobs) as usize;
            LAST.with_borrow_mut(|l| {
                if l.0 != id || l.1 != k {
                    *l = (id, k, all_edits(b));
                }
                (bs[*w].clone(), apply_edit(b, &l.2[(i - off) as usize]).unwrap())
            })
        }),
    }
}

/// One node with many properties.
pub fn many_props(max: usize) -> Space {
    let mut list = Vec::new();
    for n in 0..=max {
        let base: Vec<(u8, u8)> = (0..n as u8).map(|i| (i, i % 3)).collect();
        let mut outs: Vec<Vec<(u8, u8)>> = vec![base.clone()];
        for i in 0..n {
            let mut v = base.clone();
            v.remove(i);
            outs.push(v);
            let mut v = base.clone();
            v[i].1 += 1;
            outs.push(v);
            let mut v = base.clone();
            v[i].0 = 100;
            outs.push(v);
            for j in 0..n {
                let mut v = base.clone();
                v[i].1 += 1;
                if i != j {
                    v.remove(j);
                }
                outs.push(v);
                let mut v = base.clone();
                v.swap(i, j);
                outs.push(v.clone());
                v[i].1 = 200;
                outs.push(v);
            }
            let mut v = base.clone();
            v.insert(i, (101, 0));
            outs.push(v);
            let mut v = base.clone();
            v.rotate_left(i);
            outs.push(v);
            outs.push(base[..i].to_vec());
        }
        let mut v = base.clone();
        v.push((102, 1));
        outs.push(v);
        for o in outs {
            // on a leaf, on a node with a child, and on the root
            for place in 0..3 {
                let mk = |p: &[(u8, u8)]| match place {
                    0 => Spec::nest(el(0), &[Spec::leaf(elp(1, p)), t(1)]),
                    1 => Spec::nest(el(0), &[t(1), Spec::nest(elp(1, p), &[t(2)])]),
                    _ => Spec::nest(elp(0, p), &[t(1)]),
                };
                list.push((mk(&base), mk(&o)));
                list.push((mk(&o), mk(&base)));
            }
        }
    }
    listed("manyprops", format!("a leaf, an inner node or the root with 0..={max} properties: remove/change/rename/insert/swap/rotate/truncate at every index and index pair"), list)
}

/// Pairs that were hard to get right.
pub fn hard() -> Space {
    let d = |k: &[Spec]| Spec::nest(el(1), k);
    let ul = || Spec::nest(el(3), &[t(0), Spec::nest(el(4), &[t(0)])]);
    let mut list = vec![];
    let a = Spec::nest(el(0), &[t(0), d(&[d(&[d(&[Spec::nest(elp(1, &[(0, 1)]), &[t(0), d(&[d(&[Spec::leaf(el(2)), ul()]), t(0)])])])])])]);
    let b = Spec::nest(el(0), &[d(&[t(0), d(&[d(&[d(&[d(&[t(0), Spec::nest(elp(1, &[(0, 2)]), &[ul()])])])]), t(0)])])]);
    list.push((a, b));
    listed("hard", "pairs that were hard to get right".into(), list)
}

/// Two levels with more nodes than 16 bits count: an edit at the far end.
pub fn vast(rows: usize, leaves: usize) -> Space {
    let row = |r: usize, skip: usize, add: usize| {
        let mut k: Vec<Spec> = (0..leaves).filter(|l| *l != skip).map(|l| Spec::leaf(tx(((r * leaves + l) % 50_021) as u16))).collect();
        k.extend((0..add).map(|n| Spec::leaf(tx(60_000 + n as u16))));
        Spec::nest(el(1), &k)
    };
    let none = usize::MAX;
    let all = || (0..rows).map(|r| row(r, none, 0)).collect::<Vec<_>>();
    let base = Spec::nest(el(0), &all());
    let mut list = vec![];
    let mut with = |f: &dyn Fn(&mut Vec<Spec>)| {
        let mut k = all();
        f(&mut k);
        list.push((base.clone(), Spec::nest(el(0), &k)));
    };
    with(&|k| *k.last_mut().unwrap() = row(rows - 1, leaves - 1, 0));
    with(&|k| *k.last_mut().unwrap() = row(rows - 1, none, 2));
    with(&|k| {
        let l = k.pop().unwrap();
        k.insert(0, l);
    });
    with(&|k| {
        k.remove(rows / 2);
    });
    listed("vast", format!("trees of {rows} x {leaves} leaves: the last one removed, two added, the last row moved to the front, a row removed"), list)
}

pub fn standard(tier: Tier) -> Vec<Space> {
    match tier {
        Tier::Quick => vec![
            hard(),
            kinds(6),
            texts(5),
            texts2(5),
            props(3),
            opaque_kind(5),
            opaque_flag(5),
            textful(4),
            textful_opaque(3),
            permutations(6),
            lists(5, 4, 5),
            wide(&[8, 9, 16, 17, 33, 64, 65, 130], 9),
            huge(&[257, 515, 1030]),
            bushy(&[&[10, 10, 10], &[3, 3, 3, 3, 3], &[2, 2, 2, 2, 2, 2, 2, 2], &[40, 30]]),
            vast(300, 240),
            deep(40),
            edit1(true),
            edit2(&[0, 1, 2, 3, 4, 5]),
            many_props(12),
        ],
        Tier::Thorough => vec![
            hard(),
            kinds(7),
            texts(6),
            texts2(5),
            props(4),
            opaque_kind(5),
            opaque_flag(5),
            textful(4),
            textful_opaque(3),
            permutations(7),
            lists(5, 4, 6),
            wide(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 128, 129, 130, 257], 33),
            huge(&[257, 300, 515, 1030, 2050]),
            bushy(&[&[10, 10, 10], &[3, 3, 3, 3, 3], &[2, 2, 2, 2, 2, 2, 2, 2, 2], &[40, 30], &[6, 6, 6, 6]]),
            vast(300, 240),
            deep(100),
            edit1(true),
            edit2(&[0, 1, 2, 3, 4, 5]),
            many_props(18),
        ],
    }
}
