//! Families that are not simple pair spaces.

use crate::model::*;
use crate::oracle::*;
use crate::spaces::{self, all_edits, apply_edit, el, elp, tx, Edit, Space};
use cinereus::indextree::{Arena, NodeId};
use cinereus::{diff_trees, diff_trees_with_matching, generate_edit_script, DiffTree, EditOp, Matching, MatchingConfig, Tree};
use mc_core::trees::{shapes, words};
use mc_core::{ensure, Fail, Family, Obs, Outcome, Tier};
use std::sync::Arc;

fn describe(a: &Spec, b: &Spec) -> String {
    format!("old {} | new {}", a.show(), b.show())
}

// ------------------------------------------------------------ C07 determinism

fn decode_lib(ta: &RT, tb: &RT, ops: &[cinereus::EditOp<HT>]) -> Result<Vec<Op>, Fail> {
    decode(ta, tb, ops)
}

fn same_everywhere(a: &Spec, b: &Spec, cfg: Cfg, obs: &mut Obs) -> Outcome {
    let base = run(a, b, cfg, DEFMODE, false)?;
    let mut modes = vec![
        ("a second run", DEFMODE),
        ("nodes numbered in reverse", Mode::Lib(Numbering::Reversed, Numbering::Fresh)),
        ("new nodes numbered in reverse", Mode::Lib(Numbering::Fresh, Numbering::Reversed)),
        ("numbering with gaps and recycled slots", Mode::Lib(Numbering::Holes, Numbering::Holes)),
    ];
    if a.len() < 300 && b.len() < 300 {
        modes.push(("an independent tree implementation", Mode::Own(0, 0, false)));
        modes.push(("an independent tree implementation, other numbering", Mode::Own(400, 17, false)));
        modes.push(("different implementations on each side", Mode::Mixed));
    }
    for (what, m) in modes {
        let r = run(a, b, cfg, m, false)?;
        obs.step(1);
        ensure!(r.pairs == base.pairs, "{what} gives a different matching: {:?} instead of {:?}", r.pairs, base.pairs);
        ensure!(r.ops == base.ops, "{what} gives a different script: {} instead of {}", show_ops(&r.ops), show_ops(&base.ops));
    }
    for how in 0..6 {
        let r = run_relabelled(a, b, cfg, how)?;
        obs.step(1);
        ensure!(r.pairs == base.pairs, "with other hash values (variant {how}), equal in the same places, the matching differs: {:?} instead of {:?}", r.pairs, base.pairs);
        ensure!(r.ops == base.ops, "with other hash values (variant {how}), equal in the same places, the script differs: {} instead of {}", show_ops(&r.ops), show_ops(&base.ops));
    }
    // the one-call entry points, on the library's own tree type
    let (ha, hb) = (a.hashes(false), b.hashes(false));
    let (ta, tb) = (RT::build(a, &ha, Numbering::Fresh), RT::build(b, &hb, Numbering::Holes));
    let ops = diff_trees::<RT>(&ta, &tb, &cfg.real());
    ensure!(decode_lib(&ta, &tb, &ops)? == base.ops, "the one-call diff gives a different script");
    let (ops, m) = diff_trees_with_matching::<RT>(&ta, &tb, &cfg.real());
    ensure!(decode_lib(&ta, &tb, &ops)? == base.ops, "the diff-with-matching call gives a different script");
    let (pairs, ..) = read_matching(&ta, &tb, &m)?;
    ensure!(pairs == base.pairs, "the diff-with-matching call gives a different matching");
    if [a, b].iter().all(|s| s.node.iter().all(|n| n.text.is_none() && n.props.0.is_empty() && !n.opaque)) {
        let ((sa, ia), (sb, ib)) = (build_simple(a, &ha), build_simple(b, &hb));
        let (ops, m) = diff_trees_with_matching(&sa, &sb, &cfg.real());
        let at = |ids: &[NodeId], x: NodeId| ids.iter().position(|y| *y == x).ok_or_else(|| Fail::from(format!("operation names node {x:?}, which is in no tree")));
        let mut told = Vec::new();
        for op in &ops {
            told.push(match op {
                EditOp::Insert { node_b, parent_b, position, kind } => Op::Ins { b: at(&ib, *node_b)?, pb: at(&ib, *parent_b)?, pos: *position, kind: kind.0 },
                EditOp::Delete { node_a } => Op::Del { a: at(&ia, *node_a)? },
                EditOp::Move { node_a, node_b, new_parent_b, new_position } => Op::Mov { a: at(&ia, *node_a)?, b: at(&ib, *node_b)?, pb: at(&ib, *new_parent_b)?, pos: *new_position },
                EditOp::UpdateProperties { .. } | EditOp::SetText { .. } => return Err(Fail::from("nodes without properties and text are updated".to_string())),
            });
        }
        ensure!(told == base.ops, "nodes that only have a kind give a different script: {} instead of {}", show_ops(&told), show_ops(&base.ops));
        let mut pairs = Vec::new();
        for (x, y) in m.pairs() {
            pairs.push((at(&ia, x)?, at(&ib, y)?));
        }
        let mut want = base.pairs.clone();
        pairs.sort();
        want.sort();
        ensure!(pairs == want, "nodes that only have a kind give a different matching: {pairs:?} instead of {want:?}");
        obs.step(1);
    }
    if !a.has_opaque() && !b.has_opaque() {
        let ops = diff_trees::<Tree<HT>>(&ta.tree, &tb.tree, &cfg.real());
        ensure!(decode_lib(&ta, &tb, &ops)? == base.ops, "diffing the library's trees directly gives a different script");
    }
    obs.trace();
    Ok(())
}

pub fn determinism(tier: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    let sp: Vec<Space> = match tier {
        Tier::Quick => vec![
            spaces::kinds(5),
            spaces::texts(5),
            spaces::texts2(4),
            spaces::props(3),
            spaces::opaque_kind(4),
            spaces::opaque_flag(4),
            spaces::textful(3),
            spaces::textful_opaque(3),
            spaces::permutations(6),
            spaces::lists(4, 4, 4),
            spaces::wide(&[8, 17, 33, 65], 8),
            spaces::huge(&[257]),
            spaces::bushy(&[&[10, 10], &[3, 3, 3, 3], &[2, 2, 2, 2, 2, 2]]),
            spaces::deep(20),
            spaces::edit1(true),
            spaces::edit2(&[4]),
            spaces::many_props(8),
        ],
        Tier::Thorough => vec![
            spaces::kinds(6),
            spaces::texts(5),
            spaces::texts2(5),
            spaces::props(3),
            spaces::opaque_kind(5),
            spaces::opaque_flag(4),
            spaces::textful(3),
            spaces::textful_opaque(3),
            spaces::permutations(7),
            spaces::huge(&[257, 515]),
            spaces::bushy(&[&[10, 10, 10], &[3, 3, 3, 3, 3], &[2, 2, 2, 2, 2, 2, 2]]),
            spaces::lists(4, 4, 5),
            spaces::wide(&[8, 9, 16, 17, 32, 33, 65], 17),
            spaces::deep(40),
            spaces::edit1(true),
            spaces::edit2(&[0, 4]),
            spaces::many_props(12),
        ],
    };
    let mut sp: Vec<(Arc<Space>, Cfg)> = sp.into_iter().map(|s| (Arc::new(s), Cfg::DEF)).collect();
    for s in [spaces::kinds(4), spaces::texts(4), spaces::opaque_kind(3), spaces::lists(3, 3, 4), spaces::edit1(false)] {
        let s = Arc::new(s);
        for (t, mh) in [(0.0, 0), (0.0, 1), (0.3, 0), (0.3, 2), (0.5, 0), (0.8, 1), (1.0, 3)] {
            sp.push((s.clone(), Cfg { t, mh }));
        }
    }
    for (s, cfg) in sp {
        let (s1, s2) = (s.clone(), s.clone());
        let def = cfg.t == Cfg::DEF.t && cfg.mh == Cfg::DEF.mh;
        v.push(Family::new(
            if def { s.name.to_string() } else { format!("{}/t{}h{}", s.name, cfg.t, cfg.mh) },
            format!("{}; threshold {}, min height {}", s.bound, cfg.t, cfg.mh),
            s.size,
            move |i| {
                let (a, b) = (s1.get)(i);
                describe(&a, &b)
            },
            move |i, obs| {
                let (a, b) = (s2.get)(i);
                if a != b {
                    obs.nontrivial();
                }
                obs.state(describe(&a, &b).as_bytes());
                same_everywhere(&a, &b, cfg, obs)
            },
        ));
    }
    v
}

// -------------------------------------------------------------- C11 locality

/// Trees in which every leaf text is distinct and every inner subtree is unique.
fn distinct_bases() -> Vec<Spec> {
    let b = spaces::bases();
    let t = |i: u16| Spec::leaf(tx(i));
    let mut v = vec![b[0].clone(), b[2].clone(), b[3].clone(), b[6].clone(), spaces::big_base(true)];
    // elements only have element children or a single text
    v.push(Spec::nest(
        el(0),
        &(0..5u16).map(|i| Spec::nest(el(1 + (i % 2) as u8), &[Spec::nest(el(3), &[t(i)]), Spec::nest(elp(4, &[(0, i as u8)]), &[t(50 + i)])])).collect::<Vec<_>>(),
    ));
    // elements with 1..=4 properties: without contents, with text, with elements
    let pr = |n: u8, s: u8| (0..n).map(|k| (k, 10 * s + k)).collect::<Vec<_>>();
    let mut kids = Vec::new();
    for n in 1..=4u8 {
        kids.push(Spec::leaf(elp(10 + n, &pr(n, 3 * n))));
        kids.push(Spec::nest(elp(2, &pr(n, 3 * n + 1)), &[t(200 + n as u16)]));
        kids.push(Spec::nest(elp(3, &pr(n, 3 * n + 2)), &[Spec::nest(el(4), &[t(300 + n as u16)]), t(400 + n as u16)]));
    }
    v.push(Spec::nest(el(0), &kids));
    v.push(Spec::nest(el(0), &[Spec::nest(elp(1, &pr(2, 1)), &kids), Spec::nest(elp(1, &pr(2, 2)), &[t(1), t(2), t(3)])]));
    // a deep document with something at every level, and a bushy one
    v.push(spaces::spine(30, &|l| vec![Spec::nest(elp(9, &[(0, l as u8), (1, 1)]), &[t(500 + l as u16)])], Some(1)));
    v.push(Spec::nest(
        el(0),
        &(0..4u16)
            .map(|i| {
                Spec::nest(
                    elp(1, &[(0, i as u8)]),
                    &(0..4u16).map(|j| Spec::nest(elp(2, &[(0, j as u8), (1, i as u8)]), &(0..4u16).map(|k| t(100 * i + 10 * j + k)).collect::<Vec<_>>())).collect::<Vec<_>>(),
                )
            })
            .collect::<Vec<_>>(),
    ));
    // opaque nodes among the others
    let opq = |k: u8, i: u16| Spec::nest(N { opaque: true, ..el(k) }, &[Spec::nest(el(2), &[t(i)]), t(i + 1)]);
    v.push(Spec::nest(
        el(0),
        &[opq(1, 700), Spec::nest(el(2), &[t(1), opq(3, 710), t(2)]), opq(1, 720), Spec::nest(elp(4, &[(0, 1)]), &[opq(3, 730), Spec::nest(el(2), &[t(3)])]), t(4)],
    ));
    // long lists of texts and of small blocks
    v.push(Spec::nest(el(0), &(0..70u16).map(t).collect::<Vec<_>>()));
    v.push(Spec::nest(el(0), &(0..40u16).map(|i| Spec::nest(elp(1, &[(0, i as u8), (1, 1)]), &[t(i), Spec::nest(el(2), &[t(100 + i)])])).collect::<Vec<_>>()));
    v
}

/// Documents with distinct contents that are too large for every edit.
fn large_distinct() -> Vec<Spec> {
    let t = |i: u16| Spec::leaf(tx(i));
    vec![
        Spec::nest(el(0), &(0..300u16).map(t).collect::<Vec<_>>()),
        Spec::nest(el(0), &[Spec::nest(el(1), &(0..260u16).map(|i| Spec::nest(elp(2, &[(0, 1), (1, i as u8)]), &[t(i)])).collect::<Vec<_>>()), t(999)]),
        Spec::nest(
            el(0),
            &(0..18u16).map(|r| Spec::nest(elp(1, &[(0, r as u8)]), &(0..18u16).map(|c| Spec::nest(el(2), &[t(100 + 20 * r + c)])).collect::<Vec<_>>())).collect::<Vec<_>>(),
        ),
        spaces::spine(150, &|l| vec![t(500 + l as u16)], Some(1)),
    ]
}

/// The edits of a large document at the ends, the middle and around powers of two.
fn some_edits(s: &Spec) -> Vec<Edit> {
    let n = s.len();
    let ch = s.children();
    let near = |n: usize| {
        let mut v: Vec<usize> = [0, 1, 2, n / 2]
            .into_iter()
            .chain([16usize, 32, 64, 128, 256].into_iter().flat_map(|p| [p - 1, p, p + 1]))
            .chain([n.saturating_sub(2), n.saturating_sub(1)])
            .filter(|&x| x < n)
            .collect();
        v.sort();
        v.dedup();
        v
    };
    let mut v = Vec::new();
    for i in near(n) {
        v.push(Edit::Retext(i, 800));
        v.extend((0..4).map(|h| Edit::Reprop(i, h)));
        v.push(Edit::Delete(i));
        v.extend(near(ch[i].len() + 1).into_iter().map(|at| Edit::InsertLeaf(i, at, 0)));
        if i > 0 {
            let p = s.parent[i];
            v.extend(near(ch[p].len() + 1).into_iter().map(|at| Edit::Move(i, p, at)));
        }
    }
    v.retain(|e| apply_edit(s, e).is_some());
    v
}

/// All edits with the parent (old numbering) whose child list they touch.
pub fn locality(_tier: Tier) -> Vec<Family> {
    let mut list: Vec<(Spec, Edit, Spec)> = Vec::new();
    let small = distinct_bases();
    let large = large_distinct();
    let (n, nl) = (small.len(), large.len());
    let with: Vec<(Spec, Vec<Edit>)> = small.into_iter().map(|s| (s.clone(), all_edits(&s))).chain(large.into_iter().map(|s| (s.clone(), some_edits(&s)))).collect();
    for (s, edits) in with {
        let inside = s.inside_opaque();
        for e in edits {
            let target = match &e {
                Edit::Retext(i, _) | Edit::Delete(i) | Edit::Reprop(i, _) | Edit::Move(i, ..) => *i,
                Edit::InsertLeaf(p, ..) => *p,
                _ => 0,
            };
            if inside[target] || s.node[target].opaque && matches!(e, Edit::InsertLeaf(..)) {
                continue;
            }
            let keep = match &e {
                Edit::Retext(..) | Edit::Delete(_) | Edit::InsertLeaf(..) => true,
                Edit::Reprop(i, _) => {
                    let b = apply_edit(&s, &e).unwrap();
                    *i != 0 && prop_similarity(&s.node[*i].props, &b.node[*i].props) >= 0.5
                }
                Edit::Move(i, p, _) => *p == s.parent[*i],
                _ => false,
            };
            if keep {
                let b = apply_edit(&s, &e).unwrap();
                list.push((s.clone(), e, b));
            }
        }
    }
    let list = Arc::new(list);
    let mut v = Vec::new();
    for (t, mh, hp) in [
        (0.5, 0usize, false),
        (0.5, 1, false),
        (0.5, 0, true),
        (0.5, 1, true),
        (0.0, 0, false),
        (0.0, 1, false),
        (0.3, 1, false),
        (0.8, 1, false),
        (1.0, 0, false),
        (1.0, 1, false),
    ] {
        let (l1, l2) = (list.clone(), list.clone());
        v.push(Family::new(
            format!("local/t{t}h{mh}{}", if hp { "/hp" } else { "" }),
            format!("every text change, property change, leaf insertion, subtree deletion and reordering move of {n} documents with distinct contents, and the same at the ends, the middle and around powers of two in {nl} large ones; min height {mh}, hash {} properties", if hp { "covers" } else { "ignores" }),
            list.len() as u64,
            move |i| {
                let (a, e, b) = &l1[i as usize];
                format!("{e:?}: {}", describe(a, b))
            },
            move |i, obs| {
                let (a, e, b) = &l2[i as usize];
                obs.nontrivial();
                obs.state(describe(a, b).as_bytes());
                let cfg = Cfg { t, mh };
                let r = run(a, b, cfg, DEFMODE, hp)?;
                obs.step(r.ops.len() as u64);
                obs.trace();
                local(a, e, b, &r).map_err(|x| Fail { key: x.key, msg: format!("{}\nmatched {:?}\nscript {}", x.msg, r.pairs, show_ops(&r.ops)) })
            },
        ));
    }
    v
}

fn local(a: &Spec, e: &Edit, b: &Spec, r: &Run) -> Outcome {
    let ends = a.ends();
    let bends = b.ends();
    match *e {
        Edit::Retext(i, t) => {
            ensure!(r.ops == vec![Op::Txt { a: i, b: i, text: t }], "changing one text must give exactly one text update of node {i}");
        }
        Edit::Reprop(i, _) => {
            let (mut p, mut q) = (a.node[i].props.0.clone(), b.node[i].props.0.clone());
            p.sort();
            q.sort();
            if p == q {
                ensure!(r.ops.is_empty(), "reordering properties must change nothing");
            } else {
                ensure!(
                    r.ops.len() == 1 && matches!(&r.ops[0], Op::Upd { a, b, .. } if *a == i && *b == i),
                    "changing properties of node {i} must give exactly one property update"
                );
            }
        }
        _ => {
            // parent whose child list changed, in both numberings
            let p = match *e {
                Edit::Delete(i) | Edit::Move(i, _, _) => a.parent[i],
                Edit::InsertLeaf(p, _, _) => p,
                _ => unreachable!(),
            };
            // everything up to and including p keeps its pre-order number
            let within_a = |x: usize| match *e {
                Edit::Delete(i) => i <= x && x < ends[i] || (x != 0 && a.parent[x] == p),
                _ => x != 0 && a.parent[x] == p,
            };
            let within_b = |y: usize| y != 0 && b.parent[y] == p;
            let _ = &bends;
            for op in &r.ops {
                let ok = match op {
                    Op::Ins { b, .. } => within_b(*b),
                    Op::Del { a } => within_a(*a),
                    Op::Mov { a, b, .. } | Op::Upd { a, b, .. } | Op::Txt { a, b, .. } => within_a(*a) && within_b(*b),
                };
                ensure!(ok, "{op:?} touches nodes away from the edited child list of node {p}");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------- C12 any matching

/// All kind- and opacity-preserving partial injections that pair the roots and
/// avoid the insides of opaque nodes.
fn matchings(a: &Spec, b: &Spec) -> Vec<Vec<(usize, usize)>> {
    let (ina, inb) = (a.inside_opaque(), b.inside_opaque());
    let mut out = Vec::new();
    fn rec(x: usize, a: &Spec, b: &Spec, ina: &[bool], inb: &[bool], used: &mut Vec<bool>, cur: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
        if x == a.len() {
            out.push(cur.clone());
            return;
        }
        rec(x + 1, a, b, ina, inb, used, cur, out);
        if ina[x] {
            return;
        }
        for y in 1..b.len() {
            if !used[y] && !inb[y] && a.node[x].kind == b.node[y].kind && a.node[x].opaque == b.node[y].opaque {
                used[y] = true;
                cur.push((x, y));
                rec(x + 1, a, b, ina, inb, used, cur, out);
                cur.pop();
                used[y] = false;
            }
        }
    }
    rec(1, a, b, &ina, &inb, &mut vec![false; b.len()], &mut vec![(0, 0)], &mut out);
    out
}

const REGULAR: usize = 7;

/// The nodes of each kind outside opaque nodes, paired in a regular way.
fn regular(a: &Spec, b: &Spec, how: usize) -> Vec<(usize, usize)> {
    let (ina, inb) = (a.inside_opaque(), b.inside_opaque());
    let mut kinds: Vec<(u8, bool)> = (1..a.len()).map(|x| (a.node[x].kind, a.node[x].opaque)).collect();
    kinds.sort();
    kinds.dedup();
    let mut out = vec![(0, 0)];
    for k in kinds {
        let of = |s: &Spec, inside: &[bool]| (1..s.len()).filter(|&x| !inside[x] && (s.node[x].kind, s.node[x].opaque) == k).collect::<Vec<_>>();
        let (xs, mut ys) = (of(a, &ina), of(b, &inb));
        if ys.is_empty() {
            continue;
        }
        match how {
            1 => ys.reverse(),
            2 => ys.rotate_left(1),
            3 => ys = (0..ys.len()).map(|i| if i % 2 == 0 { ys[i / 2] } else { ys[ys.len() - 1 - i / 2] }).collect(),
            4 => ys.chunks_mut(2).for_each(|c| c.reverse()),
            _ => {}
        }
        for (i, (x, y)) in xs.into_iter().zip(ys).enumerate() {
            if how < 5 || how == 5 && i % 2 == 1 {
                out.push((x, y));
            }
        }
    }
    out
}

fn check_matching_script(a: &Spec, b: &Spec, pairs: &[(usize, usize)], obs: &mut Obs) -> Outcome {
    let (ha, hb) = (a.hashes(false), b.hashes(false));
    let ta = RT::build(a, &ha, Numbering::Fresh);
    let tb = RT::build(b, &hb, Numbering::Reversed);
    let mut m = Matching::new();
    let mut a2b = vec![None; a.len()];
    let mut b2a = vec![None; b.len()];
    for &(x, y) in pairs {
        m.add(ta.ids()[x], tb.ids()[y]);
        a2b[x] = Some(y);
        b2a[y] = Some(x);
    }
    let ops = generate_edit_script(&ta, &tb, &m);
    let r = Run { ops: decode(&ta, &tb, &ops)?, pairs: pairs.to_vec(), a2b, b2a };
    let mut all = || -> Outcome {
        replay(a, b, &r, obs)?;
        executable(a, b, &r, obs)?;
        economical(a, b, &r)?;
        updates_complete(a, b, &r)
    };
    all().map_err(|e: Fail| Fail { key: e.key, msg: format!("{}\ngiven matching {pairs:?}\nscript {}", e.msg, show_ops(&r.ops)) })
}

pub fn any_matching(tier: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    for sp in [spaces::kinds(5), spaces::texts(5), spaces::opaque_kind(4), spaces::opaque_flag(4), spaces::props(3), spaces::texts2(4)] {
        let sp = Arc::new(sp);
        let (s1, s2) = (sp.clone(), sp.clone());
        v.push(Family::new(
            sp.name,
            format!("{}; for each, every kind-preserving one-to-one matching that pairs the roots, in two orders", sp.bound),
            sp.size,
            move |i| {
                let (a, b) = (s1.get)(i);
                describe(&a, &b)
            },
            move |i, obs| {
                let (a, b) = (s2.get)(i);
                if a.node[0].kind != b.node[0].kind || a.node[0].opaque != b.node[0].opaque {
                    return Ok(());
                }
                obs.nontrivial();
                for mut m in matchings(&a, &b) {
                    obs.state(format!("{}|{m:?}", describe(&a, &b)).as_bytes());
                    check_matching_script(&a, &b, &m, obs)?;
                    m.reverse();
                    check_matching_script(&a, &b, &m, obs)?;
                }
                Ok(())
            },
        ));
    }
    // larger trees: seven regular matchings of each pair
    let big: Vec<Space> = match tier {
        Tier::Quick => vec![
            spaces::permutations(5),
            spaces::lists(4, 4, 4),
            spaces::wide(&[8, 9, 16, 17, 33, 65, 130], 9),
            spaces::huge(&[257, 515]),
            spaces::bushy(&[&[10, 10], &[3, 3, 3, 3], &[2, 2, 2, 2, 2, 2], &[40, 30]]),
            spaces::deep(24),
            spaces::edit1(true),
            spaces::edit2(&[0, 4]),
            spaces::many_props(12),
        ],
        Tier::Thorough => vec![
            spaces::permutations(7),
            spaces::lists(5, 4, 5),
            spaces::wide(&[8, 9, 16, 17, 32, 33, 64, 65, 130, 257], 17),
            spaces::huge(&[257, 515, 1030]),
            spaces::bushy(&[&[10, 10, 10], &[3, 3, 3, 3, 3], &[2, 2, 2, 2, 2, 2, 2], &[40, 30]]),
            spaces::deep(60),
            spaces::edit1(true),
            spaces::edit2(&[0, 1, 2, 3, 4, 5]),
            spaces::many_props(18),
        ],
    };
    for sp in big {
        let sp = Arc::new(sp);
        let (s1, s2) = (sp.clone(), sp.clone());
        v.push(Family::new(
            format!("{}/regular", sp.name),
            format!("{}; each with {REGULAR} regular matchings: the nodes of each kind paired in order, backwards, shifted, outside in, in swapped couples, every second one, and the roots alone", sp.bound),
            sp.size * REGULAR as u64,
            move |i| {
                let (a, b) = (s1.get)(i / REGULAR as u64);
                format!("matching {}: {}", i % REGULAR as u64, describe(&a, &b))
            },
            move |i, obs| {
                let (a, b) = (s2.get)(i / REGULAR as u64);
                if a.node[0].kind != b.node[0].kind || a.node[0].opaque != b.node[0].opaque {
                    return Ok(());
                }
                obs.nontrivial();
                let m = regular(&a, &b, (i % REGULAR as u64) as usize);
                check_matching_script(&a, &b, &m, obs)
            },
        ));
    }
    // flat lists: every matching of up to 5 distinct children
    let n = tier.pick(5usize, 6);
    let list: Vec<(usize, usize)> = (0..=n).flat_map(|i| (0..=n).map(move |j| (i, j))).collect();
    let l1 = list.clone();
    v.push(Family::new(
        "flat",
        format!("flat lists of up to {n} and {n} siblings, every partial matching"),
        list.len() as u64,
        move |i| format!("{:?}", l1[i as usize]),
        move |i, obs| {
            let (x, y) = list[i as usize];
            let a = Spec::nest(el(0), &vec![Spec::leaf(el(1)); x]);
            let b = Spec::nest(el(0), &vec![Spec::leaf(el(1)); y]);
            obs.nontrivial();
            for m in matchings(&a, &b) {
                obs.state(format!("{}|{m:?}", describe(&a, &b)).as_bytes());
                check_matching_script(&a, &b, &m, obs)?;
            }
            Ok(())
        },
    ));
    v
}

// --------------------------------------------------------------- C13 container

pub fn container(tier: Tier) -> Vec<Family> {
    let mut v = histories(tier);
    v.push(far_container());
    v
}

fn histories(tier: Tier) -> Vec<Family> {
    // histories: all injective sequences of pairs over ids, ids chosen among a
    // small set of (sparse) indices
    let idxs: Vec<usize> = vec![0, 1, 2, 7, 8, 63];
    let depth = tier.pick(4usize, 5);
    let n = idxs.len();
    // enumerate sequences of (a,b) choices; invalid (non-injective) skipped
    let mut seqs: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut frontier = seqs.clone();
    for _ in 0..depth {
        let mut next = Vec::new();
        for s in &frontier {
            for x in 0..n {
                for y in 0..n {
                    if s.iter().all(|&(p, q)| p != x && q != y) {
                        let mut t = s.clone();
                        t.push((x, y));
                        next.push(t);
                    }
                }
            }
        }
        seqs.extend(next.iter().cloned());
        frontier = next;
    }
    let seqs = Arc::new(seqs);
    let mut v = Vec::new();
    for (cname, cap) in [("new", None), ("cap0", Some((0, 0))), ("cap3", Some((3, 2))), ("cap100", Some((100, 100)))] {
        let (s1, s2) = (seqs.clone(), seqs.clone());
        let idxs = idxs.clone();
        v.push(Family::new(
            format!("history/{cname}"),
            format!("every one-to-one sequence of <= {depth} additions over node indices {idxs:?}, container made with capacity {cap:?}; every look-up after every addition"),
            seqs.len() as u64,
            move |i| format!("{:?}", s1[i as usize]),
            move |i, obs| {
                thread_local! {
                    static IDS: Vec<NodeId> = { let mut a: Arena<u8> = Arena::new(); (0..110).map(|_| a.new_node(0)).collect() };
                }
                let s = &s2[i as usize];
                if !s.is_empty() {
                    obs.nontrivial();
                }
                IDS.with(|ids| {
                    let mut m = match cap {
                        None if s.len() % 2 == 0 => Matching::new(),
                        None => Matching::default(),
                        Some((x, y)) => Matching::with_capacity(x, y),
                    };
                    let mut model: Vec<(usize, usize)> = Vec::new();
                    let mut step = 0;
                    loop {
                        obs.state(format!("{model:?}").as_bytes());
                        ensure!(m.len() == model.len(), "after {model:?}: len is {}", m.len());
                        ensure!(m.is_empty() == model.is_empty(), "after {model:?}: is_empty is {}", m.is_empty());
                        let got: Vec<(NodeId, NodeId)> = m.pairs().collect();
                        let want: Vec<(NodeId, NodeId)> = model.iter().map(|&(x, y)| (ids[x], ids[y])).collect();
                        ensure!(got == want, "after {model:?}: pairs are {got:?}");
                        for q in 0..ids.len() {
                            let wb = model.iter().find(|p| p.0 == q).map(|p| ids[p.1]);
                            let wa = model.iter().find(|p| p.1 == q).map(|p| ids[p.0]);
                            ensure!(m.get_b(ids[q]) == wb, "after {model:?}: old {q} looks up to {:?}", m.get_b(ids[q]));
                            ensure!(m.get_a(ids[q]) == wa, "after {model:?}: new {q} looks up to {:?}", m.get_a(ids[q]));
                            ensure!(m.contains_a(ids[q]) == wb.is_some(), "after {model:?}: contains_a({q})");
                            ensure!(m.contains_b(ids[q]) == wa.is_some(), "after {model:?}: contains_b({q})");
                        }
                        if step == s.len() {
                            break;
                        }
                        let (x, y) = (idxs[s[step].0], idxs[s[step].1]);
                        m.add(ids[x], ids[y]);
                        model.push((x, y));
                        obs.step(1);
                        step += 1;
                    }
                    obs.trace();
                    Ok(())
                })
            },
        ));
    }
    v
}

/// Indices around the widths of small integers.
fn far_container() -> Family {
    let idxs: Vec<usize> = vec![1, 255, 256, 257, 65_535, 65_536, 65_537, 65_792];
    let n = idxs.len();
    let mut seqs: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..3 {
        let to = seqs.len();
        for k in from..to {
            for x in 0..n {
                for y in 0..n {
                    if seqs[k].iter().all(|&(p, q)| p != idxs[x] && q != idxs[y]) {
                        let mut t = seqs[k].clone();
                        t.push((idxs[x], idxs[y]));
                        seqs.push(t);
                    }
                }
            }
        }
        from = to;
    }
    let seqs = Arc::new(seqs);
    let s1 = seqs.clone();
    Family::new(
        "history/far",
        format!("every one-to-one sequence of <= 3 additions over node indices {idxs:?}; look-ups of all of them and their aliases at the end"),
        seqs.len() as u64,
        move |i| format!("{:?}", s1[i as usize]),
        move |i, obs| {
            thread_local! {
                static IDS: Vec<NodeId> = { let mut a: Arena<u8> = Arena::new(); (0..65_800).map(|_| a.new_node(0)).collect() };
            }
            let model = &seqs[i as usize];
            obs.nontrivial();
            obs.state(format!("{model:?}").as_bytes());
            IDS.with(|ids| {
                let mut m = Matching::new();
                for &(x, y) in model {
                    m.add(ids[x], ids[y]);
                    obs.step(1);
                }
                ensure!(m.len() == model.len() && m.is_empty() == model.is_empty(), "len is {}", m.len());
                let got: Vec<(NodeId, NodeId)> = m.pairs().collect();
                let want: Vec<(NodeId, NodeId)> = model.iter().map(|&(x, y)| (ids[x], ids[y])).collect();
                ensure!(got == want, "pairs are {got:?}");
                for q in idxs.iter().flat_map(|q| [*q, q & 0xff, q & 0xffff, q - 1, q + 1]) {
                    let wb = model.iter().find(|p| p.0 == q).map(|p| ids[p.1]);
                    let wa = model.iter().find(|p| p.1 == q).map(|p| ids[p.0]);
                    ensure!(m.get_b(ids[q]) == wb && m.contains_a(ids[q]) == wb.is_some(), "old {q} looks up to {:?}", m.get_b(ids[q]));
                    ensure!(m.get_a(ids[q]) == wa && m.contains_b(ids[q]) == wa.is_some(), "new {q} looks up to {:?}", m.get_a(ids[q]));
                }
                obs.trace();
                Ok(())
            })
        },
    )
}

// --------------------------------------------------------------------- C14 tree

/// Compares every navigation answer of `t` with the reference.
fn navigation<T: DiffTree<Types = HT>>(t: &T, s: &Spec, h: &[u64], ids: &[NodeId], count: bool, obs: &mut Obs) -> Outcome {
    let ch = s.children();
    let pos = s.positions();
    let hts = s.heights();
    let ends = s.ends();
    let as_ids = |v: &[usize]| v.iter().map(|&i| ids[i]).collect::<Vec<_>>();
    ensure!(t.root() == ids[0], "root is {:?}", t.root());
    if count {
        ensure!(t.node_count() == s.len(), "node count is {}", t.node_count());
    }
    let it: Vec<NodeId> = t.iter().collect();
    ensure!(it == as_ids(&(0..s.len()).collect::<Vec<_>>()), "iteration visits {it:?}");
    let mut po = Vec::new();
    {
        // iterative post-order of the reference
        let mut st = vec![(0usize, 0usize)];
        while let Some((n, k)) = st.pop() {
            if k < ch[n].len() {
                st.push((n, k + 1));
                st.push((ch[n][k], 0));
            } else {
                po.push(n);
            }
        }
    }
    let got: Vec<NodeId> = t.post_order().collect();
    ensure!(got == as_ids(&po), "post-order visits {got:?}, should be {:?}", as_ids(&po));
    for i in 0..s.len() {
        let id = ids[i];
        let n = &s.node[i];
        ensure!(t.parent(id) == if i == 0 { None } else { Some(ids[s.parent[i]]) }, "node {i}: parent is {:?}", t.parent(id));
        let c: Vec<NodeId> = t.children(id).collect();
        ensure!(c == as_ids(&ch[i]), "node {i}: children are {c:?}");
        ensure!(t.child_count(id) == ch[i].len(), "node {i}: child count is {}", t.child_count(id));
        ensure!(t.position(id) == pos[i], "node {i}: position is {}, should be {}", t.position(id), pos[i]);
        ensure!(t.height(id) == hts[i], "node {i}: height is {}, should be {}", t.height(id), hts[i]);
        let d: Vec<NodeId> = t.descendants(id).collect();
        ensure!(d == as_ids(&(i..ends[i]).collect::<Vec<_>>()), "node {i}: descendants are {d:?}");
        ensure!(t.hash(id).0 == h[i], "node {i}: hash differs");
        ensure!(t.kind(id).0 == n.kind, "node {i}: kind is {}", t.kind(id));
        ensure!(t.properties(id) == &n.props, "node {i}: properties are {:?}", t.properties(id));
        ensure!(t.text(id).map(|x| x.0) == n.text, "node {i}: text is {:?}", t.text(id));
        obs.step(1);
    }
    obs.trace();
    Ok(())
}

fn inherent(t: &Tree<HT>, s: &Spec, h: &[u64], ids: &[NodeId]) -> Outcome {
    let ch = s.children();
    let pos = s.positions();
    let hts = s.heights();
    let ends = s.ends();
    let as_ids = |v: &[usize]| v.iter().map(|&i| ids[i]).collect::<Vec<_>>();
    let it: Vec<NodeId> = t.iter().collect();
    ensure!(it == as_ids(&(0..s.len()).collect::<Vec<_>>()), "iteration visits {it:?}");
    let po: Vec<NodeId> = t.post_order().collect();
    let po2: Vec<NodeId> = DiffTree::post_order(t).collect();
    ensure!(po == po2, "the two post-orders disagree");
    for i in 0..s.len() {
        let id = ids[i];
        let d = t.get(id);
        ensure!(
            d.kind.0 == s.node[i].kind && d.hash.0 == h[i] && d.properties == s.node[i].props && d.text.map(|t| t.0) == s.node[i].text,
            "node {i}: stored data is {:?}",
            d.kind
        );
        ensure!(t.parent(id) == if i == 0 { None } else { Some(ids[s.parent[i]]) }, "node {i}: parent is {:?}", t.parent(id));
        let c: Vec<NodeId> = t.children(id).collect();
        ensure!(c == as_ids(&ch[i]), "node {i}: children are {c:?}");
        ensure!(t.child_count(id) == ch[i].len(), "node {i}: child count is {}", t.child_count(id));
        ensure!(t.position(id) == pos[i], "node {i}: position is {}", t.position(id));
        ensure!(t.height(id) == hts[i], "node {i}: height is {}", t.height(id));
        let d: Vec<NodeId> = t.descendants(id).collect();
        ensure!(d == as_ids(&(i..ends[i]).collect::<Vec<_>>()), "node {i}: descendants are {d:?}");
    }
    Ok(())
}

/// Builds by `add_child` in the order given by `parents` (any earlier node),
/// checking after every step.
fn grow(parents: &[usize], every: bool, obs: &mut Obs) -> Outcome {
    let data = |i: usize| -> N {
        match i % 3 {
            0 => el(i as u8 % 50),
            1 => tx(i as u16),
            _ => elp(2, &[(i as u8, 1)]),
        }
    };
    let mk = |i: usize, h: u64| {
        let n = data(i);
        cinereus::NodeData { hash: cinereus::NodeHash(h), kind: K(n.kind), properties: n.props, text: n.text.map(Txt) }
    };
    // hashes are arbitrary here
    let hh = |i: usize| 1000 + i as u64;
    let mut t: Tree<HT> = Tree::new(mk(0, hh(0)));
    let mut ids = vec![t.root];
    let mut kids: Vec<Vec<usize>> = vec![vec![]];
    for i in 1..=parents.len() {
        if i > 1 || every {
            // reference pre-order over insertion-numbered nodes
            let last = i == parents.len() || every;
            let _ = last;
        }
        let p = parents[i - 1];
        let id = t.add_child(ids[p], mk(i, hh(i)));
        ids.push(id);
        kids.push(vec![]);
        kids[p].push(i);
        if every || i == parents.len() {
            let nodes: Vec<N> = (0..=i).map(data).collect();
            let spec = Spec::from_children(0, &kids, &nodes);
            // order of insertion numbers in pre-order
            let mut order = Vec::new();
            let mut st = vec![0usize];
            while let Some(n) = st.pop() {
                order.push(n);
                st.extend(kids[n].iter().rev());
            }
            let pids: Vec<NodeId> = order.iter().map(|&k| ids[k]).collect();
            let ph: Vec<u64> = order.iter().map(|&k| hh(k)).collect();
            obs.state(spec.show().as_bytes());
            navigation(&t, &spec, &ph, &pids, true, obs)?;
            inherent(&t, &spec, &ph, &pids)?;
        }
    }
    Ok(())
}

pub fn tree_api(tier: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    // every growth history: node k may hang under any earlier node
    let n = tier.pick(8usize, 9);
    let total: u64 = (1..=n as u64).product();
    let dec = move |mut i: u64| -> Vec<usize> {
        let mut p = Vec::new();
        for k in 1..=n as u64 {
            p.push((i % k) as usize);
            i /= k;
        }
        p
    };
    v.push(Family::new(
        "growth",
        format!("every history of {n} additions (each under any existing node), all queries after every addition"),
        total,
        move |i| format!("{:?}", dec(i)),
        move |i, obs| {
            obs.nontrivial();
            grow(&dec(i), true, obs)
        },
    ));
    // long and deep trees
    let mut big: Vec<(String, Vec<usize>)> = Vec::new();
    for n in [10usize, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300] {
        big.push((format!("star {n}"), vec![0; n]));
        big.push((format!("chain {n}"), (0..n).collect()));
        big.push((format!("binary {n}"), (1..=n).map(|i| (i - 1) / 2).collect()));
        big.push((format!("comb {n}"), (1..=n).map(|i| if i % 2 == 1 { i - 1 } else { i.saturating_sub(2) }).collect()));
        big.push((format!("two stars {n}"), (1..=n).map(|i| if i == 1 { 0 } else { i % 2 }).collect()));
    }
    big.push(("300 x 240".into(), (1..=300 * 241).map(|i| if i <= 300 { 0 } else { (i - 301) / 240 + 1 }).collect()));
    big.push(("grown row by row, 300 x 240".into(), (0..300 * 241).map(|i| if i % 241 == 0 { 0 } else { i - i % 241 + 1 }).collect()));
    let big = Arc::new(big);
    let b1 = big.clone();
    v.push(Family::new(
        "large",
        "stars, chains, binary trees, combs and pairs of stars of 10..300 nodes; two levels of 300 x 240",
        big.len() as u64,
        move |i| b1[i as usize].0.clone(),
        move |i, obs| {
            obs.nontrivial();
            grow(&big[i as usize].1, false, obs)
        },
    ));
    // all shapes x numberings, including the trait's default methods
    let list: Vec<Spec> = (1..=tier.pick(8, 9))
        .flat_map(|k| shapes(k).into_iter().map(move |p| Spec { node: (0..k).map(|i| if i % 2 == 0 { elp(1, &[(i as u8, 0)]) } else { tx(i as u16) }).collect(), parent: p }))
        .collect();
    let list = Arc::new(list);
    let l1 = list.clone();
    v.push(Family::new(
        "shapes",
        format!("every ordered tree shape with <= {} nodes, in 3 numberings (recycled slots included), and through the default trait methods", tier.pick(8, 9)),
        list.len() as u64,
        move |i| l1[i as usize].show(),
        move |i, obs| {
            let s = &list[i as usize];
            obs.nontrivial();
            obs.state(s.show().as_bytes());
            let h = s.hashes(true);
            for num in [Numbering::Fresh, Numbering::Reversed, Numbering::Holes] {
                let t = RT::build(s, &h, num);
                navigation(&t.tree, s, &h, &t.ids, num != Numbering::Holes, obs)?;
                inherent(&t.tree, s, &h, &t.ids)?;
            }
            // VT leaves child_count and position to the trait
            let vt = VT::build(s, &h, 3, false);
            navigation(&vt, s, &h, vt.ids(), true, obs)
        },
    ));
    let _ = words;
    let _ = MatchingConfig::default;
    v
}

// -------------------------------------------------------------- C16 shares

/// Old: root [X1, X2?]; new: root [two texts, candidates]. The blocks of the
/// containers are distinct; `place[i]` says where block i goes (0: gone).
struct Shares {
    xs: usize,
    cands: usize,
    per: usize,
}

const SHARE_PROPS: [&[(u8, u8)]; 3] = [&[(0, 0), (1, 0)], &[(0, 0), (1, 1)], &[(0, 1), (1, 1)]];

fn share_block(i: usize) -> Spec {
    Spec::nest(el(3), &[Spec::leaf(tx(i as u16))])
}

fn share_case(s: &Shares, place: &[usize], fresh: &[usize], props: &[usize], deep: bool, back: bool) -> (Spec, Spec) {
    let wrap = |v: Vec<Spec>| {
        if deep {
            Spec::nest(el(0), &[Spec::nest(el(6), &v), Spec::leaf(tx(999))])
        } else {
            Spec::nest(el(0), &v)
        }
    };
    let old = (0..s.xs).map(|x| Spec::nest(elp(1, SHARE_PROPS[0]), &(0..s.per).map(|k| share_block(x * s.per + k)).collect::<Vec<_>>())).collect::<Vec<_>>();
    // leading texts keep every candidate away from the index of a container
    let lead = |n: usize| (0..n).map(|i| Spec::leaf(tx(900 + i as u16))).collect::<Vec<_>>();
    let old = if back { lead(s.cands).into_iter().chain(old).collect() } else { old };
    let mut new: Vec<Spec> = if back { Vec::new() } else { lead(s.xs) };
    for c in 0..s.cands {
        let mut kids: Vec<Spec> = (0..place.len()).filter(|&i| place[i] == c + 1).map(share_block).collect();
        for f in 0..fresh[c] {
            kids.push(Spec::leaf(el(40 + (10 * c + f) as u8)));
        }
        new.push(Spec::nest(elp(1, SHARE_PROPS[props[c]]), &kids));
    }
    (wrap(old), wrap(new))
}

pub fn shares(tier: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    let shapes: &[(usize, usize, usize, usize, bool)] = match tier {
        // containers, candidates, blocks each, fresh nodes <=, props varied
        Tier::Quick => &[(1, 1, 6, 6, true), (1, 2, 4, 3, true), (2, 2, 3, 2, false), (1, 3, 4, 1, false)],
        Tier::Thorough => &[(1, 1, 9, 9, true), (1, 2, 6, 4, true), (2, 2, 4, 3, false), (1, 3, 5, 2, true), (2, 3, 2, 2, true)],
    };
    for &(xs, cands, per, fr, vary) in shapes {
        for t in [0.2, 0.25, 0.4, 0.5, 0.6, 0.75, 0.8, 1.0] {
            for (deep, back) in [(false, false), (true, false), (false, true), (true, true)] {
                if back && tier == Tier::Quick && !(t == 0.4 || t == 0.5 || t == 0.75) {
                    continue;
                }
                let nb = xs * per;
                let np = if vary { 3usize.pow(cands as u32) } else { 1 };
                let (nplace, nfresh) = ((cands as u64 + 1).pow(nb as u32), (fr as u64 + 1).pow(cands as u32));
                let size = nplace * nfresh * np as u64;
                let decode = move |mut i: u64| {
                    let mut digit = |base: u64| {
                        let d = (i % base) as usize;
                        i /= base;
                        d
                    };
                    let place: Vec<usize> = (0..nb).map(|_| digit(cands as u64 + 1)).collect();
                    let fresh: Vec<usize> = (0..cands).map(|_| digit(fr as u64 + 1)).collect();
                    let props: Vec<usize> = (0..cands).map(|_| if vary { digit(3) } else { 0 }).collect();
                    (place, fresh, props)
                };
                let sh = move |i: u64| {
                    let (place, fresh, props) = decode(i);
                    share_case(&Shares { xs, cands, per }, &place, &fresh, &props, deep, back)
                };
                v.push(Family::new(
                    format!("shares/{xs}x{per}-{cands}/t{t}{}{}", if deep { "/deep" } else { "" }, if back { "/back" } else { "" }),
                    format!("{xs} container(s) of {per} blocks, {cands} candidate(s), every distribution of the blocks, 0..={fr} other nodes in each candidate, properties {}; threshold {t}", if vary { "identical, half similar and dissimilar" } else { "identical" }).clone() + if back { "; moved towards the front" } else { "; moved towards the back" },
                    size,
                    move |i| {
                        let (a, b) = sh(i);
                        describe(&a, &b)
                    },
                    move |i, obs| {
                        let (a, b) = sh(i);
                        let (place, fresh, props) = decode(i);
                        obs.nontrivial();
                        obs.state(describe(&a, &b).as_bytes());
                        let cfg = Cfg { t, mh: 1 };
                        let r = run(&a, &b, cfg, DEFMODE, false)?;
                        obs.step(1);
                        obs.trace();
                        // where the containers and the candidates are
                        let top = if deep { 1 } else { 0 };
                        let kids = |s: &Spec| (1..s.len()).filter(|&k| s.parent[k] == top && s.node[k].kind == 1 && k != top).collect::<Vec<_>>();
                        let (ka, kb) = (kids(&a), kids(&b));
                        ensure!(!deep || r.a2b[1] == Some(1), "oracle: the wrapper is not matched");
                        let mut free = vec![true; cands];
                        for x in 0..xs {
                            // identical contents count as unchanged, whatever the share
                            let same = (0..cands).find(|&c| fresh[c] == 0 && (0..place.len()).all(|k| (place[k] == c + 1) == (k / per == x)));
                            let mut best: Option<(usize, f64)> = same.map(|c| (c, 1.0));
                            for c in 0..if same.is_some() { 0 } else { cands } {
                                let sim = prop_similarity(&P(SHARE_PROPS[0].to_vec()), &P(SHARE_PROPS[props[c]].to_vec()));
                                let common = (x * per..(x + 1) * per).filter(|&k| place[k] == c + 1).count();
                                let held = place.iter().filter(|&&q| q == c + 1).count();
                                if !free[c] || sim < t || held + fresh[c] == 0 {
                                    continue;
                                }
                                let share = 2.0 * (2 * common) as f64 / ((1 + 2 * per) + (1 + 2 * held + fresh[c])) as f64;
                                if share >= t && best.is_none_or(|b| share > b.1) {
                                    best = Some((c, share));
                                }
                            }
                            obs.seen(if best.is_some() { "recognised" } else { "not recognised" });
                            if let Some((c, _)) = best {
                                free[c] = false;
                            }
                            let want = best.map(|b| kb[b.0]);
                            ensure!(
                                r.a2b[ka[x]] == want,
                                "container {} (old node {}) should be recognised as {want:?} (share {:?}, threshold {t}), but is matched to {:?}",
                                x + 1,
                                ka[x],
                                best.map(|b| b.1),
                                r.a2b[ka[x]]
                            );
                        }
                        Ok(())
                    },
                ));
            }
        }
    }
    // many candidates, of which two hold a part of the container
    for n in [5usize, 9, 17, 33, 40] {
        for (mode, mh, opq, tag) in [
            (DEFMODE, 1usize, false, ""),
            (DEFMODE, 0, false, "/h0"),
            (Mode::Own(5, 0, true), 1, false, "/level"),
            (Mode::Lib(Numbering::Holes, Numbering::Reversed), 1, false, "/holes"),
            (DEFMODE, 1, true, "/opaque"),
        ] {
            let decode = move |i: u64| {
                let (j, w) = (i / 4, i % 4);
                let (p, q) = ((j as usize) / n, (j as usize) % n);
                (p, q, [(1usize, 2usize), (2, 1), (2, 2), (3, 2)][w as usize])
            };
            // the blocks of the container: the first ones go to candidate p, the next ones to q
            let mk = move |i: u64| {
                let (p, q, (hp, hq)) = decode(i);
                let blocks: Vec<Spec> = (0..7).map(share_block).collect();
                let old = vec![Spec::nest(elp(1, SHARE_PROPS[0]), &blocks)];
                let mut new = vec![Spec::leaf(tx(900))];
                for c in 0..n {
                    let mut kids = Vec::new();
                    if c == p {
                        kids.extend_from_slice(&blocks[..hp]);
                    }
                    if c == q {
                        kids.extend_from_slice(&blocks[hp..hp + hq]);
                    }
                    kids.push(Spec::leaf(el(40 + c as u8)));
                    new.push(Spec::nest(N { opaque: opq && c == p, ..elp(1, SHARE_PROPS[0]) }, &kids));
                }
                (Spec::nest(el(0), &old), Spec::nest(el(0), &new))
            };
            v.push(Family::new(
                format!("shares/among{n}{tag}"),
                format!(
                    "a container of 7 blocks, {n} candidates, any two of which (or one) hold 1 to 5 of the blocks{}; threshold 0.2, min height {mh}",
                    if opq { ", the first of the two opaque" } else { "" }
                ),
                (n * n * 4) as u64,
                move |i| {
                    let (a, b) = mk(i);
                    describe(&a, &b)
                },
                move |i, obs| {
                    let (a, b) = mk(i);
                    let (p, q, (hp, hq)) = decode(i);
                    obs.nontrivial();
                    obs.state(describe(&a, &b).as_bytes());
                    let r = run(&a, &b, Cfg { t: 0.2, mh }, mode, false)?;
                    obs.step(1);
                    obs.trace();
                    let kb: Vec<usize> = (1..b.len()).filter(|&k| b.parent[k] == 0 && b.node[k].kind == 1).collect();
                    let best = if opq {
                        q
                    } else if p == q || hp > hq || hp == hq && p < q {
                        p
                    } else {
                        q
                    };
                    let held = if opq && p == q {
                        0
                    } else if opq {
                        hq
                    } else if p == q {
                        hp + hq
                    } else {
                        hp.max(hq)
                    };
                    let share = 2.0 * (2 * held) as f64 / ((1 + 14) + (1 + 2 * held + 1)) as f64;
                    let want = (share >= 0.2).then_some(kb[best]);
                    obs.seen(if want.is_some() { "recognised" } else { "not recognised" });
                    ensure!(r.a2b[1] == want, "the container should be recognised as {want:?} (share {share}), but is matched to {:?}", r.a2b[1]);
                    Ok(())
                },
            ));
        }
    }
    v
}
