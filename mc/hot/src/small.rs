//! H14: one edit gives patches for one place, and the page keeps its nodes.

use crate::diffs::{P, diff_of, show_patches, tally};
use crate::tree::*;
use hotmeal::{Document, NodeId, Patch};
use mc_core::trees::{arrangements, shapes};
use mc_core::{Family, Obs, Outcome, Tier, ensure};
use std::sync::Arc;

/// A node and the old node (in document order) it comes from.
#[derive(Clone)]
struct L {
    n: T,
    from: Option<usize>,
    kids: Vec<L>,
}
fn label(f: &[T], next: &mut usize) -> Vec<L> {
    f.iter()
        .map(|t| {
            let from = Some(*next);
            *next += 1;
            let mut n = t.clone();
            if let T::El(e) = &mut n {
                e.kids.clear();
            }
            L { n, from, kids: label(t.kids(), next) }
        })
        .collect()
}
fn fresh(t: &T) -> L {
    fn clear(l: &mut L) {
        l.from = None;
        l.kids.iter_mut().for_each(clear);
    }
    let mut l = label(std::slice::from_ref(t), &mut 0).pop().unwrap();
    clear(&mut l);
    l
}
fn plain(f: &[L]) -> Vec<T> {
    f.iter()
        .map(|l| {
            let mut n = l.n.clone();
            if let T::El(e) = &mut n {
                e.kids = plain(&l.kids);
            }
            n
        })
        .collect()
}
fn origins(f: &[L], out: &mut Vec<Option<usize>>) {
    for l in f {
        out.push(l.from);
        origins(&l.kids, out);
    }
}
fn list_at<'f>(f: &'f mut Vec<L>, path: &[usize]) -> &'f mut Vec<L> {
    path.iter().fold(f, |l, i| &mut l[*i].kids)
}

#[derive(Clone, Debug)]
enum Due {
    /// exactly one update for each of these nodes: a text (or comment), or the attributes
    Each(Vec<(Vec<usize>, bool)>),
    /// exactly one new text for this node
    Text(Vec<usize>),
    /// exactly one update of this element's attributes
    Props(Vec<usize>),
    /// patches for this child list only, with at most so many nodes inserted
    List(Vec<usize>, usize),
}
struct Case {
    old: Arc<Vec<T>>,
    new: Vec<L>,
    due: Due,
}

fn count(f: &[T]) -> usize {
    f.iter().map(|t| 1 + count(t.kids())).sum()
}
fn news() -> Vec<T> {
    vec![el("x-new", vec![]), el("aside", vec![tx("fresh"), el("x-in", vec![])]), cm("fresh")]
}
fn cases_of(old: Vec<T>, out: &mut Vec<Case>) {
    let base = label(&old, &mut 0);
    let old = Arc::new(old);
    let mut put = |new: Vec<L>, due: Due| out.push(Case { old: old.clone(), new, due });
    for p in paths(&old) {
        let (last, up) = p.split_last().unwrap();
        let node = get(&old, &p).unwrap().clone();
        let mut with = |n: T, due: Due| {
            let mut g = base.clone();
            list_at(&mut g, up)[*last].n = n;
            put(g, due);
        };
        match &node {
            T::Text(s) => {
                with(tx("changed"), Due::Text(p.clone()));
                with(tx(&format!("{s}+")), Due::Text(p.clone()));
                with(tx(" "), Due::Text(p.clone()));
            }
            T::Comment(_) => with(cm("changed"), Due::Text(p.clone())),
            T::El(e) => {
                let mut attrs = |a: Vec<(String, String)>| {
                    with(T::El(E { attrs: a, kids: vec![], ..e.clone() }), Due::Props(p.clone()));
                };
                let n = e.attrs.len();
                for i in 0..n {
                    let mut a = e.attrs.clone();
                    a[i].1.push('+');
                    attrs(a);
                    if n >= 2 {
                        let mut a = e.attrs.clone();
                        a.remove(i);
                        attrs(a);
                        let mut a = e.attrs.clone();
                        a.swap(i, (i + 1) % n);
                        attrs(a);
                    }
                    let mut a = e.attrs.clone();
                    a.insert(i, ("lang".into(), "l".into()));
                    attrs(a);
                }
                if n > 0 {
                    attrs(e.attrs.iter().map(|(k, v)| (k.clone(), format!("{v}'"))).chain([("lang".into(), "l".into())]).collect());
                }
            }
        }
        // delete
        let mut g = base.clone();
        list_at(&mut g, up).remove(*last);
        put(g, Due::List(up.to_vec(), 0));
        // move among the siblings
        let len = if up.is_empty() { old.len() } else { get(&old, up).unwrap().kids().len() };
        for to in (0..len).filter(|to| to != last) {
            let mut g = base.clone();
            let l = list_at(&mut g, up);
            let x = l.remove(*last);
            l.insert(to, x);
            put(g, Due::List(up.to_vec(), 0));
        }
    }
    for l in lists(&old) {
        let len = if l.is_empty() { old.len() } else { get(&old, &l).unwrap().kids().len() };
        for i in 0..=len {
            for n in news() {
                let mut g = base.clone();
                list_at(&mut g, &l).insert(i, fresh(&n));
                put(g, Due::List(l.clone(), count(std::slice::from_ref(&n))));
            }
        }
        // any selection of the children in any order
        if (2..=5).contains(&len) {
            for a in arrangements(len, len) {
                let mut g = base.clone();
                let kids = list_at(&mut g, &l);
                *kids = a.iter().map(|i| kids[*i].clone()).collect();
                put(g, Due::List(l.clone(), 0));
            }
        }
    }
}

/// Every set of 2 or more texts, comments and attribute lists changed at once.
fn several(old: Vec<T>, most: usize, out: &mut Vec<Case>) {
    let base = label(&old, &mut 0);
    let spots: Vec<_> = paths(&old)
        .into_iter()
        .filter(|p| !matches!(get(&old, p).unwrap(), T::El(e) if e.attrs.is_empty()))
        .collect();
    let old = Arc::new(old);
    for set in 0u32..1 << spots.len() {
        if !(2..=most).contains(&(set.count_ones() as usize)) {
            continue;
        }
        for flavour in 0..2 {
            let mut new = base.clone();
            let mut due = vec![];
            for (i, p) in spots.iter().enumerate().filter(|(i, _)| set & 1 << i != 0) {
                let (last, up) = p.split_last().unwrap();
                let n = &mut list_at(&mut new, up)[*last].n;
                match n {
                    T::Text(s) | T::Comment(s) if flavour == 0 => *s = format!("changed {i}"),
                    T::Text(s) | T::Comment(s) => s.push('+'),
                    T::El(e) if flavour == 0 => e.attrs.last_mut().unwrap().1 = format!("changed {i}"),
                    T::El(e) => e.attrs.push(("lang".into(), "l".into())),
                }
                due.push((p.clone(), !matches!(n, T::El(_))));
            }
            out.push(Case { old: old.clone(), new, due: Due::Each(due) });
        }
    }
}

/// Documents without two equal nodes: a shape, filled in one of several ways.
fn fill(parent: &[usize], flavour: usize) -> Vec<T> {
    fn go(at: usize, parent: &[usize], flavour: usize) -> Vec<T> {
        let mut v: Vec<T> = vec![];
        for i in (at + 1..parent.len()).filter(|i| parent[*i] == at) {
            let kids = go(i, parent, flavour);
            let leaf = kids.is_empty();
            let attrs: Vec<(String, String)> = match flavour {
                0 => vec![],
                1 => vec![("class".into(), "c".into())],
                _ => vec![("id".into(), format!("n{i}")), ("class".into(), "c".into())],
            };
            let text_before = matches!(v.last(), Some(T::Text(_)));
            v.push(if leaf && !text_before && (flavour != 1 || i % 2 == 0) {
                T::Text(format!("t{i}"))
            } else {
                let tag = if leaf { format!("x-{i}") } else { "div".to_string() };
                T::El(E { tag, attrs, kids, ns: Ns::Html })
            });
        }
        v
    }
    go(0, parent, flavour)
}
fn pages() -> Vec<Vec<T>> {
    let li = |i: usize| ela("li", &[("class", "item")], vec![tx(&format!("item {i}"))]);
    let cell = |r: usize, c: usize| el("td", vec![tx(&format!("{r},{c}"))]);
    vec![
        vec![
            ela("nav", &[("class", "top"), ("id", "nav")], vec![el("ul", (0..5).map(li).collect())]),
            el("h1", vec![tx("title")]),
            el("p", vec![tx("one "), ela("a", &[("href", "/x"), ("title", "x")], vec![tx("link")]), tx(" two")]),
            cm("note"),
            el("table", vec![el("tbody", (0..3).map(|r| el("tr", (0..3).map(|c| cell(r, c)).collect())).collect())]),
            ela("svg", &[("width", "1")], vec![]),
        ],
        vec![el("ol", (0..9).map(|i| el("li", vec![el("b", vec![tx(&format!("b{i}"))]), tx(&format!("t{i}")), el(&format!("x-{i}"), vec![])])).collect())],
        (0..4).map(|i| ela("section", &[("id", "s"), ("class", "s")], vec![el("h2", vec![tx(&format!("h{i}"))]), el("p", vec![tx(&format!("p{i}"))]), el("div", vec![el("div", vec![tx(&format!("d{i}"))])])])).collect(),
        vec![el("div", vec![el("div", vec![el("div", vec![el("div", vec![tx("deep")]), tx("c")]), tx("b")]), tx("a")])],
    ]
}

/// Nodes of the body in document order, placeholders aside.
fn rust_nodes(doc: &Document) -> Vec<NodeId> {
    fn go(doc: &Document, id: NodeId, out: &mut Vec<NodeId>) {
        for c in id.children(&doc.arena) {
            if read_node(doc, c) != Some(T::Text(String::new())) {
                out.push(c);
                go(doc, c, out);
            }
        }
    }
    let mut out = vec![];
    go(doc, doc.body().expect("body"), &mut out);
    out
}
fn web_nodes() -> Vec<web_sys::Node> {
    fn go(n: &web_sys::Node, out: &mut Vec<web_sys::Node>) {
        let l = n.child_nodes();
        for i in 0..l.length() {
            let c = l.item(i).unwrap();
            if c.node_type() == 3 && c.text_content().is_none_or(|s| s.is_empty()) {
                continue;
            }
            out.push(c.clone());
            go(&c, out);
        }
    }
    let mut out = vec![];
    go(&web_sys::window().unwrap().document().unwrap().body().unwrap(), &mut out);
    out
}

fn path_is(p: &[u32], want: &[usize]) -> bool {
    p.first() == Some(&0) && p[1..].iter().map(|i| *i as usize).eq(want.iter().copied())
}
/// A child of the list, something inside one, or something that came out of it.
fn under(p: &[u32], list: &[usize]) -> bool {
    match p {
        [] => false,
        [slot, ..] if *slot > 0 => true,
        [_, rest @ ..] => rest.len() > list.len() && rest.iter().zip(list).all(|(a, b)| *a as usize == *b),
    }
}
fn judge_patches(p: &[P], due: &Due, changed: bool) -> Outcome {
    match due {
        Due::Each(at) => {
            let hit = |x: &P, (at, text): &(Vec<usize>, bool)| match x {
                Patch::SetText { path, .. } => *text && path_is(&path.0, at),
                Patch::UpdateProps { path, .. } => !*text && path_is(&path.0, at),
                _ => false,
            };
            ensure!(
                p.len() == at.len() && at.iter().all(|a| p.iter().any(|x| hit(x, a))),
                "only {at:?} changed (text: true, attributes: false), but the patches are {}",
                show_patches(p)
            )
        }
        Due::Text(at) => {
            ensure!(
                matches!(p, [Patch::SetText { path, .. }] if path_is(&path.0, at)),
                "one text changed (at {at:?}), but the patches are {}",
                show_patches(p)
            )
        }
        Due::Props(at) => {
            ensure!(
                matches!(p, [Patch::UpdateProps { path, .. }] if path_is(&path.0, at)),
                "the attributes of one element changed (at {at:?}), but the patches are {}",
                show_patches(p)
            )
        }
        Due::List(list, inserts) => {
            ensure!(changed || p.is_empty(), "nothing changed, but the patches are {}", show_patches(p));
            let mut n = 0;
            for x in p {
                let ok = match x {
                    Patch::InsertElement { at, .. } | Patch::InsertText { at, .. } | Patch::InsertComment { at, .. } => {
                        n += 1;
                        under(&at.0.0, list)
                    }
                    Patch::Remove { node } => under(&node.0.0, list),
                    Patch::Move { from, to, .. } => under(&from.0.0, list) && under(&to.0.0, list),
                    _ => false,
                };
                ensure!(ok, "only the children of {list:?} changed, but there is {x:?} among {}", show_patches(p));
            }
            ensure!(n <= *inserts, "{n} inserts, though only {inserts} node(s) are new: {}", show_patches(p));
        }
    }
    Ok(())
}
fn case(c: &Case, obs: &mut Obs) -> Outcome {
    let new = plain(&c.new);
    let (a, b) = (doc((*c.old).clone()), doc(new.clone()));
    let p = diff_of(&a, &b)?;
    tally(&p, obs);
    if !p.is_empty() {
        obs.nontrivial();
    }
    judge_patches(&p, &c.due, a != b)?;
    let mut from = vec![];
    origins(&c.new, &mut from);

    let mut page = build(&a);
    let before = rust_nodes(&page);
    page.apply_patches(p.clone()).map_err(|e| format!("apply failed: {e:?}; {}", show_patches(&p)))?;
    let after = rust_nodes(&page);
    obs.state(show(&new).as_bytes());
    obs.trace();
    ensure!(after.len() == from.len(), "{} nodes instead of {}; patches {}", after.len(), from.len(), show_patches(&p));
    for (k, f) in from.iter().enumerate() {
        if let Some(f) = f {
            ensure!(after[k] == before[*f], "node {k} of the new page is not node {f} of the old one, but a copy or another; patches {}", show_patches(&p));
        }
    }

    web_load(&a);
    let before = web_nodes();
    hotmeal_wasm::apply_patches(&p).map_err(|e| format!("browser: apply failed: {e:?}; {}", show_patches(&p)))?;
    let after = web_nodes();
    ensure!(after.len() == from.len(), "browser: {} nodes instead of {}; patches {}", after.len(), from.len(), show_patches(&p));
    for (k, f) in from.iter().enumerate() {
        if let Some(f) = f {
            ensure!(after[k] == before[*f], "browser: node {k} of the new page is not node {f} of the old one, but a copy or another; patches {}", show_patches(&p));
        }
    }
    Ok(())
}
fn fam(name: String, bound: String, docs: Vec<Vec<T>>, make: impl Fn(Vec<T>, &mut Vec<Case>)) -> Family {
    let mut v = vec![];
    for d in docs {
        make(d, &mut v);
    }
    let v = Arc::new(v);
    let w = v.clone();
    Family::new(
        name,
        bound,
        v.len() as u64,
        move |i| {
            let c = &w[i as usize];
            format!("{}  ==>  {}", show(&c.old), show(&plain(&c.new)))
        },
        move |i, obs| case(&v[i as usize], obs),
    )
}
pub fn h14_families(t: Tier) -> Vec<Family> {
    let n = t.pick(8, 9);
    let mut v = vec![];
    for (fl, what) in ["no attributes", "one attribute, elements and texts as leaves", "two attributes"].iter().enumerate() {
        let docs: Vec<_> = (2..=n).flat_map(shapes).map(|s| fill(&s, fl)).collect();
        let of = format!("every document shape of <= {} nodes without equal nodes, {what}", n - 1);
        v.push(fam(format!("shapes-{fl}"), format!("every single edit of {of}"), docs.clone(), cases_of));
        v.push(fam(format!("several-{fl}"), format!("every set of texts and attributes changed at once in {of}"), docs, |d, out| several(d, 20, out)));
    }
    v.push(fam("pages".into(), "every single edit of larger pages without equal nodes".into(), pages(), cases_of));
    let most = t.pick(2, 3);
    v.push(fam("several-pages".into(), format!("every set of <= {most} texts and attributes changed at once in those pages"), pages(), move |d, out| several(d, most, out)));
    v
}
