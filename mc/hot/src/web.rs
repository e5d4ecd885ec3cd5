//! H05-H07: the browser client against the Rust page and a reference interpreter.

use crate::diffs::{P, diff_of, family, h03b_families, plain_writable, show_patches, tally};
use crate::pages;
use crate::spaces;
use crate::tree::*;
use hotmeal::{AttrPair, InsertContent, NodePath, NodeRef, Patch, PropChange, PropKey, Stem};
use html5ever::LocalName;
use mc_core::{Fail, Family, Obs, Outcome, Tier, ensure};
use std::collections::BTreeMap;
use std::sync::Arc;

// ------------------------------------------------------------------ H05

/// Replaces the contents of every outermost opaque node: what a page's own
/// scripts do with such a region. Returns how many there are.
fn scribble(f: &mut [T], n: &mut usize) {
    for t in f {
        let op = t.is_opaque();
        if let T::El(e) = t {
            if op {
                e.kids = vec![tx(&format!("client state {n}")), ela("canvas", &[("data-n", &n.to_string())], vec![])];
                *n += 1;
            } else {
                scribble(&mut e.kids, n);
            }
        }
    }
}
fn outermost<'t>(f: &'t [T], out: &mut Vec<&'t E>) {
    for t in f {
        if let T::El(e) = t {
            if t.is_opaque() { out.push(e) } else { outermost(&e.kids, out) }
        }
    }
}
/// One outermost opaque node of the page after the patches.
struct Region<'t> {
    path: Vec<usize>,
    now: &'t E,
    want: &'t E,
}
/// Compares the page with the new document outside opaque nodes and collects
/// the opaque nodes.
fn outside<'t>(got: &'t [T], want: &'t [T], at: &mut Vec<usize>, out: &mut Vec<Region<'t>>) -> Outcome {
    let blank = |t: &T| matches!(t, T::Text(s) if s.is_empty());
    let g: Vec<(usize, &T)> = got.iter().enumerate().filter(|(_, t)| !blank(t)).collect();
    let w: Vec<&T> = want.iter().filter(|t| !blank(t)).collect();
    ensure!(g.len() == w.len(), "at {at:?}: {} instead of {}", show(got), show(want));
    for ((i, x), y) in g.iter().zip(&w) {
        match (x, y) {
            (T::El(a), T::El(b)) => {
                ensure!(
                    a.tag == b.tag && a.ns == b.ns && { let (mut p, mut q) = (a.attrs.clone(), b.attrs.clone()); p.sort(); q.sort(); p == q },
                    "at {at:?}: {} instead of {}", show(got), show(want)
                );
                at.push(*i);
                if y.is_opaque() {
                    out.push(Region { path: at.clone(), now: a, want: b });
                } else {
                    outside(&a.kids, &b.kids, at, out)?;
                }
                at.pop();
            }
            _ => ensure!(x == y, "at {at:?}: {} instead of {}", show(got), show(want)),
        }
    }
    Ok(())
}
fn mark_of(e: &E) -> Option<usize> {
    match e.kids.first() {
        Some(T::Text(s)) => s.strip_prefix("client state ")?.parse().ok(),
        _ => None,
    }
}
/// Text content without markup structure: adjacent texts merged.
fn merged(f: &[T]) -> Vec<T> {
    let T::El(e) = &merge_opaque(&[ela("x", &[(OPAQUE, "")], f.to_vec())])[0] else { unreachable!() };
    strip(&e.kids)
}

/// The page shows `a` (with scribbled opaque regions); patches to `b` arrive.
fn opaque_step(a: &D, b: &D, who: &str, obs: &mut Obs) -> Outcome {
    let (Some(fa), Some(fb)) = (&a.body, &b.body) else { return Ok(()) };
    let p = diff_of(a, b)?;
    tally(&p, obs);
    let mut page = a.clone();
    let mut n = 0;
    scribble(page.body.as_mut().unwrap(), &mut n);
    web_load(&page);
    hotmeal_wasm::apply_patches(&p)
        .map_err(|e| format!("{who}: the browser rejects the patches: {e:?}; {}", show_patches(&p)))?;
    let got = web_read();
    let gb = got.body.as_deref().unwrap();
    let fail = |m: String| Fail::from(format!("{who}: {m}\n  page {}\n  patches {}", show(gb), show_patches(&p)));
    let mut regions = vec![];
    outside(gb, fb, &mut vec![], &mut regions).map_err(|e| fail(e.msg))?;
    let mut old = vec![];
    outermost(fa, &mut old);
    let mut used = vec![false; n];
    let mut events = web_sys::events();
    let (new_doc, mut seen) = (build(b), 0u64);
    let body = new_doc.body().unwrap();
    for r in &regions {
        let Some(i) = mark_of(r.now) else {
            if merged(&r.now.kids) != merged(&r.want.kids) {
                return Err(fail(format!("new opaque node at {:?} holds {} instead of {}", r.path, show(&r.now.kids), show(&r.want.kids))));
            }
            obs.seen("opaque node inserted");
            continue;
        };
        let mut fresh = vec![T::El(old[i].clone())];
        scribble(&mut fresh, &mut i.clone());
        if used[i] || r.now.kids != fresh[0].kids() {
            return Err(fail(format!("client state of opaque node {i} damaged: {}", show(&r.now.kids))));
        }
        used[i] = true;
        // Exactly one event for it if its source content changed, none otherwise.
        let mine: Vec<_> = events.iter().position(|e| e.path.ends_with(&r.path) && e.path.len() == r.path.len() + 2).map(|k| events.remove(k)).into_iter().collect();
        let changed = merged(&old[i].kids) != merged(&r.want.kids);
        if changed && mine.is_empty() {
            return Err(fail(format!("no event although the content of the opaque node at {:?} changed from {} to {}", r.path, show(&old[i].kids), show(&r.want.kids))));
        }
        if old[i].kids == r.want.kids && !mine.is_empty() {
            return Err(fail(format!("event although the content of the opaque node at {:?} is unchanged", r.path)));
        }
        for e in mine {
            seen += 1;
            // its place in the new document: the same path, blanks aside
            let mut id = body;
            let mut cur = fb.as_slice();
            for (depth, _) in r.path.iter().enumerate() {
                let k = visible_index(gb, &r.path, depth);
                let real = nth_visible(cur, k);
                id = id.children(&new_doc.arena).nth(real).unwrap();
                cur = cur[real].kids();
            }
            let want = new_doc.serialize_inner_html(id);
            let key = r.want.attrs.iter().find(|(k, _)| k == OPAQUE).map(|(_, v)| v.clone());
            if e.ty != "hotmeal:opaque-changed" || !e.bubbles || e.element != Some(e.target) {
                return Err(fail(format!("odd event {e:?}")));
            }
            if e.content.as_deref() != Some(&want) {
                return Err(fail(format!("event for {:?} carries {:?} instead of {want:?}", r.path, e.content)));
            }
            let own = crate::parse::content(r.want, &markup_in(Some(r.want), &r.want.kids));
            if own == r.want.kids && crate::parse::content(r.want, &want) != own {
                return Err(fail(format!("the content {want:?} in the event for {:?} does not read as {}", r.path, show(&own))));
            }
            if e.key != key {
                return Err(fail(format!("event for {:?} carries key {:?} instead of {key:?}", r.path, e.key)));
            }
        }
    }
    if !events.is_empty() {
        return Err(fail(format!("stray events {events:?}")));
    }
    if seen > 0 {
        obs.nontrivial();
    }
    obs.seen_n("events", seen);
    obs.seen_n("opaque nodes kept", used.iter().filter(|u| **u).count() as u64);
    obs.trace();
    obs.state(format!("{gb:?}").as_bytes());
    Ok(())
}
fn visible_index(f: &[T], path: &[usize], depth: usize) -> usize {
    let list = if depth == 0 { f } else { get(f, &path[..depth]).unwrap().kids() };
    list[..path[depth]].iter().filter(|t| !matches!(t, T::Text(s) if s.is_empty())).count()
}
fn nth_visible(f: &[T], k: usize) -> usize {
    f.iter().enumerate().filter(|(_, t)| !matches!(t, T::Text(s) if s.is_empty())).nth(k).unwrap().0
}
fn h05(a: &D, b: &D, obs: &mut Obs) -> Outcome {
    opaque_step(a, b, "page", obs)
}
pub fn h05_families(t: Tier) -> Vec<Family> {
    let mut v = spaces::special(t);
    v.push(spaces::opaque_pairs(t.pick(3, 4)));
    v.push(spaces::edit2("opaqueedit2", spaces::opaque_bases()[..t.pick(1, 3)].to_vec()));
    v.into_iter().map(|s| family(s, h05)).collect()
}

// ------------------------------------------------------------------ H06

fn without_opaque(p: &[P]) -> Vec<P> {
    p.iter().filter(|x| !matches!(x, Patch::OpaqueChanged { .. })).cloned().collect()
}
pub fn h06(a: &D, b: &D, obs: &mut Obs) -> Outcome {
    if a.body.is_none() || b.body.is_none() {
        return Ok(());
    }
    let p = diff_of(a, b)?;
    tally(&p, obs);
    if !p.is_empty() {
        obs.nontrivial();
    }
    web_load(a);
    let n = hotmeal_wasm::apply_patches(&p)
        .map_err(|e| format!("the browser rejects the patches: {e:?}; {}", show_patches(&p)))?;
    ensure!(n == p.len(), "{n} patches counted, {} sent", p.len());
    let w = web_read();
    let mut doc = build(a);
    doc.apply_patches(without_opaque(&p)).map_err(|e| format!("the Rust page rejects the patches: {e:?}"))?;
    let r = read(&doc);
    same_page(&w, &r, &p)?;
    obs.state(format!("{w:?}").as_bytes());
    obs.trace();
    // The same patches over the wire.
    let bytes = facet_postcard::to_vec(&p).map_err(|e| format!("encoding failed: {e}"))?;
    web_load(a);
    let m = hotmeal_wasm::apply_patches_postcard(&bytes).map_err(|e| format!("from bytes: {e:?}"))?;
    ensure!(m == n && web_read() == w, "patches that came over the wire give {}", show_doc(&web_read()));
    Ok(())
}
fn same_page(w: &D, r: &D, p: &[P]) -> Outcome {
    let (x, y) = (sort_attrs(&strip(w.body.as_deref().unwrap_or(&[]))), sort_attrs(&strip(r.body.as_deref().unwrap_or(&[]))));
    ensure!(x == y, "browser shows {}, Rust page {}; patches {}", show(&x), show(&y), show_patches(p));
    let (mut i, mut j) = (w.body_attrs.clone(), r.body_attrs.clone());
    i.sort();
    j.sort();
    ensure!(i == j, "browser body has {i:?}, Rust page {j:?}; patches {}", show_patches(p));
    ensure!(w.head == r.head, "the head of the page changed");
    Ok(())
}
/// The fuzzer's route: markup in, client-side diff, markup out.
fn h06_markup(a: &D, b: &D, obs: &mut Obs) -> Outcome {
    let (Some(fa), Some(fb)) = (&a.body, &b.body) else { return Ok(()) };
    if !plain_writable(fa) || !plain_writable(fb) {
        return Ok(());
    }
    h06_strings(&markup(fa), &markup(fb), "</body></html>", obs)
}
fn h06_strings(ma: &str, mb: &str, end: &str, obs: &mut Obs) -> Outcome {
    let frame = |m: &str| format!("<html><body>{m}{end}");
    web_sys::reset();
    let e = |e| format!("{e:?}");
    hotmeal_wasm::set_body_inner_html(mb).map_err(e)?;
    let want = hotmeal_wasm::get_body_inner_html().map_err(e)?;
    hotmeal_wasm::set_body_inner_html(ma).map_err(e)?;
    let p = hotmeal_wasm::diff_html_patches(&frame(ma), &frame(mb)).map_err(|e| format!("diff failed: {e:?}"))?;
    let n = hotmeal_wasm::apply_patches(&p).map_err(|e| format!("the browser rejects the patches: {e:?}; {}", show_patches(&p)))?;
    ensure!(n == p.len(), "{n} patches counted, {} sent", p.len());
    let got = hotmeal_wasm::get_body_inner_html().map_err(e)?;
    ensure!(got == want, "the page shows {got} instead of {want}; patches {}", show_patches(&p));
    // ... and as JSON.
    let json = hotmeal_wasm::diff_html(&frame(ma), &frame(mb)).map_err(|e| format!("diff failed: {e:?}"))?;
    hotmeal_wasm::set_body_inner_html(ma).map_err(e)?;
    let m = hotmeal_wasm::apply_patches_json(&json).map_err(|e| format!("patches as JSON rejected: {e:?}"))?;
    let got = hotmeal_wasm::get_body_inner_html().map_err(e)?;
    ensure!(m == n && got == want, "patches as JSON give {got} instead of {want}");
    obs.step(2 * n as u64);
    obs.trace();
    if n > 0 {
        obs.nontrivial();
    }
    Ok(())
}
pub fn h06_families(t: Tier) -> Vec<Family> {
    let mut v: Vec<Family> = spaces::plain(t)
        .into_iter()
        .chain(spaces::special(t))
        .chain(spaces::foreigns(t))
        .map(|s| family(s, h06))
        .collect();
    for mut s in [spaces::mixed(3), spaces::attrs(2), spaces::lists(3, 3), spaces::islands(), spaces::edit1("edit1", spaces::bases()), spaces::inversions(3), spaces::exotics(), spaces::svgattrs(3), spaces::templates(3)] {
        s.name = format!("markup-{}", s.name);
        v.push(family(s, h06_markup));
    }
    for (k, (bound, list)) in spaces::soup_pairs(t.pick(2, 3)).into_iter().enumerate() {
        let n = list.len() as u64;
        let l = list.clone();
        v.push(Family::new(
            format!("markup-soup-{k}"),
            bound,
            n * n,
            move |i| format!("{:?} ==> {:?}", l[(i / n) as usize], l[(i % n) as usize]),
            // without end tags, which an unfinished element would take for content
            move |i, obs| h06_strings(&list[(i / n) as usize], &list[(i % n) as usize], "", obs),
        ));
    }
    v.extend(pages::families(t, "", 8, h06));
    v.extend(pages::families(t, "markup-", 8, h06_markup));
    v.extend(h03b_families(t));
    v.extend(mount_families(t));
    v
}

// Mount points: the page around the mount point is none of hotmeal's business.
fn mount_case(a: &D, b: &D, obs: &mut Obs) -> Outcome {
    let (Some(fa), Some(_)) = (&a.body, &b.body) else { return Ok(()) };
    let p = diff_of(a, b)?;
    tally(&p, obs);
    web_load(a);
    let plain = hotmeal_wasm::apply_patches(&p);
    let want = web_read();
    let want_events: Vec<_> = web_sys::events().into_iter().map(|e| (e.ty, e.content, e.key)).collect();
    let around = |inner: Vec<T>| -> Vec<T> {
        vec![
            ela("header", &[("class", "keep")], vec![tx("head"), el("main", vec![tx("decoy")])]),
            ela("main", &[("id", "app"), ("class", "mount a")], inner),
            ela("main", &[("id", "other")], vec![tx("foot")]),
        ]
    };
    let page = doc(around(fa.clone()));
    let mut body_attrs = want.body_attrs.clone();
    body_attrs.sort();
    for (sel, on_body) in [("#app", false), ("main.mount", false), ("body", true)] {
        if on_body {
            web_load(a);
        } else {
            web_load(&page);
        }
        let r = hotmeal_wasm::apply_patches_on(&p, sel);
        ensure!(r.is_ok() == plain.is_ok(), "{sel}: {r:?}, on the body: {plain:?}");
        let got = web_read();
        let evs: Vec<_> = web_sys::events().into_iter().map(|e| (e.ty, e.content, e.key)).collect();
        ensure!(evs == want_events, "{sel}: events {evs:?} instead of {want_events:?}");
        if on_body {
            ensure!(got == want, "body: {} instead of {}", show_doc(&got), show_doc(&want));
            continue;
        }
        // attributes of the body go to the mount point
        let mut exp = around(want.body.clone().unwrap());
        if let T::El(e) = &mut exp[1] {
            for x in &p {
                if let Patch::UpdateProps { path, changes } = x
                    && path.0.len() == 1
                {
                    let old = std::mem::take(&mut e.attrs);
                    for c in changes {
                        let PropKey::Attr(q) = &c.name else { continue };
                        let n = name_of(q);
                        let v = match &c.value {
                            Some(v) => v.to_string(),
                            None => old.iter().find(|(k, _)| *k == n).map(|(_, v)| v.clone()).unwrap_or_default(),
                        };
                        e.attrs.push((n, v));
                    }
                }
            }
        }
        let g = got.body.clone().unwrap();
        ensure!(sort_attrs(&g) == sort_attrs(&exp), "{sel}: {} instead of {}; patches {}", show(&g), show(&exp), show_patches(&p));
        // and over the wire, in one go
        let bytes = facet_postcard::to_vec(&p).map_err(|e| format!("encoding failed: {e}"))?;
        web_load(&page);
        let r2 = hotmeal_wasm::apply_patches_postcard_on(&bytes, sel);
        ensure!(r2 == r && web_read() == got, "{sel}: over the wire {}", show_doc(&web_read()));
    }
    // A selector that matches nothing leaves everything alone.
    for sel in ["#nothing", "main[", ""] {
        web_load(&page);
        let before = web_read();
        ensure!(hotmeal_wasm::apply_patches_on(&p, sel).is_err(), "{sel:?} accepted");
        ensure!(web_read() == before && web_sys::events().is_empty(), "{sel:?} changed the page");
    }
    obs.trace();
    if !p.is_empty() {
        obs.nontrivial();
    }
    Ok(())
}
fn mount_families(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    for mut s in [spaces::mixed(t.pick(2, 3)), spaces::attrs(t.pick(1, 2)), spaces::lists(3, 3), spaces::opaque(t.pick(2, 3), false), spaces::frames()] {
        s.name = format!("mount-{}", s.name);
        v.push(family(s, mount_case));
    }
    v
}

// ------------------------------------------------------------------ H07

/// Reference semantics of a patch list on a body and its slots.
#[derive(Clone, Debug, PartialEq)]
struct Page {
    body: E,
    slots: BTreeMap<u32, T>,
    /// The Rust page holds the new content of opaque nodes; the browser leaves
    /// that to the listeners.
    fills_opaque: bool,
}
#[derive(Debug, PartialEq)]
enum No {
    /// the patch list is not valid here
    Bad,
    /// the documentation leaves open what happens
    Open,
}
type R<X> = Result<X, No>;

fn step_in<'t>(t: &'t mut T, path: &[u32]) -> R<&'t mut T> {
    let mut cur = t;
    for i in path {
        cur = match cur {
            T::El(e) => e.kids.get_mut(*i as usize).ok_or(No::Bad)?,
            _ => return Err(No::Bad),
        };
    }
    Ok(cur)
}
impl Page {
    /// The node at a path of at least two elements, or a slot's root.
    fn at(&mut self, path: &[u32]) -> R<&mut T> {
        let (slot, rest) = path.split_first().ok_or(No::Bad)?;
        if *slot == 0 {
            let (i, rest) = rest.split_first().ok_or(No::Open)?;
            step_in(self.body.kids.get_mut(*i as usize).ok_or(No::Bad)?, rest)
        } else {
            step_in(self.slots.get_mut(slot).ok_or(No::Bad)?, rest)
        }
    }
    fn el(&mut self, path: &[u32]) -> R<&mut E> {
        if path == [0] {
            return Ok(&mut self.body);
        }
        match self.at(path)? {
            T::El(e) => Ok(e),
            _ => Err(No::Bad),
        }
    }
    fn put(&mut self, at: &[u32], t: T, slot: Option<u32>) -> R<()> {
        if at.len() < 2 {
            return Err(No::Bad);
        }
        let pos = at[at.len() - 1] as usize;
        let kids = &mut self.el(&at[..at.len() - 1])?.kids;
        if pos < kids.len() {
            let Some(slot) = slot else { return Err(No::Open) };
            let out = std::mem::replace(&mut kids[pos], t);
            if slot == 0 || self.slots.contains_key(&slot) {
                return Err(No::Open);
            }
            self.slots.insert(slot, out);
        } else {
            while kids.len() < pos {
                kids.push(tx(""));
            }
            kids.push(t);
        }
        Ok(())
    }
    fn apply(&mut self, p: &P) -> R<()> {
        match p {
            Patch::InsertElement { at, tag, attrs, children, detach_to_slot } => {
                let t = content(&InsertContent::Element { tag: tag.clone(), attrs: attrs.clone(), children: children.clone() });
                self.put(&at.0.0, t, *detach_to_slot)
            }
            Patch::InsertText { at, text, detach_to_slot } => self.put(&at.0.0, tx(text), *detach_to_slot),
            Patch::InsertComment { at, text, detach_to_slot } => self.put(&at.0.0, cm(text), *detach_to_slot),
            Patch::Remove { node } => {
                let path = &node.0.0;
                if path.len() == 1 && path[0] > 0 {
                    return self.slots.remove(&path[0]).map(|_| ()).ok_or(No::Open);
                }
                *self.at(path)? = tx("");
                Ok(())
            }
            Patch::SetText { path, text } => match self.at(&path.0)? {
                T::Text(s) | T::Comment(s) => {
                    *s = text.to_string();
                    Ok(())
                }
                T::El(_) => Err(No::Open),
            },
            Patch::SetAttribute { path, name, value } => {
                let a = &mut self.el(&path.0)?.attrs;
                let n = name_of(name);
                match a.iter_mut().find(|(k, _)| *k == n) {
                    Some(x) => x.1 = value.to_string(),
                    None => a.push((n, value.to_string())),
                }
                Ok(())
            }
            Patch::RemoveAttribute { path, name } => {
                let n = name_of(name);
                self.el(&path.0)?.attrs.retain(|(k, _)| *k != n);
                Ok(())
            }
            Patch::Move { from, to, detach_to_slot } => {
                let f = &from.0.0;
                let t = match f.as_slice() {
                    [s] if *s > 0 => self.slots.remove(s).ok_or(No::Bad)?,
                    _ => std::mem::replace(self.at(f)?, tx("")),
                };
                self.put(&to.0.0, t, *detach_to_slot)
            }
            Patch::UpdateProps { path, changes } => {
                if path.0.as_slice() != [0]
                    && let T::Text(s) | T::Comment(s) = self.at(&path.0)?
                {
                    for c in changes {
                        if let (PropKey::Text, Some(v)) = (&c.name, &c.value) {
                            *s = v.to_string();
                        }
                    }
                    return Ok(());
                }
                let e = self.el(&path.0)?;
                let old = std::mem::take(&mut e.attrs);
                for c in changes {
                    match &c.name {
                        PropKey::Text => return Err(No::Open),
                        PropKey::Attr(q) => {
                            let n = name_of(q);
                            let v = match &c.value {
                                Some(v) => v.to_string(),
                                None => old.iter().find(|(k, _)| *k == n).map(|(_, v)| v.clone()).unwrap_or_default(),
                            };
                            e.attrs.push((n, v));
                        }
                    }
                }
                Ok(())
            }
            Patch::OpaqueChanged { path, content } => {
                let fill = self.fills_opaque;
                let e = self.el(&path.0)?;
                if fill {
                    ensure_known(content);
                    e.kids = vec![el("u", vec![tx("o")])];
                }
                Ok(())
            }
        }
    }
}
fn ensure_known(content: &str) {
    assert_eq!(content, "<u>o</u>");
}
fn content(c: &InsertContent<'static>) -> T {
    match c {
        InsertContent::Text(s) => tx(s),
        InsertContent::Comment(s) => cm(s),
        InsertContent::Element { tag, attrs, children } => T::El(E {
            tag: tag.to_string(),
            ns: Ns::Html,
            attrs: attrs.iter().map(|a| (name_of(&a.name), a.value.to_string())).collect(),
            kids: children.iter().map(content).collect(),
        }),
    }
}
fn path(p: &[u32]) -> NodePath {
    NodePath(p.iter().copied().collect())
}
fn attr(k: &str, v: &str) -> AttrPair<'static> {
    AttrPair { name: qual(k), value: Stem::from(v.to_string()) }
}
fn prop(k: &str, v: Option<&str>) -> PropChange<'static> {
    PropChange { name: PropKey::Attr(qual(k)), value: v.map(|v| Stem::from(v.to_string())) }
}
/// Every patch of every kind over the given paths.
fn alphabet(paths: &[&[u32]], slots: &[Option<u32>]) -> Vec<P> {
    let mut v = vec![];
    let st = |s: &str| Stem::from(s.to_string());
    for p in paths {
        for s in slots {
            v.push(Patch::InsertElement {
                at: NodeRef(path(p)),
                tag: LocalName::from("i"),
                attrs: vec![attr("class", "n")],
                children: vec![InsertContent::Text(st("n")), InsertContent::Element { tag: LocalName::from("b"), attrs: vec![], children: vec![InsertContent::Comment(st("m"))] }],
                detach_to_slot: *s,
            });
            v.push(Patch::InsertText { at: NodeRef(path(p)), text: st("new"), detach_to_slot: *s });
            v.push(Patch::InsertComment { at: NodeRef(path(p)), text: st("new"), detach_to_slot: *s });
            for q in paths {
                v.push(Patch::Move { from: NodeRef(path(q)), to: NodeRef(path(p)), detach_to_slot: *s });
            }
        }
        v.push(Patch::Remove { node: NodeRef(path(p)) });
        v.push(Patch::SetText { path: path(p), text: st("set") });
        v.push(Patch::SetAttribute { path: path(p), name: qual("id"), value: st("v") });
        v.push(Patch::SetAttribute { path: path(p), name: qual("xlink:href"), value: st("v") });
        v.push(Patch::RemoveAttribute { path: path(p), name: qual("id") });
        v.push(Patch::UpdateProps { path: path(p), changes: vec![] });
        v.push(Patch::UpdateProps { path: path(p), changes: vec![prop("class", Some("u")), prop("id", None)] });
        v.push(Patch::UpdateProps { path: path(p), changes: vec![PropChange { name: PropKey::Text, value: Some(st("up")) }] });
        v.push(Patch::OpaqueChanged { path: path(p), content: st("<u>o</u>") });
    }
    v
}
fn starts() -> Vec<D> {
    vec![
        doc(vec![]),
        doc(vec![tx("a")]),
        doc(vec![ela("p", &[("id", "1"), ("class", "x")], vec![tx("a"), el("b", vec![])])]),
        doc(vec![el("p", vec![el("b", vec![tx("d")])]), cm("c"), tx("t")]),
        D { body_attrs: vec![("id".into(), "1".into())], ..doc(vec![el("p", vec![]), el("div", vec![tx("x"), tx("y"), el("i", vec![])])]) },
    ]
}
/// Elements with attributes whose names agree in their local part.
fn named() -> Vec<D> {
    let svg = |a: &[(&str, &str)], k: Vec<T>| T::El(E { tag: "svg".into(), ns: Ns::Svg, attrs: a.iter().map(|(n, v)| (n.to_string(), v.to_string())).collect(), kids: k });
    let a = |a: &[(&str, &str)]| T::El(E { tag: "a".into(), ns: Ns::Svg, attrs: a.iter().map(|(n, v)| (n.to_string(), v.to_string())).collect(), kids: vec![] });
    vec![
        doc(vec![svg(&[("href", "1"), ("xlink:href", "2")], vec![])]),
        doc(vec![svg(&[("xlink:href", "2"), ("href", "1"), ("lang", "3"), ("xml:lang", "4")], vec![])]),
        doc(vec![svg(&[], vec![a(&[("href", "1"), ("xlink:href", "2"), ("xlink:title", "5"), ("title", "6")])])]),
        doc(vec![svg(&[("xlink:title", "1"), ("title", "2"), ("xlink:href", "3"), ("href", "4")], vec![a(&[("xlink:href", "5")])])]),
    ]
}
fn name_alphabet() -> Vec<P> {
    let st = |s: &str| Stem::from(s.to_string());
    let names = ["href", "xlink:href", "lang", "xml:lang", "title"];
    let mut v = vec![];
    for p in [&[0, 0][..], &[0, 0, 0]] {
        for n in names {
            v.push(Patch::SetAttribute { path: path(p), name: qual(n), value: st("v") });
            v.push(Patch::RemoveAttribute { path: path(p), name: qual(n) });
            v.push(Patch::UpdateProps { path: path(p), changes: vec![prop(n, None)] });
        }
        v.push(Patch::UpdateProps { path: path(p), changes: vec![prop("xlink:href", Some("u")), prop("href", None)] });
        v.push(Patch::UpdateProps { path: path(p), changes: vec![prop("href", Some("u")), prop("xlink:href", None), prop("title", None)] });
    }
    v
}
/// What the reference says about a patch list, and where it ends.
fn predict(start: &D, ps: &[P], fills_opaque: bool) -> (Page, R<()>) {
    let body = E { tag: "body".into(), attrs: start.body_attrs.clone(), kids: start.body.clone().unwrap(), ..E::default() };
    let mut m = Page { body, slots: BTreeMap::new(), fills_opaque };
    for p in ps {
        if let Err(e) = m.apply(p) {
            return (m, Err(e));
        }
    }
    (m, Ok(()))
}
fn judge(who: &str, m: &Page, verdict: &R<()>, took: Result<(), String>, shows: &D, obs: &mut Obs) -> Outcome {
    match verdict {
        Ok(()) => {
            obs.nontrivial();
            obs.seen("valid");
            ensure!(took.is_ok(), "valid patches, but {who} rejects them: {took:?}");
            ensure!(
                shows.body.as_ref() == Some(&m.body.kids) && shows.body_attrs == m.body.attrs,
                "{who} shows {} instead of {}", show_doc(shows), show(&m.body.kids)
            );
        }
        Err(No::Bad) => {
            obs.seen("invalid");
            ensure!(took.is_err(), "invalid patches, but {who} accepts them and shows {}", show_doc(shows));
        }
        Err(No::Open) => obs.seen("open"),
    }
    Ok(())
}
fn run_patches(start: &D, ps: &[P], obs: &mut Obs) -> Outcome {
    let opaque = ps.iter().filter(|p| matches!(p, Patch::OpaqueChanged { .. })).count();
    let (m, verdict) = predict(start, ps, false);
    obs.step(ps.len() as u64);
    obs.state(format!("{m:?}").as_bytes());
    web_load(start);
    let wr = mc_core::guarded(|| hotmeal_wasm::apply_patches(ps)).map_err(|e| format!("the browser client panics: {e}"))?;
    let took = match &wr {
        Ok(n) if *n == ps.len() => Ok(()),
        Ok(n) => Err(format!("{n} patches applied")),
        Err(e) => Err(format!("{e:?}")),
    };
    judge("the browser client", &m, &verdict, took, &web_read(), obs)?;
    if verdict.is_ok() {
        ensure!(web_sys::events().len() == opaque, "{} events", web_sys::events().len());
    }
    let (m, verdict) = if opaque > 0 { predict(start, ps, true) } else { (m, verdict) };
    let mut rust = build(start);
    let rr = mc_core::guarded(|| rust.apply_patches(ps.to_vec())).map_err(|e| format!("the Rust page panics: {e}"))?;
    judge("the Rust page", &m, &verdict, rr.map_err(|e| e.to_string()), &read(&rust), obs)?;
    obs.trace();
    Ok(())
}
fn sequences(name: &str, starts: Vec<D>, abc: Vec<P>, len: u32) -> Family {
    let (n, s) = (abc.len() as u64, starts.len() as u64);
    let data = Arc::new((starts, abc));
    let d2 = data.clone();
    let pick = move |d: &(Vec<D>, Vec<P>), i: u64| -> (D, Vec<P>) {
        let mut k = i / s;
        let mut ps = vec![];
        for _ in 0..len {
            ps.push(d.1[(k % n) as usize].clone());
            k /= n;
        }
        (d.0[(i % s) as usize].clone(), ps)
    };
    Family::new(
        name,
        format!("{s} pages, all sequences of {len} patches over an alphabet of {n} (every patch kind at every path, valid or not)"),
        s * n.pow(len),
        move |i| {
            let (d, p) = pick(&d2, i);
            format!("{}: {}", show_doc(&d), show_patches(&p))
        },
        move |i, obs| {
            let (d, p) = pick(&data, i);
            run_patches(&d, &p, obs)
        },
    )
}
/// All valid sequences up to `depth`: the reference's valid prefixes are
/// extended with every patch of the alphabet.
fn valid_sequences(name: &str, starts: Vec<D>, abc: Vec<P>, depth: usize) -> Family {
    let (n, s) = (abc.len() as u64, starts.len() as u64);
    let data = Arc::new((starts, abc));
    let d2 = data.clone();
    Family::new(
        name,
        format!("{s} pages, all valid sequences of up to {depth} patches over an alphabet of {n}, and every invalid one-patch extension"),
        s * n * n,
        move |i| format!("{}: {}; then every extension", show_doc(&d2.0[(i % s) as usize]), show_patches(&[d2.1[(i / s % n) as usize].clone(), d2.1[(i / s / n) as usize].clone()])),
        move |i, obs| {
            let start = &data.0[(i % s) as usize];
            let mut ps = vec![data.1[(i / s % n) as usize].clone()];
            if predict(start, &ps, false).1.is_err() && predict(start, &ps, true).1.is_err() {
                return Ok(());
            }
            ps.push(data.1[(i / s / n) as usize].clone());
            extend(start, &mut ps, &data.1, depth, obs)
        },
    )
}
fn extend(start: &D, ps: &mut Vec<P>, abc: &[P], depth: usize, obs: &mut Obs) -> Outcome {
    run_patches(start, ps, obs).map_err(|e| Fail::from(format!("{}: {}", show_patches(ps), e.msg)))?;
    if ps.len() == depth || (predict(start, ps, false).1.is_err() && predict(start, ps, true).1.is_err()) {
        return Ok(());
    }
    for p in abc {
        ps.push(p.clone());
        extend(start, ps, abc, depth, obs)?;
        ps.pop();
    }
    Ok(())
}
const WIDE: &[&[u32]] = &[&[], &[0], &[0, 0], &[0, 1], &[0, 3], &[0, 0, 0], &[0, 0, 1], &[0, 1, 0], &[0, 0, 1, 0], &[0, 0, 0, 0, 0], &[1], &[1, 0], &[1, 1, 0], &[2], &[2, 0], &[7, 0]];
const MID: &[&[u32]] = &[&[0], &[0, 0], &[0, 1], &[0, 0, 0], &[0, 1, 0], &[1], &[1, 0], &[2], &[2, 0]];
const SMALL: &[&[u32]] = &[&[0, 0], &[0, 1], &[0, 0, 0], &[1], &[1, 0]];
pub fn h07_families(t: Tier) -> Vec<Family> {
    let few = || starts()[2..4].to_vec();
    vec![
        sequences("one-patch", starts(), alphabet(WIDE, &[None, Some(1), Some(3)]), 1),
        sequences("two-patches", starts(), alphabet(MID, &[None, Some(1), Some(2)]), 2),
        valid_sequences("slots", few(), alphabet(SMALL, &[None, Some(1)]), t.pick(3, 4)),
        valid_sequences("deep-slots", few(), alphabet(&SMALL[1..], &[Some(1), Some(2)]), t.pick(3, 4)),
        sequences("names-1", named(), name_alphabet(), 1),
        sequences("names-2", named(), name_alphabet(), 2),
        sequences("names-3", named()[..t.pick(2, 4)].to_vec(), name_alphabet(), 3),
        valid_sequences("tiny", starts()[3..4].to_vec(), alphabet(&[&[0, 0], &[0, 0, 0], &[1]], &[None, Some(1)]), t.pick(4, 5)),
    ]
}
