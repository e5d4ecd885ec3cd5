//! Real pages: the repository's own fixtures, and every single edit at the
//! nodes of a given size.

use crate::spaces::Space;
use mc_core::{Fail, Family, Obs, Outcome, Tier};
use crate::tree::*;
use std::sync::{Arc, OnceLock};

const DIR: &str = "/repo/hotmeal/tests/fixtures";
/// All fixtures, smallest first.
pub fn files() -> &'static [(String, String)] {
    static F: OnceLock<Vec<(String, String)>> = OnceLock::new();
    F.get_or_init(|| {
        let mut v: Vec<(String, String)> = std::fs::read_dir(DIR)
            .into_iter()
            .flatten()
            .flatten()
            .filter(|e| e.path().extension().is_some_and(|x| x == "html"))
            .filter_map(|e| Some((e.file_name().to_string_lossy().into_owned(), std::fs::read_to_string(e.path()).ok()?)))
            .collect();
        v.sort_by_key(|(n, s)| (s.len(), n.clone()));
        v
    })
}
/// What the reference parser makes of them.
pub fn documents() -> Arc<Vec<D>> {
    static F: OnceLock<Arc<Vec<D>>> = OnceLock::new();
    F.get_or_init(|| Arc::new(files().iter().map(|(_, s)| crate::parse::document(s)).collect())).clone()
}
fn size(t: &T) -> usize {
    match t {
        T::El(e) => 1 + e.kids.iter().map(size).sum::<usize>(),
        _ => 1,
    }
}
fn places(f: &[T], at: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, usize)>) {
    for (i, t) in f.iter().enumerate() {
        at.push(i);
        out.push((at.clone(), size(t)));
        if let T::El(e) = t {
            places(&e.kids, at, out);
        }
        at.pop();
    }
}
pub const EDITS: &[&str] = &["removed", "doubled", "moved to the front", "moved to the end of the page", "changed", "wrapped", "replaced by what it contains"];
fn siblings<'t>(f: &'t mut Vec<T>, at: &[usize]) -> &'t mut Vec<T> {
    let mut f = f;
    for i in &at[..at.len() - 1] {
        let T::El(e) = &mut f[*i] else { unreachable!() };
        f = &mut e.kids;
    }
    f
}
/// The page with one node edited.
fn edited(d: &D, at: &[usize], how: usize) -> D {
    let mut d = d.clone();
    let body = d.body.as_mut().unwrap();
    let i = at[at.len() - 1];
    let s = siblings(body, at);
    match how {
        0 => drop(s.remove(i)),
        1 => {
            let t = s[i].clone();
            s.insert(i, t);
        }
        2 => {
            let t = s.remove(i);
            s.insert(0, t);
        }
        3 => {
            let t = s.remove(i);
            body.push(t);
        }
        4 => match &mut s[i] {
            T::Text(t) | T::Comment(t) => t.insert_str(0, "new "),
            T::El(e) => match e.attrs.first_mut() {
                Some(a) => a.1.push('2'),
                None => e.attrs.push(("class".into(), "new".into())),
            },
        },
        5 => {
            let t = s.remove(i);
            s.insert(i, ela("div", &[("id", "wrap")], vec![t]));
        }
        _ => {
            if let T::El(e) = s.remove(i) {
                s.splice(i..i, e.kids);
            }
        }
    }
    d
}
/// Every pair of the smallest `n` pages.
pub fn pairs(n: usize) -> Space {
    let v = documents();
    let n = n.min(v.len()) as u64;
    Space {
        name: "pages".into(),
        bound: format!("all ordered pairs of {n} real pages"),
        size: n * n,
        get: Arc::new(move |i| (v[(i / n) as usize].clone(), v[(i % n) as usize].clone())),
    }
}
/// Every single edit of the smallest `n` pages at the nodes that have at least
/// 1/`part` of the page's nodes below them.
pub fn edits(n: usize, part: usize) -> Space {
    let v = documents();
    let mut l = vec![];
    for (k, d) in v.iter().take(n).enumerate() {
        let Some(b) = &d.body else { continue };
        let mut out = vec![];
        places(b, &mut vec![], &mut out);
        let total = out.len();
        for (at, size) in out {
            if size * part >= total {
                for how in 0..EDITS.len() {
                    l.push((k, at.clone(), how));
                }
            }
        }
    }
    let n = n.min(v.len());
    Space {
        name: "pages-edited".into(),
        bound: format!("{n} real pages, every node that holds at least 1/{part} of the page {EDITS:?}, both directions"),
        size: 2 * l.len() as u64,
        get: Arc::new(move |i| {
            let (k, at, how) = &l[(i / 2) as usize];
            let (a, b) = (v[*k].clone(), edited(&v[*k], at, *how));
            if i % 2 == 0 { (a, b) } else { (b, a) }
        }),
    }
}

fn jobs(d: &D, part: usize) -> Vec<(Vec<usize>, usize)> {
    let mut out = vec![];
    places(d.body.as_deref().unwrap_or(&[]), &mut vec![], &mut out);
    let total = out.len();
    out.iter().filter(|(_, n)| n * part >= total).flat_map(|(at, _)| (0..EDITS.len()).map(move |h| (at.clone(), h))).collect()
}
/// Every sequence of two edits of the smallest `n` pages.
pub fn edits2(n: usize, part: usize) -> Space {
    let v = documents();
    let n = n.min(v.len());
    let mut l = vec![];
    let mut total = 0u64;
    for k in 0..n {
        for (at, how) in jobs(&v[k], part) {
            let b = edited(&v[k], &at, how);
            let m = jobs(&b, part).len() as u64;
            l.push((total, k, b));
            total += m;
        }
    }
    Space {
        name: "pages-edited-twice".into(),
        bound: format!("{n} real pages, every sequence of two edits {EDITS:?} at nodes that hold at least 1/{part} of the page"),
        size: total,
        get: Arc::new(move |i| {
            let (from, k, b) = &l[l.partition_point(|j| j.0 <= i) - 1];
            let (at, how) = jobs(b, part).swap_remove((i - from) as usize);
            (v[*k].clone(), edited(b, &at, how))
        }),
    }
}
/// Every sequence of two edits of a page and back, as a history.
pub fn histories(n: usize, part: usize) -> (String, u64, Arc<dyn Fn(u64) -> Vec<D> + Send + Sync>) {
    let sp = edits2(n, part);
    let v = documents();
    let n = n.min(v.len());
    // the page after the first edit, for every case
    let mut mid = vec![];
    for d in v.iter().take(n) {
        for (at, how) in jobs(d, part) {
            let b = edited(d, &at, how);
            let m = jobs(&b, part).len() as u64;
            mid.push((mid.last().map_or(0, |x: &(u64, u64, D)| x.0 + x.1), m, b));
        }
    }
    let get = sp.get;
    (
        format!("{}, and back to the page", sp.bound),
        sp.size,
        Arc::new(move |i| {
            let b = mid[mid.partition_point(|j| j.0 <= i) - 1].2.clone();
            let (a, c) = get(i);
            vec![a.clone(), b, c, a]
        }),
    )
}
/// A page and some edited ones, as text.
pub fn versions(k: usize, part: usize, each: usize) -> Vec<String> {
    let d = &documents()[k];
    let mut v = vec![crate::tree::build(d).to_html()];
    for (at, how) in jobs(d, part).into_iter().step_by(each) {
        v.push(crate::tree::build(&edited(d, &at, how)).to_html());
    }
    v
}
/// Families of cases on real pages, whose descriptions are cut short.
pub fn families(t: Tier, prefix: &str, big: usize, f: fn(&D, &D, &mut Obs) -> Outcome) -> Vec<Family> {
    [pairs(t.pick(6, 9)), edits(4, t.pick(60, 100_000)), edits(big + t.pick(0, 2), t.pick(8, 30)), edits2(t.pick(3, 4), t.pick(12, 30))]
        .into_iter()
        .enumerate()
        .map(|(k, s)| {
            let (get, get2) = (s.get.clone(), s.get.clone());
            let name = |d: &D| documents().iter().position(|x| x == d).map_or("the edited page".to_string(), |k| files()[k].0.clone());
            Family::new(
                format!("{prefix}{}{}", s.name, if k == 1 { "-small" } else { "" }),
                s.bound.clone(),
                s.size,
                move |i| {
                    let (a, b) = get2(i);
                    let (ta, tb) = (format!("{:?}", a.body), format!("{:?}", b.body));
                    let same = ta.chars().zip(tb.chars()).take_while(|(a, b)| a == b).count();
                    let cut = |s: &str| s.chars().skip(same.saturating_sub(200)).take(500).collect::<String>();
                    format!("{}: ...{}  ==>  {}: ...{}", name(&a), cut(&ta), name(&b), cut(&tb))
                },
                move |i, obs| {
                    let (a, b) = get(i);
                    f(&a, &b, obs).map_err(|e| Fail { key: e.key, msg: e.msg.chars().take(4000).collect() })
                },
            )
        })
        .collect()
}

// ------------------------------------------------------------ not part of any check

fn nth(f: &[T], n: &mut usize) -> Option<T> {
    for t in f {
        if *n == 0 {
            return Some(t.clone());
        }
        *n -= 1;
        if let T::El(e) = t
            && let Some(x) = nth(&e.kids, n)
        {
            return Some(x);
        }
    }
    None
}
/// Without every copy of `x`, or with its contents in its place.
fn without(f: &[T], x: &T, keep: bool) -> Vec<T> {
    f.iter()
        .flat_map(|t| match t {
            T::El(e) if t == x => if keep { without(&e.kids, x, keep) } else { vec![] },
            t if t == x => vec![],
            T::El(e) => vec![T::El(E { kids: without(&e.kids, x, keep), ..e.clone() })],
            t => vec![t.clone()],
        })
        .collect()
}
fn bare(f: &[T], x: &T) -> Vec<T> {
    f.iter()
        .map(|t| match t {
            T::El(e) => T::El(E { attrs: if t == x { vec![] } else { e.attrs.clone() }, kids: bare(&e.kids, x), ..e.clone() }),
            T::Text(_) if t == x => tx("x"),
            t => t.clone(),
        })
        .collect()
}
/// Makes a failing pair of bodies smaller: `mc-hot shrink CHECK FAMILY INDEX`.
pub fn shrink(name: &str, index: u64, judge: fn(&D, &D, &mut Obs) -> Outcome) {
    let sp = [pairs(6), edits(4, 60), edits(8, 8)].into_iter().enumerate().find(|(k, s)| format!("{}{}", s.name, if *k == 1 { "-small" } else { "" }) == name).unwrap().1;
    let (mut a, mut b) = (sp.get)(index);
    a.head.clear();
    b.head.clear();
    let fails = |a: &D, b: &D| match mc_core::guarded(|| judge(a, b, &mut Obs::default())) {
        Ok(Ok(())) => false,
        _ => true,
    };
    assert!(fails(&a, &b));
    loop {
        let before = (a.clone(), b.clone());
        for side in 0..2 {
            let mut n = 0;
            while let Some(x) = nth(if side == 0 { a.body.as_ref() } else { b.body.as_ref() }.unwrap(), &mut { n }) {
                let mut hit = false;
                for how in 0..6 {
                    let g = |f: &Vec<T>| match how % 3 {
                        0 => without(f, &x, false),
                        1 => without(f, &x, true),
                        _ => bare(f, &x),
                    };
                    let (a2, b2) = (D { body: a.body.as_ref().map(g), ..a.clone() }, D { body: b.body.as_ref().map(g), ..b.clone() });
                    let (a2, b2) = match how {
                        0..=2 => (a2, b2),
                        _ if side == 0 => (a2, b.clone()),
                        _ => (a.clone(), b2),
                    };
                    if (a2 != a || b2 != b) && fails(&a2, &b2) {
                        a = a2;
                        b = b2;
                        hit = true;
                        break;
                    }
                }
                if !hit {
                    n += 1;
                }
            }
        }
        eprintln!("{} + {}", a.body.as_ref().unwrap().iter().map(size).sum::<usize>(), b.body.as_ref().unwrap().iter().map(size).sum::<usize>());
        if (a.clone(), b.clone()) == before {
            break;
        }
    }
    println!("{}\n==>\n{}", show_doc(&a), show_doc(&b));
    println!("{:?}", judge(&a, &b, &mut Obs::default()).map_err(|e| e.msg));
}
