//! S01-S05: the live-reload server.

use crate::diffs::{P, judge};
use crate::spaces;
use crate::tree::*;
use hotmeal::StrTendril;
use hotmeal_server::{LiveReloadEvent, LiveReloadServer, inject_into_head, loader_script};
use mc_core::trees::words;
use mc_core::{Fail, Family, Obs, Outcome, Tier, ensure};
use std::collections::BTreeMap;
use std::sync::Arc;

/// An event, comparable.
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Reload,
    Patches(String, Vec<u8>),
    Head(String),
}
fn ev(e: &LiveReloadEvent) -> Ev {
    match e {
        LiveReloadEvent::Reload => Ev::Reload,
        LiveReloadEvent::Patches { route, patches_blob } => Ev::Patches(route.clone(), patches_blob.clone()),
        LiveReloadEvent::HeadChanged { route } => Ev::Head(route.clone()),
    }
}
fn as_read(html: &str) -> D {
    let t = StrTendril::from(html);
    read(&hotmeal::parse(&t))
}
/// What the patches in an event make of the page that showed `old`.
fn patched(old: &str, blob: &[u8]) -> Result<D, Fail> {
    let p: Vec<P> = facet_postcard::from_slice(blob).map_err(|e| format!("undecodable patches: {e:?}"))?;
    ensure!(!p.is_empty(), "an event without patches");
    let t = StrTendril::from(old);
    let mut d = hotmeal::parse(&t);
    d.apply_patches(p.clone()).map_err(|e| format!("patches rejected: {e:?}"))?;
    Ok(read(&d))
}

// ------------------------------------------------------------------ S01

#[derive(Clone, Copy, Debug, PartialEq)]
enum Call {
    Cache(usize, usize),
    Head(usize, usize),
    Diff(usize, usize),
    Both(usize, usize, usize),
    Remove(usize),
    Clear,
}
const ROUTES: &[&str] = &["/a", "/a/"];
const PAGES: &[&str] = &["<p>a</p>", "<p >a</p>", "<p>b</p><p>a</p>", "", "<html><head><title>t</title></head><body class=\"x\"><p>a</p></body></html>"];
const HEADS: &[&str] = &["", "<link>", "<LINK>"];
#[derive(Clone, Debug, PartialEq)]
enum Answer {
    Before(Option<String>),
    Flag(bool),
    Event(Option<Ev>),
    Nothing,
}
#[derive(Clone, Default)]
struct Model {
    html: BTreeMap<String, String>,
    head: BTreeMap<String, String>,
}
fn same_body(a: &str, b: &str) -> bool {
    let (x, y) = (as_read(a), as_read(b));
    x.body == y.body && x.body_attrs == y.body_attrs
}
impl Model {
    /// The answer; patches are represented by the page they lead to.
    fn call(&mut self, c: Call) -> (Answer, Option<(String, String)>) {
        match c {
            Call::Cache(r, h) => (Answer::Before(self.html.insert(ROUTES[r].into(), PAGES[h].into())), None),
            Call::Head(r, d) => (Answer::Flag(self.head(r, d)), None),
            Call::Diff(r, h) => self.diff(r, h),
            Call::Both(r, h, d) => {
                if self.head(r, d) {
                    self.html.insert(ROUTES[r].into(), PAGES[h].into());
                    (Answer::Event(Some(Ev::Head(ROUTES[r].into()))), None)
                } else {
                    self.diff(r, h)
                }
            }
            Call::Remove(r) => {
                let a = self.html.remove(ROUTES[r]).is_some();
                let b = self.head.remove(ROUTES[r]).is_some();
                (Answer::Flag(a || b), None)
            }
            Call::Clear => {
                *self = Model::default();
                (Answer::Nothing, None)
            }
        }
    }
    fn head(&mut self, r: usize, d: usize) -> bool {
        let old = self.head.insert(ROUTES[r].into(), HEADS[d].into());
        old.as_deref().unwrap_or("") != HEADS[d]
    }
    fn diff(&mut self, r: usize, h: usize) -> (Answer, Option<(String, String)>) {
        let old = self.html.insert(ROUTES[r].into(), PAGES[h].into());
        match old {
            None => (Answer::Event(Some(Ev::Reload)), None),
            Some(o) if same_body(&o, PAGES[h]) => (Answer::Event(None), None),
            Some(o) => (Answer::Event(Some(Ev::Patches(ROUTES[r].into(), vec![]))), Some((o, PAGES[h].into()))),
        }
    }
}
fn real_call(s: &mut LiveReloadServer, c: Call) -> Answer {
    match c {
        Call::Cache(r, h) => Answer::Before(s.cache_html(ROUTES[r], PAGES[h])),
        Call::Head(r, d) => Answer::Flag(s.cache_head_injections(ROUTES[r], HEADS[d])),
        Call::Diff(r, h) => Answer::Event(s.diff_route(ROUTES[r], PAGES[h]).as_ref().map(ev)),
        Call::Both(r, h, d) => Answer::Event(s.diff_route_with_head(ROUTES[r], PAGES[h], HEADS[d]).as_ref().map(ev)),
        Call::Remove(r) => Answer::Flag(s.remove_route(ROUTES[r])),
        Call::Clear => {
            s.clear();
            Answer::Nothing
        }
    }
}
fn check_answer(got: Answer, want: Answer, way: Option<(String, String)>) -> Outcome {
    match (got, want) {
        (Answer::Event(Some(Ev::Patches(r, blob))), Answer::Event(Some(Ev::Patches(q, _)))) => {
            ensure!(r == q, "event for {r:?}, not {q:?}");
            let (old, new) = way.unwrap();
            let (x, y) = (patched(&old, &blob)?, as_read(&new));
            ensure!(
                strip(x.body.as_deref().unwrap_or(&[])) == strip(y.body.as_deref().unwrap_or(&[])) && x.body_attrs == y.body_attrs,
                "the patches lead from {old:?} to {} instead of {new:?}", show_doc(&x)
            );
            Ok(())
        }
        (g, w) if g == w => Ok(()),
        (g, w) => Err(format!("{g:?} instead of {w:?}").into()),
    }
}
fn server_case(calls: &[Call], obs: &mut Obs) -> Outcome {
    let mut m = Model::default();
    let mut s = if calls.len() % 2 == 0 { LiveReloadServer::new() } else { LiveReloadServer::default() };
    for (i, c) in calls.iter().enumerate() {
        let (want, way) = m.call(*c);
        let got = real_call(&mut s, *c);
        if matches!(want, Answer::Event(Some(Ev::Patches(..)))) {
            obs.nontrivial();
            obs.seen("patch events");
        }
        check_answer(got, want, way).map_err(|e| Fail::from(format!("call {i} of {calls:?}: {}", e.msg)))?;
        let mut routes = s.cached_routes();
        routes.sort();
        ensure!(routes.iter().eq(m.html.keys()), "after {calls:?}: routes {routes:?} instead of {:?}", m.html.keys());
        obs.step(1);
    }
    // What is cached now shows in what comes next.
    for r in 0..ROUTES.len() {
        ensure!(s.cache_html(ROUTES[r], "probe") == m.html.get(ROUTES[r]).cloned(), "after {calls:?}: cached html of {}", ROUTES[r]);
        let known = m.head.get(ROUTES[r]).cloned().unwrap_or_default();
        ensure!(!s.cache_head_injections(ROUTES[r], &known), "after {calls:?}: head injections of {}", ROUTES[r]);
    }
    obs.state(format!("{:?}{:?}", m.html, m.head).as_bytes());
    obs.trace();
    Ok(())
}
fn calls(routes: usize, pages: usize, heads: usize) -> Vec<Call> {
    let mut v = vec![];
    for r in 0..routes {
        for h in 0..pages {
            v.push(Call::Cache(r, h));
            v.push(Call::Diff(r, h));
            for d in 0..heads {
                v.push(Call::Both(r, h, d));
            }
        }
        v.extend((0..heads).map(|d| Call::Head(r, d)));
        v.push(Call::Remove(r));
    }
    v.push(Call::Clear);
    v
}
fn server_family(name: &str, abc: Vec<Call>, len: u32) -> Family {
    let n = abc.len() as u64;
    let size = n.pow(len);
    let abc = Arc::new(abc);
    let a2 = abc.clone();
    let get = move |abc: &[Call], mut i: u64| -> Vec<Call> {
        (0..len)
            .map(|_| {
                let c = abc[(i % n) as usize];
                i /= n;
                c
            })
            .collect()
    };
    Family::new(
        name,
        format!("all sequences of {len} server calls over {n}"),
        size,
        move |i| format!("{:?}", get(&a2, i)),
        move |i, obs| server_case(&get(&abc, i), obs),
    )
}
pub fn s01_families(t: Tier) -> Vec<Family> {
    vec![
        server_family("calls-wide", calls(2, 5, 3), 3),
        server_family("calls-deep", calls(1, 3, 2), t.pick(4, 5)),
        server_family("calls-two-routes", calls(2, 2, 2), t.pick(4, 4)),
    ]
}

// ------------------------------------------------------------------ S02

/// A page in a browser (the client's) and one in Rust, shown since some time.
struct Client {
    page: String,
    blobs: Vec<Vec<u8>>,
}
impl Client {
    fn open(html: &str) -> Client {
        Client { page: html.into(), blobs: vec![] }
    }
    /// The body it shows now: the page it loaded and all patches since.
    fn shows(&self, browser: bool) -> Result<D, Fail> {
        let t = StrTendril::from(self.page.as_str());
        let mut d = hotmeal::parse(&t);
        if browser {
            web_load(&read(&d));
        }
        for b in &self.blobs {
            if browser {
                hotmeal_wasm::apply_patches_postcard(b).map_err(|e| format!("the browser rejects the patches: {e:?}"))?;
            } else {
                let p: Vec<P> = facet_postcard::from_slice(b).map_err(|e| format!("undecodable patches: {e:?}"))?;
                d.apply_patches(p).map_err(|e| format!("the page rejects the patches: {e:?}"))?;
            }
        }
        Ok(if browser { web_read() } else { read(&d) })
    }
}
/// Each step: the new version, whether a client opens the page before it, and
/// what happens to head injections or the cache with it.
fn live_case(docs: &[String], v: &[usize], how: &[usize], obs: &mut Obs) -> Outcome {
    let route = "/r";
    let mut s = LiveReloadServer::new();
    let mut cur = docs[v[0]].as_str();
    s.cache_html(route, cur);
    let mut head = 0;
    s.cache_head_injections(route, HEADS[0]);
    let mut clients = vec![Client::open(cur)];
    for (i, k) in v[1..].iter().enumerate() {
        let say = |m: String| Fail::from(format!("step {}: {m}", i + 1));
        let join = how[i] & 1 == 1;
        if join {
            s.cache_html(route, cur); // serving it
            clients.push(Client::open(cur));
        }
        let e = match how[i] >> 1 {
            0 => s.diff_route(route, &docs[*k]),
            1 => {
                head = 1 - head;
                s.diff_route_with_head(route, &docs[*k], HEADS[head])
            }
            2 => s.diff_route_with_head(route, &docs[*k], HEADS[head]),
            _ => {
                s.remove_route(route);
                head = 0;
                s.diff_route_with_head(route, &docs[*k], HEADS[0])
            }
        };
        cur = &docs[*k];
        // over the wire to every client
        let e = match e {
            None => None,
            Some(e) => Some(ev(&LiveReloadEvent::from_postcard(&e.to_postcard()).map_err(|e| say(format!("undecodable event: {e:?}")))?)),
        };
        for c in &mut clients {
            match &e {
                None => {}
                Some(Ev::Reload) | Some(Ev::Head(_)) => *c = Client::open(cur),
                Some(Ev::Patches(r, b)) => {
                    if r != route {
                        return Err(say(format!("patches for {r:?}")));
                    }
                    c.blobs.push(b.clone());
                    obs.nontrivial();
                }
            }
        }
        obs.seen(match &e {
            None => "no event",
            Some(Ev::Reload) => "reload",
            Some(Ev::Head(_)) => "head changed",
            Some(Ev::Patches(..)) => "patches",
        });
        // A changed head must not go unnoticed.
        if how[i] >> 1 == 1 && !matches!(e, Some(Ev::Head(_))) {
            return Err(say(format!("head injections changed, event {e:?}")));
        }
        let want = as_read(cur);
        for c in &clients {
            for browser in [false, true] {
                let got = c.shows(browser)?;
                obs.step(1);
                judge(&got, &D { doctype: got.doctype.clone(), head: got.head.clone(), ..want.clone() }, &got, &[], if browser { "browser client" } else { "client" })
                    .map_err(|e| say(e.msg))?;
                obs.state(format!("{got:?}").as_bytes());
            }
        }
    }
    obs.trace();
    Ok(())
}
fn live_family(name: &str, docs: Vec<String>, len: u32, hows: usize) -> Family {
    let n = docs.len() as u64;
    let (docs, k) = (Arc::new(docs), hows as u64);
    let d2 = docs.clone();
    let split = move |mut i: u64| {
        let mut v = vec![];
        for _ in 0..=len {
            v.push((i % n) as usize);
            i /= n;
        }
        let mut h = vec![];
        for _ in 0..len {
            h.push((i % k) as usize);
            i /= k;
        }
        (v, h)
    };
    Family::new(
        name,
        format!("all histories of {len} changes over {n} versions, with clients joining, head changes and forgotten routes ({k} ways each)"),
        n.pow(len + 1) * k.pow(len),
        move |i| {
            let (v, h) = split(i);
            format!("{:?}, steps {h:?}", v.iter().map(|j| &d2[*j]).collect::<Vec<_>>())
        },
        move |i, obs| {
            let (v, h) = split(i);
            live_case(&docs, &v, &h, obs)
        },
    )
}
fn htmls(f: Vec<Vec<T>>) -> Vec<String> {
    f.into_iter().filter(|f| crate::diffs::plain_writable(f)).map(|f| build(&doc(f)).to_html()).collect()
}
pub fn s02_families(t: Tier) -> Vec<Family> {
    let small: Vec<String> = vec![
        "<p>a</p>".into(),
        "<ul><li>a</li><li>b</li></ul>".into(),
        "<ul><li>b</li><li>a</li><li>c</li></ul>x".into(),
        "<html><head><title>t</title></head><body class=\"k\"><p>a</p><div><p>b</p></div></body></html>".into(),
        "".into(),
        "<div data-hotmeal-opaque=\"w\"><b>1</b></div><svg><g></g></svg>".into(),
    ];
    let forest = htmls(forests(t.pick(2, 4), &[el("div", vec![]), ela("b", &[("id", "1")], vec![])], &[tx("x"), cm("c")]));
    vec![
        live_family("ways", small.clone(), t.pick(2, 3), 8),
        live_family("long", small, t.pick(4, 5), 1),
        live_family("pages", crate::pages::versions(0, 8, t.pick(4, 2)), 2, 1),
        live_family("pages-ways", crate::pages::versions(0, 6, t.pick(6, 4)), t.pick(1, 2), 8),
        live_family("pages-other", crate::pages::versions(2, 6, t.pick(6, 3)), 2, 1),
        live_family("forest", forest, t.pick(2, 1), 1),
        live_family("lists", (0..6).map(|i| htmls(vec![spaces::list(0, &perm(i)).body.unwrap()]).remove(0)).collect(), t.pick(4, 5), 1),
    ]
}
fn perm(i: usize) -> Vec<usize> {
    [vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]][i].clone()
}

// ------------------------------------------------------------------ S03

/// Calls on one route do not show in the answers for another.
fn apart_case(a: &[Call], b: &[Call], names: (&str, &str), order: usize, obs: &mut Obs) -> Outcome {
    let on = |s: &mut LiveReloadServer, r: &str, c: Call| match c {
        Call::Cache(_, h) => Answer::Before(s.cache_html(r, PAGES[h])),
        Call::Head(_, d) => Answer::Flag(s.cache_head_injections(r, HEADS[d])),
        Call::Diff(_, h) => Answer::Event(s.diff_route(r, PAGES[h]).as_ref().map(ev)),
        Call::Both(_, h, d) => Answer::Event(s.diff_route_with_head(r, PAGES[h], HEADS[d]).as_ref().map(ev)),
        Call::Remove(_) => Answer::Flag(s.remove_route(r)),
        Call::Clear => unreachable!(),
    };
    let alone = |r: &str, calls: &[Call]| {
        let mut s = LiveReloadServer::new();
        calls.iter().map(|c| on(&mut s, r, *c)).collect::<Vec<_>>()
    };
    let (wa, wb) = (alone(names.0, a), alone(names.1, b));
    let mut s = LiveReloadServer::new();
    let (mut i, mut j) = (0, 0);
    let mut bits = order;
    while i < a.len() || j < b.len() {
        let first = if i == a.len() { false } else if j == b.len() { true } else { bits & 1 == 0 };
        bits >>= 1;
        let (got, want, who) = if first {
            i += 1;
            (on(&mut s, names.0, a[i - 1]), &wa[i - 1], names.0)
        } else {
            j += 1;
            (on(&mut s, names.1, b[j - 1]), &wb[j - 1], names.1)
        };
        obs.step(1);
        ensure!(got == *want, "{who:?}: {got:?}, alone {want:?}");
    }
    obs.state(format!("{wa:?}{wb:?}").as_bytes());
    obs.nontrivial();
    obs.trace();
    Ok(())
}
pub fn s03_families(t: Tier) -> Vec<Family> {
    const FEW: &[(&str, &str)] = &[("/a", "/b"), ("/a", "/a/"), ("", "/"), ("/A", "/a"), ("/a", "/a?x")];
    // any two of names that someone might take for one
    let long = |end: &str| -> &'static str { Box::leak(format!("/{}{end}", "x".repeat(300)).into_boxed_str()) };
    let alike = [
        "/a", "/a/", "//a", "/a//", "a", "/A", "/a?x", "/a#x", "/a%20b", "/a b", "/a+b", "/a/index.html", "/a.html", "/\u{e9}", "/e\u{301}", "/%C3%A9", " /a", "/a ", "/a\n", "/a\0", "/a/../a", "/./a",
        long(""), long("y"), long("z"),
    ];
    let many: &'static [(&'static str, &'static str)] = Vec::leak(alike.iter().flat_map(|a| alike.iter().map(move |b| (*a, *b))).filter(|(a, b)| a != b).collect());
    let make = |name: &str, abc: Vec<Call>, len: usize, names: &'static [(&'static str, &'static str)]| {
        let seqs: Vec<Vec<Call>> = words(len, abc.len()).into_iter().map(|w| w.iter().map(|i| abc[*i]).collect()).collect();
        // every order in which the two can be interleaved
        let orders: Vec<usize> = (0..1usize << (2 * len)).filter(|b| b.count_ones() as usize == len).collect();
        let (n, k, m) = (seqs.len() as u64, orders.len() as u64, names.len() as u64);
        let (s1, o1) = (Arc::new(seqs), Arc::new(orders));
        let s2 = s1.clone();
        let at = move |i: u64| ((i % n) as usize, (i / n % n) as usize, (i / n / n % k) as usize, (i / n / n / k) as usize);
        Family::new(
            name,
            format!("all interleavings of two sequences of {len} calls over {} on two routes, {} pairs of routes", abc.len(), names.len()),
            n * n * k * m,
            move |i| {
                let (a, b, o, r) = at(i);
                format!("{:?} on {:?}, {:?} on {:?}, order {o}", s2[a], names[r].0, s2[b], names[r].1)
            },
            move |i, obs| {
                let (a, b, o, r) = at(i);
                apart_case(&s1[a], &s1[b], names[r], o1[o], obs)
            },
        )
    };
    let one = |p, h| calls(1, p, h).into_iter().filter(|c| *c != Call::Clear).collect::<Vec<_>>();
    vec![
        make("pairs", one(3, 2), 2, FEW),
        make("triples", vec![Call::Cache(0, 0), Call::Diff(0, 2), Call::Both(0, 0, 1), Call::Remove(0)], t.pick(3, 4), FEW),
        make("alike", vec![Call::Cache(0, 0), Call::Diff(0, 2), Call::Both(0, 0, 1), Call::Remove(0)], 2, many),
    ]
}

// ------------------------------------------------------------------ S04

const HEADISH: &[&str] = &[
    "<!DOCTYPE html>", "<html>", "<head>", "<HEAD lang=\"x\">", "<header>", "<head\n>", "<head/>", "</head>", "<body>", "<headline a>", "\u{e9}\u{130}\u{130}\u{130}\u{130}\u{130}\u{130}", "\u{212a}\u{212a}>", "<h", ">", "<HTML>",
];
/// The byte after the first head tag, if there is one.
fn head_tag_end(html: &str) -> Option<usize> {
    let b = html.as_bytes();
    for i in 0..b.len() {
        if b.len() >= i + 6 && b[i] == b'<' && b[i + 1..i + 5].eq_ignore_ascii_case(b"head") && matches!(b[i + 5], b'>' | b'/' | b' ' | b'\n' | b'\t' | b'\x0c' | b'\r') {
            return b[i..].iter().position(|c| *c == b'>').map(|j| i + j + 1);
        }
    }
    None
}
fn inject_case(html: &str, obs: &mut Obs) -> Outcome {
    for content in ["", "<script>\u{e9}</script>", "<head>"] {
        let got = inject_into_head(html, content);
        let at = head_tag_end(html);
        let i = at.unwrap_or(0);
        let want = format!("{}{content}{}", &html[..i], &html[i..]);
        ensure!(got == want, "{content:?} into {html:?} gives {got:?} instead of {want:?}");
        obs.seen(if at.is_some() { "after the head tag" } else { "in front" });
        obs.step(1);
    }
    obs.state(html.as_bytes());
    obs.nontrivial();
    obs.trace();
    Ok(())
}
/// A page with the loader in its head is the page and the loader.
fn loader_case(d: &D, sel: &str, url: &str, obs: &mut Obs) -> Outcome {
    if !d.body.as_deref().is_some_and(crate::diffs::plain_writable) || !crate::diffs::plain_writable(&d.head) {
        return Ok(());
    }
    loader_text(&build(d).to_html(), sel, url, obs)
}
fn loader_text(html: &str, sel: &str, url: &str, obs: &mut Obs) -> Outcome {
    let script = loader_script("/pkg/hotmeal_wasm.js", "/pkg/hotmeal_wasm_bg.wasm", sel, url);
    ensure!(script.starts_with("<script type=\"module\">") && script.ends_with("</script>"), "{script}");
    let got = as_read(&inject_into_head(html, &script));
    let plain = as_read(html);
    ensure!(got.body == plain.body && got.body_attrs == plain.body_attrs && got.doctype == plain.doctype, "the page becomes {}", show_doc(&got));
    let Some(T::El(s)) = got.head.first() else { return Err(format!("no loader in the head of {}", show_doc(&got)).into()) };
    let rest = &got.head[1..];
    ensure!(s.tag == "script" && rest == plain.head, "the head becomes {}", show(&got.head));
    let Some(T::Text(code)) = s.kids.first() else { return Err("an empty loader".into()) };
    crate::loader::judge(code, ["/pkg/hotmeal_wasm.js", "/pkg/hotmeal_wasm_bg.wasm", sel, url])?;
    obs.state(html.as_bytes());
    obs.step(1);
    obs.nontrivial();
    obs.trace();
    Ok(())
}
pub fn s04_families(t: Tier) -> Vec<Family> {
    let len = 5;
    let mut v: Vec<String> = (0..=len).flat_map(|n| words(n, HEADISH.len())).map(|w| w.iter().map(|i| HEADISH[*i]).collect()).collect();
    v.sort();
    v.dedup();
    let (v, n) = (Arc::new(v), 0);
    let _ = n;
    let v2 = v.clone();
    let mut docs: Vec<D> = vec![];
    for s in [spaces::frames(), spaces::edit1("e", spaces::bases())] {
        for i in 0..s.size {
            docs.push((s.get)(i).1);
        }
    }
    docs.sort();
    docs.dedup();
    docs.retain(|d| d.body.is_some());
    let docs = Arc::new(docs);
    let d2 = docs.clone();
    let sels = [("body", "ws://localhost:3000/_lr"), ("#content", "wss://h/_lr?x=1&y=2"), ("main > .a[href='x']", "/")];
    vec![
        Family::new(
            "injections",
            format!("all texts of up to {len} pieces with tags that look like head"),
            v.len() as u64,
            move |i| format!("{:?}", v2[i as usize]),
            move |i, obs| inject_case(&v[i as usize], obs),
        ),
        Family::new(
            "loader",
            "every base document and frame with a loader in its head",
            (docs.len() * 3) as u64,
            move |i| show_doc(&d2[i as usize / 3]),
            move |i, obs| {
                let (s, u) = sels[i as usize % 3];
                loader_case(&docs[i as usize / 3], s, u, obs)
            },
        ),
        Family::new(
            "loader-pages",
            "the real pages of the repository with a loader in their head",
            (crate::pages::files().len() * 3) as u64,
            move |i| crate::pages::files()[i as usize / 3].0.clone(),
            move |i, obs| {
                let (s, u) = sels[i as usize % 3];
                loader_text(&crate::pages::files()[i as usize / 3].1, s, u, obs)
            },
        ),
    ]
}

// ------------------------------------------------------------------ S05

fn wire_case(e: LiveReloadEvent, obs: &mut Obs) -> Outcome {
    let bytes = e.to_postcard();
    let back = LiveReloadEvent::from_postcard(&bytes).map_err(|x| format!("{e:?} undecodable: {x:?}"))?;
    ensure!(ev(&back) == ev(&e), "{e:?} arrives as {back:?}");
    ensure!(back.to_postcard() == bytes && e.clone().to_postcard() == bytes, "{e:?} is encoded differently the second time");
    obs.state(&bytes);
    obs.step(1);
    obs.trace();
    obs.nontrivial();
    Ok(())
}
pub fn s05_families(t: Tier) -> Vec<Family> {
    let far = "r".repeat(70_000);
    let routes = ["", "/", "/a b?x=1#y", "/\u{e9}/\u{1f600}", "\0", "Reload", "/a/", "/A", "%2F", " /x ", "/x\n", &far].map(String::from);
    let bytes = [0u8, 1, 2, 0x7f, 0x80, 0xff];
    let mut blobs: Vec<Vec<u8>> = (0..=t.pick(4, 5)).flat_map(|n| words(n, bytes.len())).map(|w| w.iter().map(|i| bytes[*i]).collect()).collect();
    for n in [126, 127, 128, 129, 255, 256, 16383, 16384, 70000] {
        blobs.push(vec![0x80; n]);
    }
    let n = blobs.len();
    let get = move |i: usize| {
        let (k, r) = (i / routes.len(), routes[i % routes.len()].clone());
        match k {
            0 => LiveReloadEvent::Reload,
            1 => LiveReloadEvent::HeadChanged { route: r },
            2 => LiveReloadEvent::HeadChanged { route: r.repeat(200) },
            _ => LiveReloadEvent::Patches { route: r, patches_blob: blobs[k - 3].clone() },
        }
    };
    let get = Arc::new(get);
    let g2 = get.clone();
    vec![Family::new(
        "events",
        "every kind of event over routes and byte strings",
        ((n + 3) * 12) as u64,
        move |i| format!("{:?}", g2(i as usize)),
        move |i, obs| wire_case(get(i as usize), obs),
    )]
}
