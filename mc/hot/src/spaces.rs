//! The spaces of (old document, new document) pairs that are explored completely.

use crate::tree::*;
use mc_core::Tier;
use mc_core::trees::{arrangements, perms, words};
use std::sync::Arc;

type Get = Arc<dyn Fn(u64) -> (D, D) + Send + Sync>;
#[derive(Clone)]
pub struct Space {
    pub name: String,
    pub bound: String,
    pub size: u64,
    pub get: Get,
}

pub fn pairs(name: &str, bound: &str, list: Vec<D>) -> Space {
    let n = list.len() as u64;
    let list = Arc::new(list);
    Space {
        name: name.into(),
        bound: format!("{bound}: all ordered pairs of {n} documents"),
        size: n * n,
        get: Arc::new(move |i| (list[(i / n) as usize].clone(), list[(i % n) as usize].clone())),
    }
}
pub fn listed(name: &str, bound: &str, list: Vec<(D, D)>) -> Space {
    let list = Arc::new(list);
    Space {
        name: name.into(),
        bound: bound.into(),
        size: list.len() as u64,
        get: Arc::new(move |i| list[i as usize].clone()),
    }
}
fn docs(f: Vec<Vec<T>>) -> Vec<D> {
    f.into_iter().map(doc).collect()
}
fn e(tag: &str) -> T {
    el(tag, vec![])
}
fn ea(tag: &str, a: &[(&str, &str)]) -> T {
    ela(tag, a, vec![])
}

pub fn mixed(n: usize) -> Space {
    let f = forests(n, &[e("p"), e("div")], &[tx("a"), tx("b"), cm("c")]);
    pairs("mixed", &format!("bodies of <= {n} nodes over 2 elements, 2 texts and a comment"), docs(f))
}
pub fn kinds(n: usize) -> Space {
    let f = forests(n, &[e("b"), e("i")], &[]);
    pairs("kinds", &format!("bodies of <= {n} nested elements of 2 kinds"), docs(f))
}
pub fn texts(n: usize) -> Space {
    let f = forests(n, &[e("p")], &[tx("a"), tx("b")]);
    pairs("texts", &format!("bodies of <= {n} nodes over 1 element and 2 texts"), docs(f))
}
pub fn attrs(n: usize) -> Space {
    let els = [
        e("p"),
        ea("p", &[("id", "1")]),
        ea("p", &[("id", "2")]),
        ea("p", &[("id", "1"), ("class", "x")]),
        ea("p", &[("class", "x"), ("id", "1")]),
        ea("div", &[("id", "1")]),
    ];
    let f = forests(n, &els, &[tx("a")]);
    pairs("attrs", &format!("bodies of <= {n} nodes over 6 element/attribute combinations and a text"), docs(f))
}
/// Attribute lists alone: every pair of ordered attribute lists.
pub fn attrlists(alpha: usize) -> Space {
    let mut l = vec![];
    for a in arrangements(alpha, alpha) {
        for vals in words(a.len(), 2) {
            let at: Vec<(String, String)> =
                a.iter().zip(vals).map(|(k, v)| (["id", "class", "|xlink:href", "data-x"][*k].to_string(), v.to_string())).collect();
            l.push(doc(vec![T::El(E { tag: "p".into(), attrs: at, kids: vec![tx("t")], ..E::default() })]));
        }
    }
    pairs("attrlists", &format!("one element whose attributes are any ordered list over {alpha} names, 2 values each"), l)
}
/// Longer lists of attributes in any order, the first of which has two values.
pub fn attrorders(n: usize) -> Space {
    let mut l = vec![];
    for a in arrangements(n, n) {
        for v in ["0", "1"] {
            if v == "0" || a.contains(&0) {
                let at: Vec<(String, String)> =
                    a.iter().map(|k| (["id", "class", "title", "lang", "data-a", "data-b"][*k].to_string(), if *k == 0 { v } else { "0" }.to_string())).collect();
                l.push(doc(vec![T::El(E { tag: "p".into(), attrs: at, kids: vec![tx("t")], ..E::default() })]));
            }
        }
    }
    pairs("attrorders", &format!("one element whose attributes are any ordered list over {n} names, one of them with 2 values"), l)
}
/// The same for an svg element whose attributes have namespaces.
pub fn svgattrs(alpha: usize) -> Space {
    let mut l = vec![];
    for a in arrangements(alpha, alpha) {
        for vals in words(a.len(), 2) {
            let at: Vec<(String, String)> =
                a.iter().zip(vals).map(|(k, v)| (["xlink:href", "xmlns", "href", "xmlns:xlink", "xml:lang"][*k].to_string(), v.to_string())).collect();
            let u = E { tag: "use".into(), ns: Ns::Svg, attrs: at, kids: vec![] };
            l.push(doc(vec![foreign(Ns::Svg, "svg", &[], vec![T::El(u)])]));
        }
    }
    pairs("svgattrs", &format!("one svg element whose attributes are any ordered list over {alpha} namespaced names, 2 values each"), l)
}
/// Names the HTML parser accepts and the DOM API does not, on elements with
/// every kind of content.
pub fn exotics() -> Space {
    let sets: [&[(&str, &str)]; 8] = [
        &[],
        &[("@click", "f")],
        &[("@click", "g(\"&\")")],
        &[("[x]", "a&b\"<"), ("id", "1")],
        &[("a\"b", "v")],
        &[("1x", ""), (":k", "1")],
        &[("id", "1"), ("x<y", "2"), ("v-on:z", "3")],
        &[("=", "e")],
    ];
    let s = |t: &str, a: &[(&str, &str)], k: Vec<T>| foreign(Ns::Svg, t, a, k);
    let kids: Vec<Vec<T>> = vec![
        vec![],
        vec![tx("a<b&c")],
        vec![el("script", vec![tx("if (a<b && c) \"d\"")]), cm("c")],
        vec![e("br"), ea("img", &[("@load", "x")]), tx("t")],
        vec![s("svg", &[("@v", "1"), ("viewBox", "0 0 1 1")], vec![s("linearGradient", &[("@g", "2")], vec![]), s("x<y", &[("xlink:href", "#")], vec![s("path", &[], vec![])])])],
        vec![el("x<y", vec![tx("odd")])],
        vec![ela("a\"b", &[("@c", "d")], vec![el("i", vec![tx("x")]), e("hr")])],
        vec![ela("i", &[("@in", "1")], vec![ela("b", &[("(e)", "2")], vec![tx("&amp;")])])],
    ];
    let mut l = vec![];
    for a in sets {
        for k in &kids {
            l.push(doc(vec![ela("div", a, k.clone())]));
        }
        l.push(D { body_attrs: a.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), ..doc(vec![tx("t")]) });
    }
    pairs("exotics", "an element or body with 8 attribute lists, names only the parser accepts among them, and 8 contents (raw text, void, foreign, odd tags)", l)
}
/// Markers for opaque regions: attribute value = key.
pub fn op(key: &str) -> T {
    ea("div", &[(OPAQUE, key)])
}
pub fn opaque(n: usize, wide: bool) -> Space {
    let els = if wide { vec![e("div"), op("k"), op("m"), e("p")] } else { vec![e("div"), op("k")] };
    let leaves = if wide { vec![tx("a"), tx("b")] } else { vec![tx("a"), tx("b"), e("br")] };
    let f = forests(n, &els, &leaves);
    pairs(
        if wide { "opaquekeys" } else { "opaque" },
        &format!("bodies of <= {n} nodes, plain and opaque elements ({} keys), 2 texts", if wide { 2 } else { 1 }),
        docs(f),
    )
}
/// Lists mixing opaque regions with ordinary content, in any order.
pub fn opaque_pairs(len: usize) -> Space {
    let items = [
        ela("div", &[(OPAQUE, "a")], vec![tx("1")]),
        ela("div", &[(OPAQUE, "a")], vec![tx("2"), e("br")]),
        ela("div", &[(OPAQUE, "b"), ("class", "x")], vec![ela("i", &[("id", "1")], vec![])]),
        ela("section", &[], vec![ela("div", &[(OPAQUE, "b")], vec![tx("1")])]),
        el("p", vec![tx("text")]),
        e("div"),
    ];
    let mut l = vec![];
    for a in arrangements(items.len(), len) {
        l.push(doc(a.iter().map(|i| items[*i].clone()).collect()));
    }
    pairs("opaquelists", &format!("duplicate-free lists (length <= {len}) of 4 kinds of opaque region, text and elements"), l)
}
/// Opaque content with attributes inside.
pub fn opaque_attrs() -> Space {
    let inner: Vec<Vec<T>> = vec![
        vec![],
        vec![tx("a")],
        vec![e("i")],
        vec![ea("i", &[("id", "1")])],
        vec![ea("i", &[("id", "2")])],
        vec![ea("i", &[("id", "1"), ("class", "x")])],
        vec![ea("i", &[("class", "x"), ("id", "1")])],
        vec![el("b", vec![ela("i", &[("id", "1")], vec![tx("t")])])],
        vec![el("b", vec![ela("i", &[("id", "2")], vec![tx("t")])])],
        vec![cm("c")],
        vec![tx("a"), e("br"), tx("b")],
        vec![T::El(E { tag: "div".into(), attrs: vec![(OPAQUE.into(), "in".into())], kids: vec![tx("z")], ..E::default() })],
    ];
    let around: Vec<Box<dyn Fn(T) -> Vec<T>>> = vec![
        Box::new(|o| vec![o]),
        Box::new(|o| vec![e("p"), o]),
        Box::new(|o| vec![o, e("p")]),
        Box::new(|o| vec![tx("x"), el("section", vec![o, tx("y")])]),
        Box::new(|o| vec![el("section", vec![el("p", vec![tx("q")]), o])]),
    ];
    let mut l = vec![];
    for i in &inner {
        for a in &around {
            for extra in [&[][..], &[("id", "o")]] {
                let T::El(mut o) = op("k") else { unreachable!() };
                o.kids = i.clone();
                o.attrs.extend(extra.iter().map(|(k, v)| (k.to_string(), v.to_string())));
                l.push(doc(a(T::El(o))));
            }
        }
    }
    pairs("opaquecontent", "one opaque element, 12 contents (attribute-only differences included) in 5 surroundings, 2 attribute sets", l)
}
/// Opaque elements whose content only they can hold, as a parser reads them.
pub fn opaque_places() -> Space {
    const K: &str = "data-hotmeal-opaque=k";
    let places: &[(&str, &str, &[&str])] = &[
        ("<table K>", "</table>", &["", "<tbody><tr><td>1</td></tr></tbody>", "<caption>c</caption><tbody></tbody>", "<!--c-->"]),
        ("<table><tbody K>", "</tbody></table>", &["", "<tr><td>1</td></tr>", "<tr><td>1</td><th>2</th></tr><tr></tr>"]),
        ("<table><tbody><tr K>", "</tr></tbody></table>", &["", "<td>1</td>", "<td>1</td><th>2</th>"]),
        ("<table><colgroup K>", "</colgroup></table>", &["", "<col>", "<col id=1><col>"]),
        ("<select K>", "</select>", &["", "<option>1</option>", "<optgroup><option>1</option></optgroup>"]),
        ("<ul K>", "</ul>", &["", "<li>1</li>", "<li>1</li><li>2</li>"]),
        ("<textarea K>", "</textarea>", &["", "a&lt;b&gt;", "<i>", "\n\nx"]),
        ("<script K>", "</script>", &["", "a<b", "a&amp;b", "'<i>'"]),
        ("<style K>", "</style>", &["", "a>b", "a&amp;b"]),
        ("<xmp K>", "</xmp>", &["", "a<b>", "a&amp;b"]),
        ("<iframe K>", "</iframe>", &["", "a<b>", "a&amp;b"]),
        ("<noscript K>", "</noscript>", &["", "<p>x</p>", "a&amp;b"]),
        ("<pre K>", "</pre>", &["", "x", "\n\nx", " <b>x</b>"]),
        ("<p K>", "</p>", &["", "x", "<b>x</b>"]),
        ("<button K>", "</button>", &["", "x", "<p>x</p>"]),
        ("<a K>", "</a>", &["", "x", "<b>x</b>"]),
        ("<h1 K>", "</h1>", &["", "x", "<b>x</b>"]),
        ("<li K>", "</li>", &["", "x", "<ul><li>1</li></ul>"]),
        ("<form K>", "</form>", &["", "<input>", "<p>x</p>"]),
        ("<div K>", "</div>", &["", "<form><input></form>", "<svg><a></a></svg><a></a>", "<math><mi>x</mi></math>", "<template><tr></tr></template>"]),
        ("<template K>", "</template>", &["", "<tr><td>1</td></tr>", "<p>x</p>", "<td>1</td>"]),
        ("<svg K>", "</svg>", &["", "<g></g>", "<a>x</a>", "<title>x&lt;y</title>", "<foreignObject><p>x</p></foreignObject>", "<style>a&gt;b</style>"]),
        ("<svg><g K>", "</g></svg>", &["", "<path d=1></path>", "<a xlink:href=x>y</a>", "<script>a&lt;b</script>"]),
        ("<svg><foreignObject K>", "</foreignObject></svg>", &["", "<p>x</p>", "<svg><g></g></svg>"]),
        ("<svg><title K>", "</title></svg>", &["", "x", "<b>x</b>"]),
        ("<math K>", "</math>", &["", "<mi>x</mi>", "<mtext><p>x</p></mtext>"]),
        ("<math><mi K>", "</mi></math>", &["", "x", "<b>x</b>", "<svg><g></g></svg>"]),
        ("<math><annotation-xml encoding=text/html K>", "</annotation-xml></math>", &["", "<p>x</p>", "<svg><g></g></svg>"]),
        ("<math><annotation-xml K>", "</annotation-xml></math>", &["", "<svg><g></g></svg>", "<mi>x</mi>"]),
    ];
    let mut pairs = vec![];
    for (open, close, contents) in places {
        let d: Vec<D> = contents.iter().map(|c| crate::parse::document(&format!("<!doctype html><body>{}{c}{close}", open.replace('K', K)))).collect();
        for a in &d {
            for b in &d {
                pairs.push((a.clone(), b.clone()));
                // ... and with something new beside it
                let mut c = b.clone();
                c.body.as_mut().unwrap().insert(0, ela("q", &[("id", "n")], vec![tx("new")]));
                pairs.push((a.clone(), c));
            }
        }
    }
    listed("opaqueplaces", &format!("opaque regions in {} kinds of element, every change of content, with and without a new neighbour", places.len()), pairs)
}
/// Many opaque regions, deep ones, and ones with much content.
pub fn opaque_big(sizes: &[usize]) -> Space {
    let region = |i: usize, c: usize| ela("div", &[(OPAQUE, &format!("k{i}"))], vec![el("i", vec![tx(&format!("content {i}.{c}"))])]);
    let mut l: Vec<(D, D)> = vec![];
    for &n in sizes {
        // `between`: ordinary paragraphs among the regions
        for between in [false, true] {
            let list = |v: &[(usize, usize)]| {
                let mut out = vec![];
                for &(i, c) in v {
                    out.push(region(i, c));
                    if between {
                        out.push(el("p", vec![tx(&format!("text {i}"))]));
                    }
                }
                doc(vec![el("section", out)])
            };
            let base: Vec<(usize, usize)> = (0..n).map(|i| (i, 0)).collect();
            let mut push = |f: &dyn Fn(&mut Vec<(usize, usize)>)| {
                let mut v = base.clone();
                f(&mut v);
                l.push((list(&base), list(&v)));
                l.push((list(&v), list(&base)));
            };
            for i in 0..n {
                push(&|v| v[i].1 = 1);
                push(&|v| v[i..].iter_mut().for_each(|x| x.1 = 1));
                push(&|v| {
                    v.remove(i);
                });
                push(&|v| v.insert(i, (n, 0)));
                push(&|v| {
                    v[i].1 = 1;
                    v.rotate_left(1);
                });
                push(&|v| {
                    v[i].1 = 1;
                    v[(i + 1) % n].1 = 1;
                    v.swap(0, n - 1);
                });
            }
        }
        // one region at a depth of n
        let at = |c: usize, extra: bool| {
            let mut k = vec![region(0, c)];
            for d in 0..n {
                if extra && d % 5 == 4 {
                    k.insert(0, el("p", vec![tx(&format!("new {d}"))]));
                }
                k = vec![cm(&format!("c{d}")), el(if d % 2 == 0 { "div" } else { "section" }, k)];
            }
            doc(k)
        };
        for (x, y) in [((0, false), (1, false)), ((0, false), (1, true)), ((0, true), (1, false)), ((0, false), (0, true))] {
            l.push((at(x.0, x.1), at(y.0, y.1)));
        }
        // one region with n items, one of which changes
        let much = |f: &dyn Fn(&mut Vec<T>)| {
            let mut v: Vec<T> = (0..n).map(|i| ela("li", &[("id", &i.to_string())], vec![tx(&format!("item {i}"))])).collect();
            f(&mut v);
            doc(vec![el("p", vec![tx("x")]), ela("ul", &[(OPAQUE, "k")], v)])
        };
        for i in 0..n {
            l.push((much(&|_| {}), much(&|v| v[i] = ela("li", &[("id", &i.to_string())], vec![tx("other")]))));
            l.push((much(&|_| {}), much(&|v| v[i] = ela("li", &[("id", "other")], vec![tx(&format!("item {i}"))]))));
            l.push((much(&|_| {}), much(&|v| drop(v.remove(i)))));
        }
    }
    listed("opaquebig", &format!("lists of {sizes:?} opaque regions, with and without text between: change, remove, insert one or change and reorder at every index; a region at that depth; a region with that many items, every one changed"), l)
}
pub fn namespaces(n: usize) -> Space {
    let els = [e("div"), foreign(Ns::Svg, "svg", &[], vec![]), foreign(Ns::Svg, "a", &[], vec![]), e("a")];
    let mut f = forests(n, &els, &[tx("t")]);
    f.retain(|f| natural_ns(f));
    pairs("namespaces", &format!("bodies of <= {n} nodes over html div/a, svg svg/a and a text, namespaces as a parser assigns them"), docs(f))
}
/// Foreign content as the parser builds it: svg and math islands.
pub fn islands() -> Space {
    let s = |t: &str, k: Vec<T>| foreign(Ns::Svg, t, &[], k);
    let icon = |k: Vec<T>| foreign(Ns::Svg, "svg", &[("viewBox", "0 0 1 1")], k);
    let path = foreign(Ns::Svg, "path", &[("d", "M0")], vec![]);
    let usex = foreign(Ns::Svg, "use", &[("xlink:href", "#a")], vec![]);
    let m = |t: &str, k: Vec<T>| foreign(Ns::Math, t, &[], k);
    let inner: Vec<Vec<T>> = vec![
        vec![],
        vec![icon(vec![])],
        vec![icon(vec![path.clone()])],
        vec![icon(vec![path.clone(), usex.clone()])],
        vec![icon(vec![s("g", vec![path.clone()])])],
        vec![icon(vec![s("foreignObject", vec![el("p", vec![tx("h")])])])],
        vec![icon(vec![s("title", vec![tx("t")]), usex])],
        vec![foreign(Ns::Svg, "svg", &[("xmlns", "http://www.w3.org/2000/svg"), ("viewBox", "0 0 1 1")], vec![path.clone()])],
        vec![foreign(Ns::Svg, "svg", &[("xmlns", "http://www.w3.org/2000/svg"), ("xmlns:xlink", "http://www.w3.org/1999/xlink")], vec![
            foreign(Ns::Svg, "use", &[("xlink:href", "#b"), ("xml:lang", "en"), ("id", "u")], vec![]),
        ])],
        vec![m("math", vec![m("mi", vec![tx("x")])])],
        vec![m("math", vec![m("mrow", vec![m("mi", vec![tx("x")]), m("mo", vec![tx("+")])])])],
        vec![m("math", vec![m("mi", vec![el("b", vec![tx("x")])])])],
        vec![el("b", vec![tx("x")])],
    ];
    let mut l = vec![];
    for k in &inner {
        l.push(doc(k.clone()));
        l.push(doc(vec![el("p", k.clone())]));
        let mut v = vec![el("p", vec![tx("x")])];
        v.extend(k.clone());
        v.push(tx("tail"));
        l.push(doc(v));
    }
    pairs("islands", "svg and math content in 3 surroundings", l)
}

/// List item number `i` in a flavour.
pub fn item(flavour: usize, i: usize) -> T {
    let t = format!("item {i}");
    match flavour {
        0 => el("li", vec![tx(&t)]),
        1 => ela("li", &[("id", &i.to_string())], vec![tx("same")]),
        2 => ela("div", &[("class", "card")], vec![el("h2", vec![tx(&t)]), el("p", vec![tx("body"), e("br")])]),
        3 => match i % 4 {
            0 => cm(&t),
            1 => ea("img", &[("src", &t)]),
            2 => el("p", vec![tx(&t)]),
            _ => e("hr"),
        },
        4 => e(["p", "div", "ul", "ol", "b", "i", "em", "nav"][i % 8]),
        _ => unreachable!(),
    }
}
pub const FLAVOURS: usize = 5;
pub fn list(flavour: usize, items: &[usize]) -> D {
    doc(vec![el("ul", items.iter().map(|i| item(flavour, *i)).collect())])
}
pub fn lists(alpha: usize, len: usize) -> Space {
    let arr = Arc::new(arrangements(alpha, len));
    let n = arr.len() as u64;
    Space {
        name: "lists".into(),
        bound: format!("all pairs of duplicate-free lists over {alpha} items (length <= {len}), {FLAVOURS} kinds of item"),
        size: n * n * FLAVOURS as u64,
        get: Arc::new(move |i| {
            let (f, j) = ((i / (n * n)) as usize, i % (n * n));
            (list(f, &arr[(j / n) as usize]), list(f, &arr[(j % n) as usize]))
        }),
    }
}
pub fn permutations(n: usize) -> Space {
    let mut l = vec![];
    for k in 2..=n {
        for p in perms(k) {
            for f in 0..FLAVOURS {
                l.push((list(f, &(0..k).collect::<Vec<_>>()), list(f, &p)));
            }
        }
    }
    listed("perms", &format!("every permutation of 2..={n} list items, {FLAVOURS} kinds of item"), l)
}

/// Small realistic pages.
pub fn bases() -> Vec<Vec<T>> {
    vec![
        vec![el("p", vec![tx("one")]), el("p", vec![tx("two")])],
        vec![el("ul", vec![el("li", vec![tx("a")]), el("li", vec![tx("b")]), el("li", vec![tx("c")])])],
        vec![
            ela("div", &[("class", "x")], vec![el("h2", vec![tx("t")]), el("p", vec![tx("u"), el("em", vec![tx("v")]), tx("w")])]),
            cm("note"),
        ],
        vec![tx("lead "), el("a", vec![tx("link")]), tx(" mid "), el("a", vec![tx("link")]), tx(" end")],
        vec![el("nav", vec![ela("a", &[("href", "/")], vec![tx("home")]), ela("a", &[("href", "/b"), ("class", "on")], vec![tx("b")])]), el("main", vec![el("section", vec![el("p", vec![tx("x")])]), el("section", vec![])])],
        vec![el("div", vec![el("div", vec![el("div", vec![tx("deep")])])])],
        vec![el("table", vec![el("tbody", vec![el("tr", vec![el("td", vec![tx("1")]), el("td", vec![tx("2")])]), el("tr", vec![el("td", vec![tx("3")]), el("td", vec![tx("4")])])])])],
    ]
}
pub fn opaque_bases() -> Vec<Vec<T>> {
    let o = |k: &str, kids: Vec<T>| ela("div", &[(OPAQUE, k)], kids);
    vec![
        vec![el("p", vec![tx("one")]), o("m", vec![el("figure", vec![tx("g")])])],
        vec![o("a", vec![tx("1")]), el("p", vec![tx("between")]), o("b", vec![el("i", vec![tx("2")])])],
        vec![el("section", vec![o("a", vec![el("q", vec![tx("x")])]), tx("t")])],
    ]
}
pub fn news() -> Vec<T> {
    vec![tx("new"), cm("newc"), e("hr"), ela("p", &[("id", "n")], vec![tx("fresh"), el("b", vec![tx("bold")])])]
}
pub fn edit1(name: &str, bases: Vec<Vec<T>>) -> Space {
    let mut l = vec![];
    for b in &bases {
        for g in edits(b, &news()) {
            l.push((doc(b.clone()), doc(g.clone())));
            l.push((doc(g), doc(b.clone())));
        }
    }
    listed(name, &format!("{} pages, every single edit (insert/delete/move/wrap/unwrap/retext/re-attribute/rename), both directions", bases.len()), l)
}
/// Two edits in sequence; indices are resolved lazily.
pub fn edit2(name: &str, bases: Vec<Vec<T>>) -> Space {
    let firsts: Vec<(Vec<T>, Vec<T>)> = bases
        .iter()
        .flat_map(|b| edits(b, &news()[..1]).into_iter().map(move |g| (b.clone(), g)))
        .collect();
    let sizes: Vec<u64> = firsts.iter().map(|(_, g)| edits(g, &news()[..2]).len() as u64).collect();
    let mut starts = vec![0u64];
    for s in &sizes {
        starts.push(starts.last().unwrap() + s);
    }
    let total = *starts.last().unwrap();
    let nb = bases.len();
    Space {
        name: name.into(),
        bound: format!("{nb} pages, every sequence of two edits"),
        size: total,
        get: Arc::new(move |i| {
            let at = starts.partition_point(|s| *s <= i) - 1;
            let (b, g) = &firsts[at];
            let h = edits(g, &news()[..2]).swap_remove((i - starts[at]) as usize);
            (doc(b.clone()), doc(h))
        }),
    }
}
/// Body presence, body attributes, head and doctype differences.
pub fn frames() -> Space {
    let mut l = vec![];
    for doctype in [None, Some("html")] {
        for head in [vec![], vec![el("title", vec![tx("t")])]] {
            for (attrs, body) in [
                (vec![], None),
                (vec![], Some(vec![])),
                (vec![], Some(vec![tx("a")])),
                (vec![], Some(vec![tx("a"), el("p", vec![tx("b")]), cm("c")])),
                (vec![], Some(vec![el("p", vec![tx("b"), ela("i", &[("id", "1")], vec![cm("x")])])])),
                (vec![("class", "x")], Some(vec![])),
                (vec![("class", "x")], Some(vec![tx("a")])),
                (vec![("class", "y")], Some(vec![tx("a")])),
                (vec![("class", "x"), ("id", "b")], Some(vec![el("p", vec![tx("b")])])),
                (vec![("id", "b"), ("class", "x")], Some(vec![el("p", vec![tx("b")])])),
            ] {
                l.push(D {
                    doctype: doctype.map(|s: &str| s.to_string()),
                    head: head.clone(),
                    body_attrs: attrs.into_iter().map(|(k, v): (&str, &str)| (k.to_string(), v.to_string())).collect(),
                    body,
                });
            }
        }
    }
    pairs("frames", "documents with and without body, body attributes, head and doctype", l)
}
pub fn wide(sizes: &[usize]) -> Space {
    let mut l = vec![];
    for &n in sizes {
        for f in [0usize, 1, 3] {
            let base: Vec<usize> = (0..n).collect();
            let mut outs: Vec<Vec<usize>> = vec![vec![], base.iter().rev().copied().collect()];
            for i in 0..n {
                let mut v = base.clone();
                v.remove(i);
                outs.push(v);
                let mut v = base.clone();
                v.insert(i, n + 1);
                outs.push(v);
                let mut v = base.clone();
                v[i] = n + 1;
                outs.push(v);
                let mut v = base.clone();
                v.rotate_left(i);
                outs.push(v);
                outs.push(base[i..].to_vec());
                outs.push(base[..i].to_vec());
                for j in [0, n / 2, n - 1, (i + 1) % n, (i + 2) % n] {
                    let mut v = base.clone();
                    let x = v.remove(i);
                    v.insert(j, x);
                    outs.push(v);
                    let mut v = base.clone();
                    v.swap(i, j);
                    outs.push(v);
                }
            }
            outs.sort();
            outs.dedup();
            for o in outs {
                l.push((list(f, &base), list(f, &o)));
                l.push((list(f, &o), list(f, &base)));
            }
        }
    }
    listed("wide", &format!("lists of sizes {sizes:?}: delete/insert/replace/rotate/move/swap/truncate at every index, both directions"), l)
}
/// Lists longer than a byte counts, and a table with more nodes than 16 bits count.
pub fn huge(n: usize, side: usize) -> Space {
    let base: Vec<usize> = (0..n).collect();
    let with = |f: &dyn Fn(&mut Vec<usize>)| {
        let mut v = base.clone();
        f(&mut v);
        v
    };
    let outs = [
        with(&|v| v.reverse()),
        with(&|v| v.rotate_left(1)),
        with(&|v| v.rotate_right(1)),
        with(&|v| v.swap(0, n - 1)),
        with(&|v| v.swap(255, 256)),
        with(&|v| {
            v.remove(255);
        }),
        with(&|v| {
            v.remove(n - 1);
            v.remove(0);
        }),
        with(&|v| v.insert(256, n + 1)),
        with(&|v| v[256] = n + 1),
        with(&|v| v.truncate(1)),
    ];
    let mut l = vec![];
    for f in [0usize, 1, 3] {
        for o in &outs {
            l.push((list(f, &base), list(f, o)));
            l.push((list(f, o), list(f, &base)));
        }
    }
    let table = |f: &dyn Fn(&mut Vec<Vec<usize>>)| {
        let mut rows: Vec<Vec<usize>> = (0..side).map(|r| (0..side).map(|c| r * side + c).collect()).collect();
        f(&mut rows);
        doc(rows.iter().map(|r| el("div", r.iter().map(|c| cm(&c.to_string())).collect())).collect())
    };
    if side > 0 {
        let base = table(&|_| {});
        for f in [
            &|v: &mut Vec<Vec<usize>>| *v.last_mut().unwrap().last_mut().unwrap() = 0,
            &|v: &mut Vec<Vec<usize>>| v.swap(0, side - 1),
            &|v: &mut Vec<Vec<usize>>| {
                v[side - 1].pop();
                v[side - 2].insert(0, 7);
            },
        ] as [&dyn Fn(&mut Vec<Vec<usize>>); 3]
        {
            l.push((base.clone(), table(f)));
        }
    }
    listed("huge", &format!("lists of {n} items: reversed, rotated, swapped, shortened, changed; tables of {side} x {side} cells: a cell, two rows, cells of two rows"), l)
}
/// Elements with many attributes.
pub fn many_attrs(sizes: &[usize]) -> Space {
    let mk = |v: &[(usize, usize)]| {
        let names: Vec<(String, String)> = v.iter().map(|(k, x)| (format!("data-a{k}"), x.to_string())).collect();
        let names: Vec<(&str, &str)> = names.iter().map(|(k, x)| (k.as_str(), x.as_str())).collect();
        doc(vec![ela("p", &names, vec![tx("x")])])
    };
    let mut l = vec![];
    for &n in sizes {
        let base: Vec<(usize, usize)> = (0..n).map(|i| (i, i)).collect();
        let mut outs = vec![base.iter().rev().copied().collect()];
        for i in 0..n {
            let with = |f: &dyn Fn(&mut Vec<(usize, usize)>)| {
                let mut v = base.clone();
                f(&mut v);
                v
            };
            outs.push(with(&|v| {
                v.remove(i);
            }));
            outs.push(with(&|v| v[i].1 = 999));
            outs.push(with(&|v| v[i].0 = 999));
            outs.push(with(&|v| v.insert(i, (999, 0))));
            outs.push(with(&|v| v.swap(i, (i + 1) % n)));
            outs.push(with(&|v| v.rotate_left(i)));
        }
        for o in outs {
            l.push((mk(&base), mk(&o)));
            l.push((mk(&o), mk(&base)));
        }
    }
    listed("manyattrs", &format!("an element with {sizes:?} attributes: one removed, changed, renamed, added, swapped or all rotated at every index"), l)
}
/// Nested chains with one change at every depth.
pub fn deep(depths: &[usize]) -> Space {
    let chain = |n: usize, tags: &dyn Fn(usize) -> T| {
        let mut cur = vec![tx("bottom")];
        for i in (0..n).rev() {
            let mut t = tags(i);
            if let T::El(e) = &mut t {
                e.kids.extend(cur);
            }
            cur = vec![t];
        }
        doc(cur)
    };
    let mut l = vec![];
    for &n in depths {
        let base = chain(n, &|_| e("div"));
        for at in 0..n {
            for v in 0..4 {
                let other = chain(n, &|i| {
                    if i != at {
                        return e("div");
                    }
                    match v {
                        0 => e("p"),
                        1 => ea("div", &[("id", "x")]),
                        2 => el("div", vec![tx("side")]),
                        _ => el("div", vec![e("hr")]),
                    }
                });
                l.push((base.clone(), other.clone()));
                l.push((other, base.clone()));
            }
        }
        for k in 0..n {
            l.push((base.clone(), chain(k, &|_| e("div"))));
            l.push((chain(k, &|_| e("div")), base.clone()));
        }
    }
    listed("deep", &format!("chains of {depths:?} nested elements: rename/attribute/text/sibling at every depth, shortening"), l)
}
/// Inverted nestings: every pair of chains over 3 or more tags plus side children.
pub fn inversions(n: usize) -> Space {
    let mut l = vec![];
    for k in 1..=n {
        for p in arrangements(n, k) {
            if p.len() != k {
                continue;
            }
            for side in 0..3 {
                let mut cur: Vec<T> = vec![tx("x")];
                for (d, t) in p.iter().enumerate().rev() {
                    let mut kids = cur;
                    match side {
                        1 => kids.insert(0, tx(&format!("s{t}"))),
                        2 if d % 2 == 0 => kids.push(el("q", vec![tx(&format!("s{t}"))])),
                        _ => {}
                    }
                    cur = vec![el(["b", "i", "u", "s", "em"][*t], kids)];
                }
                l.push(doc(cur));
            }
        }
    }
    pairs("inversions", &format!("nestings of <= {n} distinct elements in every order, with and without side text"), l)
}

/// Documents with adjacent and empty text nodes (only the DOM API makes them).
/// Pairs found in real pages that were hard to get right.
pub fn hard() -> Space {
    let d = |k: Vec<T>| el("div", k);
    let ul = || el("ul", vec![tx("x"), el("li", vec![tx("x")])]);
    let a = vec![tx("x"), d(vec![d(vec![d(vec![ela("div", &[("class", "mt24 mb12")], vec![tx("x"), d(vec![d(vec![e("a"), ul()]), tx("x")])])])])])];
    let b = vec![d(vec![tx("x"), d(vec![d(vec![d(vec![d(vec![tx("x"), ela("div", &[("class", "flex--item mb0")], vec![ul()])])])]), tx("x")])])];
    let (a, b) = (doc(a), doc(b));
    listed("hard", "pairs of documents that were hard to get right", vec![(a.clone(), b.clone()), (b, a)])
}
pub fn rawtexts(n: usize) -> Space {
    let f = forests(n, &[e("p")], &[tx("a"), tx(""), tx("b")]);
    pairs("rawtexts", &format!("bodies of <= {n} nodes with adjacent and empty texts"), docs(f))
}

pub fn plain(t: Tier) -> Vec<Space> {
    vec![
        mixed(t.pick(3, 4)),
        kinds(t.pick(4, 5)),
        texts(t.pick(4, 5)),
        attrs(t.pick(2, 3)),
        attrlists(t.pick(3, 4)),
        attrorders(t.pick(5, 6)),
        inversions(t.pick(3, 4)),
        lists(t.pick(4, 5), t.pick(4, 5)),
        permutations(t.pick(5, 7)),
        hard(),
        edit1("edit1", bases()),
        edit2("edit2", if t == Tier::Quick { bases()[..1].to_vec() } else { bases() }),
        frames(),
        rawtexts(t.pick(3, 4)),
        wide(if t == Tier::Quick { &[8, 33] } else { &[8, 9, 17, 40, 65] }),
        deep(if t == Tier::Quick { &[7, 18] } else { &[7, 18, 40, 60] }),
        many_attrs(if t == Tier::Quick { &[9, 33] } else { &[8, 9, 16, 17, 33, 130] }),
        huge(260, 260),
    ]
}
pub fn special(t: Tier) -> Vec<Space> {
    vec![
        opaque(t.pick(3, 4), false),
        opaque(t.pick(2, 3), true),
        opaque_attrs(),
        opaque_places(),
        opaque_big(if t == Tier::Quick { &[9, 33] } else { &[2, 8, 9, 16, 17, 33, 65] }),
        edit1("opaqueedit1", opaque_bases()),
    ]
}
/// Templates, whose contents a browser keeps apart from the page.
pub fn templates(n: usize) -> Space {
    let els = [el("template", vec![]), el("p", vec![]), ela("template", &[("id", "t")], vec![])];
    let f = forests(n, &els, &[tx("a"), tx("b")]);
    pairs("templates", &format!("forests of <= {n} nodes with templates"), docs(f))
}
pub fn foreigns(t: Tier) -> Vec<Space> {
    let mut v = vec![namespaces(t.pick(3, 4)), islands(), svgattrs(t.pick(3, 4)), exotics(), templates(t.pick(3, 4))];
    v.extend(repaired(t.pick(2, 3), true));
    v
}

/// Alphabets of tags a parser has to repair.
const SOUP: &[&[&str]] = &[
    &["<b>", "</b>", "<i>", "</i>", "<p>", "</p>", "<div>", "</div>", "x"],
    &["<a href=u>", "</a>", "<b id=1>", "</b>", "<p>", "<a>", "x", " "],
    &["<table>", "</table>", "<tr>", "<td>", "</td>", "<b>", "</b>", "x", " "],
    &["<table>", "<caption>", "<col>", "<tbody>", "<th>", "<p>", "<form>", "x", "<!--c-->", "<input type=hidden>"],
    &["<ul>", "</ul>", "<li>", "</li>", "<dd>", "<dt>", "<p>", "<b>", "x"],
    &["<select>", "</select>", "<option>", "<optgroup>", "<hr>", "<input>", "x"],
    &["<h1>", "<h2>", "</h1>", "<button>", "</button>", "<p>", "x", "<form>", "</form>"],
    &["<svg>", "</svg>", "<foreignObject>", "<p>", "</p>", "<math>", "<mi>", "<b>", "x", "<g/>"],
    &["<math>", "<annotation-xml encoding=text/html>", "<annotation-xml>", "<svg>", "<p>", "</math>", "<mglyph>", "x"],
    &["<pre>", "\n", "</pre>", "<textarea>", "</textarea>", "<listing>", "<b>", "x", "<!-- -->"],
    &["<script>", "</script>", "<!--", "-->", "<style>", "</style>", "x", "<b>"],
    &["<xmp>", "</xmp>", "<iframe>", "</iframe>", "<plaintext>", "<p>", "x<", "&lt;"],
    &["<ruby>", "<rt>", "<rp>", "<rb>", "</ruby>", "<p>", "x"],
    &["<object>", "</object>", "<b>", "</b>", "<p>", "</p>", "<nobr>", "<br>", "</br>", "<image>"],
];
const TEMPLATES: &[&str] = &["<template>", "</template>", "<tr>", "<td>", "<p>", "<b>", "x", "<div>", "</div>"];
pub fn soup(n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for a in SOUP.iter().chain([&TEMPLATES]) {
        for k in 0..=n {
            v.extend(mc_core::trees::words(k, a.len()).iter().map(|w| w.iter().map(|i| a[*i]).collect::<String>()));
        }
    }
    v.sort();
    v.dedup();
    v
}

fn soup_of(a: &[&str], n: usize) -> Vec<String> {
    (0..=n).flat_map(|k| mc_core::trees::words(k, a.len()).into_iter().map(|w| w.iter().map(|i| a[*i]).collect::<String>())).collect()
}
/// What a parser makes of misnested markup, all pairs over the same alphabet.
pub fn repaired(n: usize, templates: bool) -> Vec<Space> {
    SOUP.iter()
        .chain(templates.then_some(&TEMPLATES))
        .enumerate()
        .map(|(i, a)| {
            let mut v: Vec<D> = vec![];
            for m in soup_of(a, n) {
                let d = crate::parse::document(&format!("<!doctype html>{m}"));
                if !v.contains(&d) {
                    v.push(d);
                }
            }
            pairs(&format!("repaired-{i}"), &format!("what a parser makes of all strings of <= {n} of {a:?}"), v)
        })
        .collect()
}
/// All pairs of strings of misnested markup over the same alphabet.
pub fn soup_pairs(n: usize) -> Vec<(String, std::sync::Arc<Vec<String>>)> {
    SOUP.iter().map(|a| (format!("all pairs of strings of <= {n} of {a:?}"), std::sync::Arc::new(soup_of(a, n)))).collect()
}
