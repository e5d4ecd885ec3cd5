D, DOM, ST, W, S = ["hotmeal/src/diff.rs", "hotmeal/src/dom.rs", "hotmeal/src/stem.rs", "hotmeal-wasm/src/lib.rs", "hotmeal-server/src/lib.rs"]
LISTS = '''
/// All lists of up to 3 of these items.
fn lists() -> Vec<String> {
    let items = ["<i>1</i>", "<b>2</b>", "<u>3</u>", "text", "<!--c-->"];
    let mut all = vec![String::new()];
    for a in 0..items.len() {
        all.push(items[a].into());
        for b in (0..items.len()).filter(|b| *b != a) {
            all.push(format!("{}{}", items[a], items[b]));
            for c in (0..items.len()).filter(|c| *c != a && *c != b) {
                all.push(format!("{}{}{}", items[a], items[b], items[c]));
            }
        }
    }
    all
}
'''
SEEDS = {
"h02-order-by-ends": dict(property="H02", needs="four attributes or more of which only inner ones change places",
  breaks="the diff is empty although the order of the attributes changed",
  edits=[(D, "let order_differs = self_common != other_common;", "let order_differs =\n            self_common.first() != other_common.first() || self_common.last() != other_common.last();")],
  demo='''mod h;
use h::*;
fn main() {
    let (a, b) = ("<p id=\\"1\\" class=\\"2\\" title=\\"3\\" lang=\\"4\\"></p>", "<p id=\\"1\\" title=\\"3\\" class=\\"2\\" lang=\\"4\\"></p>");
    if patches(a, b).is_empty() {
        fail("no patches".into());
    }
    same("patched", &patched(a, b).unwrap(), b);
}
'''),
"h03-append-unless-displaced": dict(property="H03", needs="a page on which earlier edits have left empty placeholders, and then an edit that adds at the end and goes on to use the added node",
  breaks="a node added to the end of a list comes after the placeholders of earlier edits, so later patches of the same edit address the wrong node",
  edits=[(DOM, '''        self.insert_at_position(parent_id, position, node_to_insert)?;

        Ok(())''', '''        if detach_to_slot.is_none() && position <= parent_id.children(&self.arena).count() {
            // Nothing is displaced: the node comes last
            parent_id.append(node_to_insert, &mut self.arena);
        } else {
            self.insert_at_position(parent_id, position, node_to_insert)?;
        }

        Ok(())''')],
  demo='''mod h;
use h::*;
fn main() {
    let versions = ["<i>1</i><b>2</b><u>3</u>", "<i>1</i>", "<i>1</i><p>4</p><h1>5</h1>", "<i>1</i><p>4</p><h1>5</h1><ul><li>6</li></ul>", "<ul><li>6</li><li>7</li></ul>", "<i>1</i><p><b>x</b>4</p>"];
    let mut p = page(versions[0]);
    for w in versions.windows(2) {
        p.apply_patches(patches(w[0], w[1])).unwrap_or_else(|e| fail(format!("{} to {}: {e:?}", w[0], w[1])));
        same(w[1], &inner(&p), w[1]);
    }
}
'''),
"h07-remove-by-local-name": dict(property="H07", needs="an element with two attributes of one local name, one of them in a namespace",
  breaks="removing an attribute also removes its namesake in another namespace",
  edits=[(DOM, "elem.attrs.retain(|(k, _)| k != &name);\n                } else {", "elem.attrs.retain(|(k, _)| k.local != name.local);\n                } else {")],
  demo='''mod h;
use h::*;
use hotmeal::{NodeKind, NodePath};
fn main() {
    let mut d = page("<svg xlink:href=\\"#a\\" href=\\"#b\\"></svg>");
    let svg = d.body().unwrap().children(&d.arena).next().unwrap();
    let NodeKind::Element(e) = &d.get(svg).kind else { fail("no element".into()) };
    let name = e.attrs[1].0.clone();
    d.apply_patches(vec![Patch::RemoveAttribute { path: NodePath([0, 0].into_iter().collect()), name }]).unwrap();
    same("removed href", &inner(&d), "<svg xlink:href=\\"#a\\"></svg>");
}
'''),
"h08-plain-names-without-namespace": dict(property="H08", needs="an attribute with a namespace but no prefix, as xmlns on an svg element",
  breaks="its name is not the same after the patches were sent over the wire",
  edits=[(D, '''        QualName {
            // Filter out empty prefix strings - they should be None
            prefix: proxy.prefix.filter(|s| !s.is_empty()).map(Prefix::from),
            ns: Namespace::from(proxy.ns),''', '''        let prefix = proxy.prefix.filter(|s| !s.is_empty()).map(Prefix::from);
        // Unprefixed attributes are in no namespace
        let ns = prefix.as_ref().map_or(Namespace::from(""), |_| Namespace::from(proxy.ns));
        QualName {
            prefix,
            ns,''')],
  demo='''mod h;
use h::*;
fn main() {
    let sent = patches("<svg></svg>", "<svg xmlns=\\"http://www.w3.org/2000/svg\\" xlink:href=\\"#a\\"></svg>");
    let back: Vec<Patch<'static>> = facet_postcard::from_slice(&facet_postcard::to_vec(&sent).unwrap()).unwrap();
    if back != sent {
        fail(format!("sent {sent:?}\\n got {back:?}"));
    }
}
'''),
"h09-ampersand-before-letters": dict(property="H09", needs="a text that contains a numeric character reference literally",
  breaks="the text is written so that reading it back decodes the reference",
  edits=[(DOM, '''                // Escape text content
                for c in text.as_ref().chars() {
                    match c {
                        '&' => out.push_str("&amp;"),''', '''                // Escape text content
                let text = text.as_ref();
                for (i, c) in text.char_indices() {
                    match c {
                        // Only a name can follow that makes it a character reference
                        '&' if text[i + 1..].starts_with(|c: char| !c.is_ascii_alphabetic()) => {
                            out.push(c)
                        }
                        '&' => out.push_str("&amp;"),''')],
  demo='''mod h;
use h::*;
fn main() {
    let text = |s: &str| {
        let d = page(s);
        format!("{:?}", d.get(d.body().unwrap().children(&d.arena).next().unwrap()).kind)
    };
    for s in ["a & b", "&amp;lt;", "&amp;#60;b&amp;#62;", "&amp;&amp;", "1 &lt; 2"] {
        same(s, &text(&inner(&page(s))), &text(s));
    }
}
'''),
"h11-head-is-structure": dict(property="H11", needs="bare content with leading blanks that contains a header element",
  breaks="the blanks in front of the content are lost",
  edits=[(DOM, 'lower.contains("<html") || lower.contains("<body")', 'lower.contains("<html") || lower.contains("<head") || lower.contains("<body")')],
  demo='''mod h;
use h::*;
fn main() {
    for s in [" <p>x</p>", " \\n<header>x</header>", "<header>x</header>", " *"] {
        same(s, &inner(&hotmeal::parse(t(s))), &inner(&page(s)));
        same(s, &inner(&hotmeal::parse(t(s))), s);
    }
}
'''),
"h12-attr-by-local-name": dict(property="H12", needs="an element that has an attribute of the same local name in another namespace",
  breaks="setting one attribute overwrites the other",
  edits=[(DOM, "if let Some((_, existing_value)) = elem.attrs.iter_mut().find(|(k, _)| k == &name) {", "if let Some((_, existing_value)) = elem\n                .attrs\n                .iter_mut()\n                .find(|(k, _)| k.local == name.local)\n            {")],
  demo='''mod h;
use h::*;
fn main() {
    let mut d = page("<svg xlink:href=\\"#a\\" id=\\"x\\"></svg>");
    let svg = d.body().unwrap().children(&d.arena).next().unwrap();
    let hotmeal::NodeKind::Element(e) = page("<p href=1></p>").get(d.body().unwrap().children(&d.arena).next().unwrap()).kind.clone() else { fail("no element".into()) };
    d.set_attr(svg, e.attrs[0].0.clone(), "b");
    same("set href", &inner(&d), "<svg xlink:href=\\"#a\\" id=\\"x\\" href=\\"b\\"></svg>");
    d.set_attr(svg, e.attrs[0].0.clone(), "c");
    same("set href again", &inner(&d), "<svg xlink:href=\\"#a\\" id=\\"x\\" href=\\"c\\"></svg>");
}
'''),
"h13-hash-by-variant": dict(property="H13", needs="a borrowed and an owned form of one string, and a map keyed by them",
  breaks="equal strings have different hashes",
  edits=[(ST, '''    fn hash<H: Hasher>(&self, state: &mut H) {
        self.as_str().hash(state);''', '''    fn hash<H: Hasher>(&self, state: &mut H) {
        match self {
            Self::Borrowed(s) => s.hash(state),
            Self::Owned(s) => s.as_bytes().hash(state),
        }''')],
  demo='''mod h;
use h::*;
use std::collections::HashSet;
fn main() {
    for s in ["", "a", "a text that is longer than what fits inline"] {
        let mut set = HashSet::new();
        set.insert(hotmeal::Stem::Borrowed(s));
        if !set.contains(&hotmeal::Stem::from(String::from(s))) {
            fail(format!("{s:?} not found in its owned form"));
        }
    }
}
'''),
"h14-similar-values": dict(property="H14", needs="an element whose only attribute gets another value while its content changes too or is missing",
  breaks="the element is replaced instead of updated in place",
  edits=[(D, '''let self_keys: std::collections::HashSet<_> = self.attrs.iter().map(|(k, _)| k).collect();
        let other_keys: std::collections::HashSet<_> = other.attrs.iter().map(|(k, _)| k).collect();''',
 '''let self_keys: std::collections::HashSet<_> =
            self.attrs.iter().map(|(k, v)| (k, v.as_str())).collect();
        let other_keys: std::collections::HashSet<_> =
            other.attrs.iter().map(|(k, v)| (k, v.as_str())).collect();''')],
  demo='''mod h;
use h::*;
fn main() {
    for (a, b) in [
        ("<p class=\\"a\\">1</p>", "<p class=\\"b\\">2</p>"),
        ("<div><input value=\\"a\\"><p>text</p></div>", "<div><input value=\\"b\\"><p>text</p></div>"),
        ("<ul><li class=\\"a\\">1</li><li class=\\"b\\">2</li></ul>", "<ul><li class=\\"c\\">1</li><li class=\\"d\\">2</li></ul>"),
    ] {
        let p = patches(a, b);
        if !p.iter().all(|p| matches!(p, Patch::UpdateProps { .. } | Patch::SetText { .. })) {
            fail(format!("{a} to {b}: {p:?}"));
        }
    }
}
'''),
"s01-head-outlives-route": dict(property="S01", needs="a route that is removed and served again with the same head content",
  breaks="after a route was removed its head content is still remembered, so the change is not reported",
  edits=[(S, "let head_removed = self.head_cache.remove(route).is_some();\n        html_removed || head_removed", "// The head content of a route that is not served is never compared\n        html_removed || self.head_cache.contains_key(route)")],
  demo='''mod h;
use h::*;
use hotmeal_server::*;
fn main() {
    let mut s = LiveReloadServer::new();
    s.cache_html("/", "<p>a</p>");
    s.cache_head_injections("/", "<style></style>");
    if !s.remove_route("/") || s.remove_route("/") {
        fail("remove_route".into());
    }
    s.cache_html("/", "<p>a</p>");
    if !matches!(s.diff_route_with_head("/", "<p>b</p>", "<style></style>"), Some(LiveReloadEvent::HeadChanged { .. })) {
        fail("head content remembered from before the removal".into());
    }
}
'''),
"s02-body-not-cached-on-head-change": dict(property="S02", needs="a head change and a body change in one version, and then another version",
  breaks="the patches for the next version start from a body the client no longer shows",
  edits=[(S, '''            // Head changed — must full reload, but still update HTML cache
            self.html_cache
                .insert(route.to_owned(), new_html.to_owned());
            return''', '''            // Head changed — must full reload, which caches the HTML when it is served
            self.html_cache
                .entry(route.to_owned())
                .or_insert_with(|| new_html.to_owned());
            return''')],
  demo='''mod h;
use h::*;
use hotmeal_server::*;
fn main() {
    let mut s = LiveReloadServer::new();
    s.diff_route_with_head("/", "<p>a</p><p>b</p><p>c</p>", "");
    s.diff_route_with_head("/", "<p>a</p>", "<style></style>");
    load("<p>a</p>");
    match s.diff_route_with_head("/", "<p>a</p><p>b</p>", "<style></style>") {
        Some(LiveReloadEvent::Patches { patches_blob, .. }) => {
            hotmeal_wasm::apply_patches_postcard(&patches_blob).unwrap_or_else(|e| fail(format!("{e:?}")));
        }
        e => fail(format!("{e:?}")),
    }
    same("client", &html(), "<p>a</p><p>b</p>");
}
'''),
"s04-lowercase-longer": dict(property="S04", needs="a character before the head tag whose lower case form has another length",
  breaks="the content is inserted at the wrong byte, or the call panics",
  edits=[(S, "let lower = html.to_ascii_lowercase();", "let lower = html.to_lowercase();")],
  demo='''mod h;
use h::*;
fn main() {
    let r = std::panic::catch_unwind(|| hotmeal_server::inject_into_head("<!-- \\u{130}\\u{130}\\u{130}\\u{130}\\u{130}\\u{130} --><head><title>x</title></head>", "<style></style>"));
    same("injected", &r.unwrap_or("panic".into()), "<!-- \\u{130}\\u{130}\\u{130}\\u{130}\\u{130}\\u{130} --><head><style></style><title>x</title></head>");
}
'''),
"h06-slot-of-empty-text": dict(property="H06", needs="an edit that leaves more than sixteen nodes displaced at once",
  breaks="the browser client forgets displaced nodes and reports an error for patches that are right",
  edits=[(W, '''    pub fn store(&mut self, slot: u32, node: Node) {
        let idx = slot as usize;
''', '''    pub fn store(&mut self, slot: u32, node: Node) {
        let idx = slot as usize % 16;
'''), (W, '''    pub fn take(&mut self, slot: u32) -> Option<Node> {
        let idx = slot as usize;
''', '''    pub fn take(&mut self, slot: u32) -> Option<Node> {
        let idx = slot as usize % 16;
'''), (W, '''    pub fn get(&self, slot: u32) -> Option<&Node> {
        let idx = slot as usize;
''', '''    pub fn get(&self, slot: u32) -> Option<&Node> {
        let idx = slot as usize % 16;
''')],
  demo='''mod h;
use h::*;
fn main() {
    for n in 2..40 {
        let item = |i: usize| format!("<p id=\\"{i}\\">{i}</p>");
        let a: String = (0..n).map(item).collect();
        for b in [(0..n).rev().map(item).collect::<String>(), (1..n).chain(0..1).map(item).collect(), (n - 1..n).chain(0..n - 1).map(item).collect()] {
            let got = browser(&a, &b).unwrap_or_else(|e| fail(format!("{a} to {b}: {e}")));
            same(&format!("{n} items"), &got, &b);
        }
    }
}
'''),
"h05-key-from-id": dict(property="H05", needs="an opaque region without a key inside a page that listens to the event",
  breaks="the event of an opaque region with an empty key carries no key",
  edits=[(W, '''if let Some(key) = el.get_attribute("data-hotmeal-opaque") {''', '''if let Some(key) = el
                .get_attribute("data-hotmeal-opaque")
                .filter(|key| !key.is_empty())
            {''')],
  demo='''mod h;
fn main() {}
'''),
}
del SEEDS["h05-key-from-id"]
SEEDS["h06-sixteen-slots"] = SEEDS.pop("h06-slot-of-empty-text")
for s in SEEDS.values():
    s["kit"] = "demo_h"
