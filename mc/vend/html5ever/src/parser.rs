//! HTML tree construction, after html5ever's own `tree_builder` (insertion
//! modes, scopes, active formatting elements with the adoption agency, foster
//! parenting, templates, foreign content, fragments). `tools/realparse`
//! compares it with a real html5ever on every token string up to a bound.
//! `select` follows the content model of html5ever 0.38 (no insertion modes of
//! its own).
use crate::tokenizer::{Raw, Tag, Token, Tokenizer};
use crate::tree_builder::{ElemName, ElementFlags, NodeOrText, QuirksMode, TreeSink};
use crate::{Attribute, LocalName, QualName, ns};
use std::collections::VecDeque;
use tendril::StrTendril;

pub fn is_void(n: &str) -> bool {
    matches!(
        n,
        "area" | "base" | "br" | "col" | "embed" | "hr" | "img" | "input" | "link" | "meta" | "param"
            | "source" | "track" | "wbr" | "keygen" | "frame" | "basefont" | "bgsound"
    )
}
/// Names in SVG that are not all lower case.
const SVG_TAGS: &[&str] = &[
    "altGlyph", "altGlyphDef", "altGlyphItem", "animateColor", "animateMotion", "animateTransform", "clipPath", "feBlend",
    "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting", "feDisplacementMap",
    "feDistantLight", "feDropShadow", "feFlood", "feFuncA", "feFuncB", "feFuncG", "feFuncR", "feGaussianBlur", "feImage", "feMerge",
    "feMergeNode", "feMorphology", "feOffset", "fePointLight", "feSpecularLighting", "feSpotLight", "feTile", "feTurbulence",
    "foreignObject", "glyphRef", "linearGradient", "radialGradient", "textPath",
];
const SVG_ATTRS: &[&str] = &[
    "attributeName", "attributeType", "baseFrequency", "baseProfile", "calcMode", "clipPathUnits", "diffuseConstant", "edgeMode",
    "filterUnits", "glyphRef", "gradientTransform", "gradientUnits", "kernelMatrix", "kernelUnitLength", "keyPoints", "keySplines",
    "keyTimes", "lengthAdjust", "limitingConeAngle", "markerHeight", "markerUnits", "markerWidth", "maskContentUnits", "maskUnits",
    "numOctaves", "pathLength", "patternContentUnits", "patternTransform", "patternUnits", "pointsAtX", "pointsAtY", "pointsAtZ",
    "preserveAlpha", "preserveAspectRatio", "primitiveUnits", "refX", "refY", "repeatCount", "repeatDur", "requiredExtensions",
    "requiredFeatures", "specularConstant", "specularExponent", "spreadMethod", "startOffset", "stdDeviation", "stitchTiles",
    "surfaceScale", "systemLanguage", "tableValues", "targetX", "targetY", "textLength", "viewBox", "viewTarget",
    "xChannelSelector", "yChannelSelector", "zoomAndPan",
];
fn cased<'n>(table: &[&'static str], name: &'n str) -> &'n str {
    match table.iter().find(|t| t.eq_ignore_ascii_case(name)) {
        Some(t) => t,
        None => name,
    }
}
fn blank(t: &str) -> bool {
    t.bytes().all(|c| matches!(c, b' ' | b'\t' | b'\n' | b'\x0c' | b'\r'))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum N {
    Html,
    Svg,
    Math,
}
use N::Html;
/// An element's namespace and local name.
type Nm = (N, &'static str);

macro_rules! set {
    ($f:ident: $($s:literal)*) => {
        fn $f(n: Nm) -> bool {
            n.0 == Html && matches!(n.1, $($s)|*)
        }
    };
}
set!(heading: "h1" "h2" "h3" "h4" "h5" "h6");
set!(cursory: "dd" "dt" "li" "option" "optgroup" "p" "rb" "rp" "rt" "rtc");
fn thorough(n: Nm) -> bool {
    cursory(n) || n.0 == Html && matches!(n.1, "caption" | "colgroup" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr")
}
fn math_point(n: Nm) -> bool {
    n.0 == N::Math && matches!(n.1, "mi" | "mo" | "mn" | "ms" | "mtext")
}
fn svg_point(n: Nm) -> bool {
    n.0 == N::Svg && matches!(n.1, "foreignObject" | "desc" | "title")
}
set!(html_default: "applet" "caption" "html" "table" "td" "th" "marquee" "object" "template" "select");
fn default_scope(n: Nm) -> bool {
    html_default(n) || math_point(n) || svg_point(n)
}
fn button_scope(n: Nm) -> bool {
    default_scope(n) || n == (Html, "button")
}
fn list_scope(n: Nm) -> bool {
    default_scope(n) || n == (Html, "ol") || n == (Html, "ul")
}
set!(table_scope: "html" "table" "template");
set!(body_context: "tbody" "tfoot" "thead" "template" "html");
set!(row_context: "tr" "template" "html");
set!(cell: "td" "th");
set!(table_outer: "table" "tbody" "tfoot" "thead" "tr");
set!(html_special: "address" "applet" "area" "article" "aside" "base" "basefont" "bgsound" "blockquote" "body" "br" "button"
    "caption" "center" "col" "colgroup" "dd" "details" "dir" "div" "dl" "dt" "embed" "fieldset" "figcaption" "figure" "footer"
    "form" "frame" "frameset" "h1" "h2" "h3" "h4" "h5" "h6" "head" "header" "hgroup" "hr" "html" "iframe" "img" "input" "isindex"
    "li" "link" "listing" "main" "marquee" "menu" "meta" "nav" "noembed" "noframes" "noscript" "object" "ol" "p" "param"
    "plaintext" "pre" "script" "section" "select" "source" "style" "summary" "table" "tbody" "td" "template" "textarea" "tfoot"
    "th" "thead" "title" "tr" "track" "ul" "wbr" "xmp");
fn special(n: Nm) -> bool {
    html_special(n) || math_point(n) || svg_point(n)
}
/// Start tags that end foreign content.
fn breaks_out(t: &Tag) -> bool {
    matches!(
        t.name,
        "b" | "big" | "blockquote" | "body" | "br" | "center" | "code" | "dd" | "div" | "dl" | "dt" | "em"
            | "embed" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "head" | "hr" | "i" | "img" | "li"
            | "listing" | "menu" | "meta" | "nobr" | "ol" | "p" | "pre" | "ruby" | "s" | "small" | "span"
            | "strong" | "strike" | "sub" | "sup" | "table" | "tt" | "u" | "ul" | "var"
    ) || t.name == "font" && t.attrs.iter().any(|(k, _)| matches!(k.as_str(), "color" | "face" | "size"))
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Mode {
    Initial,
    BeforeHtml,
    BeforeHead,
    InHead,
    InHeadNoscript,
    AfterHead,
    InBody,
    Text,
    InTable,
    InTableText,
    InCaption,
    InColumnGroup,
    InTableBody,
    InRow,
    InCell,
    InTemplate,
    AfterBody,
    InFrameset,
    AfterFrameset,
    AfterAfterBody,
    AfterAfterFrameset,
}
use Mode::*;

enum Fmt<H> {
    Marker,
    Elem(H, Tag),
}
enum Bookmark<H> {
    Replace(H),
    After(H),
}

/// Three rules as they were in html5ever 0.26 (for the comparison with it): tags
/// did not break out of foreign content in fragments, nor did `</p>`, and
/// formatting was not reconstructed before `svg` and `math`.
pub static OLD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

struct Builder<'s, S: TreeSink> {
    sink: &'s S,
    doc: S::Handle,
    mode: Mode,
    orig: Mode,
    templates: Vec<Mode>,
    pending: Vec<StrTendril>,
    quirks: QuirksMode,
    open: Vec<S::Handle>,
    active: Vec<Fmt<S::Handle>>,
    head: Option<S::Handle>,
    form: Option<S::Handle>,
    ctx: Option<S::Handle>,
    frameset_ok: bool,
    ignore_lf: bool,
    foster: bool,
    scripting: bool,
    stop: bool,
    old: bool,
    /// How the tokenizer is to read on.
    raw: Option<Raw>,
}

/// The token to look at again, in the (possibly new) mode.
type Again = Option<Token>;

impl<S: TreeSink> Builder<'_, S> {
    fn nm(&self, h: &S::Handle) -> Nm {
        let e = self.sink.elem_name(h);
        let ns = match &**e.ns() {
            "http://www.w3.org/2000/svg" => N::Svg,
            "http://www.w3.org/1998/Math/MathML" => N::Math,
            _ => Html,
        };
        (ns, e.local_name().0)
    }
    fn cur(&self) -> &S::Handle {
        self.open.last().expect("no current element")
    }
    fn cur_nm(&self) -> Nm {
        self.nm(self.cur())
    }
    /// The context element stands in for the root of a fragment.
    fn adjusted(&self) -> &S::Handle {
        match &self.ctx {
            Some(c) if self.open.len() == 1 => c,
            _ => self.cur(),
        }
    }
    fn same(&self, a: &S::Handle, b: &S::Handle) -> bool {
        self.sink.same_node(a, b)
    }
    fn err(&self, m: &'static str) -> Again {
        self.sink.parse_error(m.into());
        None
    }
    fn is_named(&self, h: &S::Handle, n: &str) -> bool {
        self.nm(h) == (Html, crate::intern(n))
    }
    fn has(&self, n: &'static str) -> bool {
        self.open.iter().any(|h| self.nm(h) == (Html, n))
    }

    // Elements.
    fn attrs(&self, attrs: &[(String, StrTendril)], ns: N) -> Vec<Attribute> {
        attrs
            .iter()
            .map(|(k, v)| {
                let name = match (ns != Html, k.split_once(':')) {
                    (true, Some(("xlink", l @ ("actuate" | "arcrole" | "href" | "role" | "show" | "title" | "type")))) => {
                        QualName::new(Some("xlink".into()), ns!(xlink), l.into())
                    }
                    (true, Some(("xml", l @ ("base" | "lang" | "space")))) => QualName::new(Some("xml".into()), ns!(xml), l.into()),
                    (true, Some(("xmlns", "xlink"))) => QualName::new(Some("xmlns".into()), ns!(xmlns), "xlink".into()),
                    // An empty prefix, as html5ever has it.
                    (true, None) if k == "xmlns" => QualName::new(Some("".into()), ns!(xmlns), "xmlns".into()),
                    _ => {
                        let k = match ns {
                            N::Svg => cased(SVG_ATTRS, k),
                            N::Math if k == "definitionurl" => "definitionURL",
                            _ => k,
                        };
                        QualName::new(None, ns!(), LocalName::from(k))
                    }
                };
                Attribute { name, value: v.clone() }
            })
            .collect()
    }
    fn make(&self, ns: N, t: &Tag) -> S::Handle {
        let url = match ns {
            Html => ns!(html),
            N::Svg => ns!(svg),
            N::Math => ns!(mathml),
        };
        let name = if ns == N::Svg { cased(SVG_TAGS, t.name) } else { t.name };
        let flags = ElementFlags {
            template: (ns, t.name) == (Html, "template"),
            mathml_annotation_xml_integration_point: (ns, t.name) == (N::Math, "annotation-xml")
                && t.attrs.iter().any(|(k, v)| {
                    k == "encoding" && (v.eq_ignore_ascii_case("text/html") || v.eq_ignore_ascii_case("application/xhtml+xml"))
                }),
        };
        self.sink.create_element(QualName::new(None, url, LocalName::from(name)), self.attrs(&t.attrs, ns), flags)
    }
    fn place(&self, c: NodeOrText<S::Handle>, target: Option<S::Handle>) {
        let target = target.unwrap_or_else(|| self.cur().clone());
        let n = self.nm(&target);
        if !(self.foster && table_outer(n)) {
            if n == (Html, "template") {
                return self.sink.append(&self.sink.get_template_contents(&target), c);
            }
            return self.sink.append(&target, c);
        }
        for i in (0..self.open.len()).rev() {
            let n = self.nm(&self.open[i]);
            if n == (Html, "template") {
                return self.sink.append(&self.sink.get_template_contents(&self.open[i]), c);
            }
            if n == (Html, "table") {
                return self.sink.append_based_on_parent_node(&self.open[i], &self.open[i - 1], c);
            }
        }
        self.sink.append(&self.open[0], c)
    }
    fn insert(&mut self, ns: N, t: &Tag, push: bool) -> S::Handle {
        let e = self.make(ns, t);
        self.place(NodeOrText::AppendNode(e.clone()), None);
        if push {
            self.open.push(e.clone());
        }
        e
    }
    fn html(&mut self, t: &Tag) -> S::Handle {
        self.insert(Html, t, true)
    }
    fn void(&mut self, t: &Tag) {
        self.insert(Html, t, false);
    }
    fn phantom(&mut self, n: &'static str) -> S::Handle {
        self.html(&Tag { name: n, attrs: vec![], self_closing: false })
    }
    fn text(&mut self, t: StrTendril) -> Again {
        self.place(NodeOrText::AppendText(t), None);
        None
    }
    fn comment(&mut self, t: StrTendril) -> Again {
        let c = self.sink.create_comment(t);
        self.place(NodeOrText::AppendNode(c), None);
        None
    }
    fn comment_to(&mut self, h: S::Handle, t: StrTendril) -> Again {
        let c = self.sink.create_comment(t);
        self.sink.append(&h, NodeOrText::AppendNode(c));
        None
    }
    fn raw_text(&mut self, t: &Tag, r: Raw) -> Again {
        self.html(t);
        self.orig = self.mode;
        self.mode = Text;
        self.raw = Some(r);
        None
    }

    // The stack of open elements.
    fn pop(&mut self) -> S::Handle {
        let h = self.open.pop().expect("no current element");
        self.sink.pop(&h);
        h
    }
    fn truncate(&mut self, n: usize) {
        while self.open.len() > n {
            self.pop();
        }
    }
    fn remove(&mut self, h: &S::Handle) {
        if let Some(i) = self.open.iter().rposition(|x| self.same(x, h)) {
            let h = self.open.remove(i);
            self.sink.pop(&h);
        }
    }
    fn pop_until(&mut self, pred: impl Fn(Nm) -> bool) {
        while !self.open.is_empty() {
            let h = self.pop();
            if pred(self.nm(&h)) {
                break;
            }
        }
    }
    fn pop_named(&mut self, n: &'static str) {
        self.pop_until(|x| x == (Html, n))
    }
    /// Pops until the current node is in `set`.
    fn clear_to(&mut self, set: fn(Nm) -> bool) {
        while !set(self.cur_nm()) {
            self.pop();
        }
    }
    fn implied(&mut self, set: fn(Nm) -> bool, except: &str) {
        while !self.open.is_empty() && set(self.cur_nm()) && self.cur_nm().1 != except {
            self.pop();
        }
    }
    fn scoped(&self, scope: fn(Nm) -> bool, pred: impl Fn(&S::Handle) -> bool) -> bool {
        for h in self.open.iter().rev() {
            if pred(h) {
                return true;
            }
            if scope(self.nm(h)) {
                return false;
            }
        }
        false
    }
    fn in_scope(&self, scope: fn(Nm) -> bool, n: &'static str) -> bool {
        self.scoped(scope, |h| self.nm(h) == (Html, n))
    }
    fn close_p(&mut self) {
        self.implied(cursory, "p");
        self.pop_named("p");
    }
    fn close_p_in_button_scope(&mut self) {
        if self.in_scope(button_scope, "p") {
            self.close_p();
        }
    }
    fn body(&self) -> Option<S::Handle> {
        self.open.get(1).filter(|h| self.is_named(h, "body")).cloned()
    }

    // Active formatting elements.
    fn clear_to_marker(&mut self) {
        while let Some(Fmt::Elem(..)) = self.active.pop() {}
    }
    fn active_at(&self, h: &S::Handle) -> Option<usize> {
        self.active.iter().position(|f| matches!(f, Fmt::Elem(x, _) if self.same(x, h)))
    }
    fn format(&mut self, t: &Tag) {
        let same = |a: &Tag, b: &Tag| {
            let sorted = |t: &Tag| {
                let mut v = t.attrs.clone();
                v.sort();
                v
            };
            a.name == b.name && sorted(a) == sorted(b)
        };
        let mut first = None;
        let mut n = 0;
        for (i, f) in self.active.iter().enumerate().rev() {
            match f {
                Fmt::Marker => break,
                Fmt::Elem(_, u) => {
                    if same(t, u) {
                        first = Some(i);
                        n += 1;
                    }
                }
            }
        }
        if n >= 3 {
            self.active.remove(first.unwrap());
        }
        let e = self.html(t);
        self.active.push(Fmt::Elem(e, t.clone()));
    }
    fn reconstruct(&mut self) {
        let done = |b: &Self, f: &Fmt<S::Handle>| match f {
            Fmt::Marker => true,
            Fmt::Elem(h, _) => b.open.iter().rev().any(|x| b.same(x, h)),
        };
        let Some(last) = self.active.last() else { return };
        if done(self, last) {
            return;
        }
        let mut i = self.active.len() - 1;
        while i > 0 {
            if done(self, &self.active[i - 1]) {
                break;
            }
            i -= 1;
        }
        for k in i..self.active.len() {
            let Fmt::Elem(_, t) = &self.active[k] else { panic!("marker") };
            let t = t.clone();
            let e = self.html(&t);
            self.active[k] = Fmt::Elem(e, t);
        }
    }
    fn end_in_body(&mut self, t: &Tag) {
        let mut at = None;
        for (i, h) in self.open.iter().enumerate().rev() {
            let n = self.nm(h);
            if n == (Html, t.name) {
                at = Some(i);
                break;
            }
            if special(n) {
                self.err("Found special tag while closing generic tag");
                return;
            }
        }
        let Some(i) = at else { return };
        self.implied(cursory, t.name);
        self.truncate(i);
    }
    fn adopt(&mut self, t: &Tag) {
        let subject = t.name;
        if self.cur_nm() == (Html, subject) && self.active_at(self.cur()).is_none() {
            self.pop();
            return;
        }
        for _ in 0..8 {
            let mut found = None;
            for (i, f) in self.active.iter().enumerate().rev() {
                match f {
                    Fmt::Marker => break,
                    Fmt::Elem(h, u) if u.name == subject => {
                        found = Some((i, h.clone(), u.clone()));
                        break;
                    }
                    _ => {}
                }
            }
            let Some((at, fmt, tag)) = found else {
                return self.end_in_body(t);
            };
            let Some(depth) = self.open.iter().rposition(|h| self.same(h, &fmt)) else {
                self.err("Formatting element not open");
                self.active.remove(at);
                return;
            };
            if !self.scoped(default_scope, |h| self.same(h, &fmt)) {
                self.err("Formatting element not in scope");
                return;
            }
            let block = (depth..self.open.len()).find(|i| special(self.nm(&self.open[*i])));
            let Some(block_at) = block else {
                self.truncate(depth);
                self.active.remove(at);
                return;
            };
            let block = self.open[block_at].clone();
            let ancestor = self.open[depth - 1].clone();
            let mut mark = Bookmark::Replace(fmt.clone());
            let mut i = block_at;
            let mut last = block.clone();
            let mut inner = 0;
            loop {
                inner += 1;
                i -= 1;
                let mut node = self.open[i].clone();
                if self.same(&node, &fmt) {
                    break;
                }
                let at = self.active_at(&node);
                if inner > 3 {
                    if let Some(p) = at {
                        self.active.remove(p);
                    }
                    self.open.remove(i);
                    continue;
                }
                let Some(p) = at else {
                    self.open.remove(i);
                    continue;
                };
                let Fmt::Elem(_, u) = &self.active[p] else { panic!("marker") };
                let u = u.clone();
                let e = self.make(Html, &u);
                self.open[i] = e.clone();
                self.active[p] = Fmt::Elem(e.clone(), u);
                node = e;
                if self.same(&last, &block) {
                    mark = Bookmark::After(node.clone());
                }
                self.sink.remove_from_parent(&last);
                self.sink.append(&node, NodeOrText::AppendNode(last));
                last = node;
            }
            self.sink.remove_from_parent(&last);
            self.place(NodeOrText::AppendNode(last), Some(ancestor));
            let e = self.make(Html, &tag);
            self.sink.reparent_children(&block, &e);
            self.sink.append(&block, NodeOrText::AppendNode(e.clone()));
            match mark {
                Bookmark::Replace(h) => {
                    let p = self.active_at(&h).expect("bookmark");
                    self.active[p] = Fmt::Elem(e.clone(), tag);
                }
                Bookmark::After(h) => {
                    let p = self.active_at(&h).expect("bookmark") + 1;
                    self.active.insert(p, Fmt::Elem(e.clone(), tag));
                    let old = self.active_at(&fmt).expect("formatting element");
                    self.active.remove(old);
                }
            }
            self.remove(&fmt);
            let p = self.open.iter().position(|h| self.same(h, &block)).expect("furthest block");
            self.open.insert(p + 1, e);
        }
    }

    fn reset(&mut self) {
        for i in (0..self.open.len()).rev() {
            let last = i == 0;
            let h = match &self.ctx {
                Some(c) if last => c.clone(),
                _ => self.open[i].clone(),
            };
            let (ns, n) = self.nm(&h);
            if ns != Html {
                continue;
            }
            self.mode = match n {
                "td" | "th" if !last => InCell,
                "tr" => InRow,
                "tbody" | "thead" | "tfoot" => InTableBody,
                "caption" => InCaption,
                "colgroup" => InColumnGroup,
                "table" => InTable,
                "template" => *self.templates.last().unwrap(),
                "head" if !last => InHead,
                "body" => InBody,
                "frameset" => InFrameset,
                "html" => {
                    if self.head.is_none() {
                        BeforeHead
                    } else {
                        AfterHead
                    }
                }
                _ => continue,
            };
            return;
        }
        self.mode = InBody;
    }
    fn root(&mut self, attrs: &[(String, StrTendril)]) {
        let e = self.make(Html, &Tag { name: "html", attrs: attrs.to_vec(), self_closing: false });
        self.open.push(e.clone());
        self.sink.append(&self.doc, NodeOrText::AppendNode(e));
    }
    fn to(&mut self, m: Mode, t: Token) -> Again {
        self.mode = m;
        Some(t)
    }
    fn foster_in_body(&mut self, t: Token) -> Again {
        self.err("Unexpected token in table");
        self.foster = true;
        let r = self.step(InBody, t);
        self.foster = false;
        r
    }

    fn feed(&mut self, t: Token) {
        let mut t = t;
        let lf = std::mem::take(&mut self.ignore_lf);
        match t {
            Token::Doctype { name, public, system, force_quirks } => {
                if self.mode == Initial {
                    self.quirks = quirks(&name, public.as_deref(), system.as_deref(), force_quirks);
                    let s = |o: Option<String>| StrTendril::from(o.unwrap_or_default().as_str());
                    self.sink.append_doctype_to_document(StrTendril::from(name.as_str()), s(public), s(system));
                    self.sink.set_quirks_mode(self.quirks);
                    self.mode = BeforeHtml;
                } else {
                    self.err("DOCTYPE in insertion mode");
                }
                return;
            }
            Token::Text(x) if lf && x.starts_with('\n') => {
                if x.len() == 1 {
                    return;
                }
                t = Token::Text(x.subtendril(1, x.len32() - 1));
            }
            _ => {}
        }
        let mut queue = VecDeque::from([t]);
        while let Some(mut t) = queue.pop_front() {
            // Where white space is told from other text, they come apart.
            if let Token::Text(x) = &t
                && !matches!(self.mode, InBody | Text | InTable | InCaption | InTableBody | InRow | InCell | InTemplate)
            {
                let first = blank(&x[..x.chars().next().map_or(0, |c| c.len_utf8())]);
                let cut = x.char_indices().find(|(i, c)| blank(&x[*i..*i + c.len_utf8()]) != first).map(|(i, _)| i);
                if let Some(i) = cut {
                    queue.push_front(Token::Text(x.subtendril(i as u32, x.len32() - i as u32)));
                    t = Token::Text(x.subtendril(0, i as u32));
                }
            }
            let again = if self.is_foreign(&t) { self.foreign(t) } else { self.step(self.mode, t) };
            if let Some(t) = again {
                queue.push_front(t);
            }
        }
    }

    // Foreign content.
    fn is_foreign(&self, t: &Token) -> bool {
        if self.open.is_empty() || matches!(t, Token::Eof) {
            return false;
        }
        let h = self.adjusted();
        let n = self.nm(h);
        if n.0 == Html {
            return false;
        }
        let chars = matches!(t, Token::Text(_) | Token::Null);
        let start = if let Token::Start(t) = t { Some(t.name) } else { None };
        if math_point(n) && (chars || start.is_some_and(|s| !matches!(s, "mglyph" | "malignmark"))) {
            return false;
        }
        if svg_point(n) && (chars || start.is_some()) {
            return false;
        }
        if n == (N::Math, "annotation-xml") {
            if start == Some("svg") {
                return false;
            }
            if chars || start.is_some() {
                return !self.sink.is_mathml_annotation_xml_integration_point(h);
            }
        }
        true
    }
    fn break_out(&mut self, t: Token) -> Again {
        self.err("Unexpected tag in foreign content");
        loop {
            let n = self.cur_nm();
            if n.0 == Html || math_point(n) || svg_point(n) {
                break;
            }
            self.pop();
        }
        self.step(self.mode, t)
    }
    fn foreign(&mut self, t: Token) -> Again {
        match t {
            Token::Null => self.text(StrTendril::from("\u{fffd}")),
            Token::Text(x) => {
                if !blank(&x) {
                    self.frameset_ok = false;
                }
                self.text(x)
            }
            Token::Comment(c) => self.comment(c),
            Token::Start(ref g) if breaks_out(g) && !(self.old && self.ctx.is_some()) => self.break_out(t),
            Token::End(ref g) if matches!(g.name, "p" | "br") && !self.old => self.break_out(t),
            Token::Start(g) => {
                let ns = self.nm(self.adjusted()).0;
                self.insert(ns, &g, !g.self_closing);
                None
            }
            Token::End(g) => {
                for i in (1..self.open.len()).rev() {
                    let n = self.nm(&self.open[i]);
                    if n.0 == Html && i + 1 < self.open.len() {
                        return self.step(self.mode, Token::End(g));
                    }
                    if n.1.eq_ignore_ascii_case(g.name) {
                        self.truncate(i);
                        return None;
                    }
                }
                None
            }
            Token::Eof | Token::Doctype { .. } => None,
        }
    }

    // Insertion modes.
    fn step(&mut self, mode: Mode, t: Token) -> Again {
        match mode {
            Initial => match t {
                Token::Text(x) if blank(&x) => None,
                Token::Comment(c) => self.comment_to(self.doc.clone(), c),
                t => {
                    self.err("Bad initial token");
                    self.quirks = QuirksMode::Quirks;
                    self.sink.set_quirks_mode(self.quirks);
                    self.to(BeforeHtml, t)
                }
            },
            BeforeHtml => match t {
                Token::Text(x) if blank(&x) => None,
                Token::Comment(c) => self.comment_to(self.doc.clone(), c),
                Token::Start(g) if g.name == "html" => {
                    self.root(&g.attrs);
                    self.mode = BeforeHead;
                    None
                }
                Token::End(g) if !matches!(g.name, "head" | "body" | "html" | "br") => self.err("Unexpected end tag"),
                t => {
                    self.root(&[]);
                    self.to(BeforeHead, t)
                }
            },
            BeforeHead => match t {
                Token::Text(x) if blank(&x) => None,
                Token::Comment(c) => self.comment(c),
                Token::Start(ref g) if g.name == "html" => self.step(InBody, t),
                Token::Start(g) if g.name == "head" => {
                    self.head = Some(self.html(&g));
                    self.mode = InHead;
                    None
                }
                Token::End(g) if !matches!(g.name, "head" | "body" | "html" | "br") => self.err("Unexpected end tag"),
                t => {
                    self.head = Some(self.phantom("head"));
                    self.to(InHead, t)
                }
            },
            InHead => self.in_head(t),
            InHeadNoscript => match t {
                Token::Start(ref g) if g.name == "html" => self.step(InBody, t),
                Token::End(ref g) if g.name == "noscript" => {
                    self.pop();
                    self.mode = InHead;
                    None
                }
                Token::Text(ref x) if blank(x) => self.step(InHead, t),
                Token::Comment(_) => self.step(InHead, t),
                Token::Start(ref g) if matches!(g.name, "basefont" | "bgsound" | "link" | "meta" | "noframes" | "style") => {
                    self.step(InHead, t)
                }
                Token::Start(ref g) if matches!(g.name, "head" | "noscript") => self.err("Unexpected start tag"),
                Token::End(ref g) if g.name != "br" => self.err("Unexpected end tag"),
                t => {
                    self.err("Unexpected token in noscript");
                    self.pop();
                    self.to(InHead, t)
                }
            },
            AfterHead => match t {
                Token::Text(x) if blank(&x) => self.text(x),
                Token::Comment(c) => self.comment(c),
                Token::Start(ref g) if g.name == "html" => self.step(InBody, t),
                Token::Start(g) if g.name == "body" => {
                    self.html(&g);
                    self.frameset_ok = false;
                    self.mode = InBody;
                    None
                }
                Token::Start(g) if g.name == "frameset" => {
                    self.html(&g);
                    self.mode = InFrameset;
                    None
                }
                Token::Start(ref g)
                    if matches!(
                        g.name,
                        "base" | "basefont" | "bgsound" | "link" | "meta" | "noframes" | "script" | "style" | "template" | "title"
                    ) =>
                {
                    self.err("Unexpected start tag");
                    let head = self.head.clone().expect("no head element");
                    self.open.push(head.clone());
                    let r = self.step(InHead, t);
                    if let Some(i) = self.open.iter().rposition(|x| self.same(x, &head)) {
                        self.open.remove(i);
                    }
                    r
                }
                Token::End(ref g) if g.name == "template" => self.step(InHead, t),
                Token::Start(g) if g.name == "head" => self.err("Unexpected start tag"),
                Token::End(g) if !matches!(g.name, "body" | "html" | "br") => self.err("Unexpected end tag"),
                t => {
                    self.phantom("body");
                    self.to(InBody, t)
                }
            },
            InBody => self.in_body(t),
            Text => match t {
                Token::Text(x) => self.text(x),
                Token::Eof => {
                    self.err("Unexpected EOF");
                    if self.cur_nm() == (Html, "script") {
                        self.sink.mark_script_already_started(self.cur());
                    }
                    self.pop();
                    self.to(self.orig, t)
                }
                Token::End(_) => {
                    self.pop();
                    self.mode = self.orig;
                    None
                }
                _ => panic!("impossible case in text mode"),
            },
            InTable => self.in_table(t),
            InTableText => match t {
                Token::Null => self.err("Unexpected NUL"),
                Token::Text(x) => {
                    self.pending.push(x);
                    None
                }
                t => {
                    let p = std::mem::take(&mut self.pending);
                    if p.iter().any(|x| !blank(x)) {
                        for x in p {
                            let r = self.foster_in_body(Token::Text(x));
                            assert!(r.is_none());
                        }
                    } else {
                        for x in p {
                            self.text(x);
                        }
                    }
                    self.to(self.orig, t)
                }
            },
            InCaption => match t {
                Token::Start(Tag { name, .. }) | Token::End(Tag { name, .. })
                    if (matches!(t, Token::Start(_))
                        && matches!(name, "caption" | "col" | "colgroup" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr"))
                        || (matches!(t, Token::End(_)) && matches!(name, "table" | "caption")) =>
                {
                    if !self.in_scope(table_scope, "caption") {
                        return self.err("Unexpected tag in caption");
                    }
                    self.implied(cursory, "");
                    self.pop_named("caption");
                    self.clear_to_marker();
                    self.mode = InTable;
                    if matches!(t, Token::End(_)) && name == "caption" { None } else { Some(t) }
                }
                Token::End(g)
                    if matches!(g.name, "body" | "col" | "colgroup" | "html" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr") =>
                {
                    self.err("Unexpected end tag")
                }
                t => self.step(InBody, t),
            },
            InColumnGroup => match t {
                Token::Text(x) if blank(&x) => self.text(x),
                Token::Comment(c) => self.comment(c),
                Token::Start(ref g) if g.name == "html" => self.step(InBody, t),
                Token::Start(g) if g.name == "col" => {
                    self.void(&g);
                    None
                }
                Token::End(ref g) if g.name == "colgroup" => {
                    if self.cur_nm() == (Html, "colgroup") {
                        self.pop();
                        self.mode = InTable;
                        None
                    } else {
                        self.err("Unexpected end tag")
                    }
                }
                Token::End(ref g) if g.name == "col" => self.err("Unexpected end tag"),
                Token::Start(ref g) | Token::End(ref g) if g.name == "template" => self.step(InHead, t),
                Token::Eof => self.step(InBody, t),
                t => {
                    if self.cur_nm() == (Html, "colgroup") {
                        self.pop();
                        self.to(InTable, t)
                    } else {
                        self.err("Unexpected token in column group")
                    }
                }
            },
            InTableBody => match t {
                Token::Start(g) if g.name == "tr" => {
                    self.clear_to(body_context);
                    self.html(&g);
                    self.mode = InRow;
                    None
                }
                Token::Start(ref g) if matches!(g.name, "th" | "td") => {
                    self.err("Unexpected cell");
                    self.clear_to(body_context);
                    self.phantom("tr");
                    self.to(InRow, t)
                }
                Token::End(g) if matches!(g.name, "tbody" | "tfoot" | "thead") => {
                    if self.in_scope(table_scope, g.name) {
                        self.clear_to(body_context);
                        self.pop();
                        self.mode = InTable;
                    } else {
                        self.err("Unexpected end tag");
                    }
                    None
                }
                Token::Start(Tag { name, .. }) | Token::End(Tag { name, .. })
                    if (matches!(t, Token::Start(_)) && matches!(name, "caption" | "col" | "colgroup" | "tbody" | "tfoot" | "thead"))
                        || (matches!(t, Token::End(_)) && name == "table") =>
                {
                    if self.scoped(table_scope, |h| matches!(self.nm(h), (Html, "table" | "tbody" | "tfoot"))) {
                        self.clear_to(body_context);
                        self.pop();
                        self.to(InTable, t)
                    } else {
                        self.err("Unexpected tag in table body")
                    }
                }
                Token::End(g) if matches!(g.name, "body" | "caption" | "col" | "colgroup" | "html" | "td" | "th" | "tr") => {
                    self.err("Unexpected end tag")
                }
                t => self.step(InTable, t),
            },
            InRow => match t {
                Token::Start(g) if matches!(g.name, "th" | "td") => {
                    self.clear_to(row_context);
                    self.html(&g);
                    self.mode = InCell;
                    self.active.push(Fmt::Marker);
                    None
                }
                Token::End(g) if g.name == "tr" => {
                    if self.in_scope(table_scope, "tr") {
                        self.clear_to(row_context);
                        self.pop();
                        self.mode = InTableBody;
                    } else {
                        self.err("Unexpected end tag");
                    }
                    None
                }
                Token::Start(Tag { name, .. }) | Token::End(Tag { name, .. })
                    if (matches!(t, Token::Start(_))
                        && matches!(name, "caption" | "col" | "colgroup" | "tbody" | "tfoot" | "thead" | "tr"))
                        || (matches!(t, Token::End(_)) && name == "table") =>
                {
                    if self.in_scope(table_scope, "tr") {
                        self.clear_to(row_context);
                        self.pop();
                        self.to(InTableBody, t)
                    } else {
                        self.err("Unexpected tag in row")
                    }
                }
                Token::End(ref g) if matches!(g.name, "tbody" | "tfoot" | "thead") => {
                    if self.in_scope(table_scope, g.name) && self.in_scope(table_scope, "tr") {
                        self.clear_to(row_context);
                        self.pop();
                        self.to(InTableBody, t)
                    } else {
                        self.err("Unexpected end tag")
                    }
                }
                Token::End(g) if matches!(g.name, "body" | "caption" | "col" | "colgroup" | "html" | "td" | "th") => {
                    self.err("Unexpected end tag")
                }
                t => self.step(InTable, t),
            },
            InCell => match t {
                Token::End(g) if matches!(g.name, "td" | "th") => {
                    if self.in_scope(table_scope, g.name) {
                        self.implied(cursory, "");
                        self.pop_named(g.name);
                        self.clear_to_marker();
                        self.mode = InRow;
                    } else {
                        self.err("Unexpected end tag");
                    }
                    None
                }
                Token::Start(ref g)
                    if matches!(g.name, "caption" | "col" | "colgroup" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr") =>
                {
                    if self.scoped(table_scope, |h| cell(self.nm(h))) {
                        self.close_cell();
                        self.to(InRow, t)
                    } else {
                        self.err("Unexpected start tag")
                    }
                }
                Token::End(g) if matches!(g.name, "body" | "caption" | "col" | "colgroup" | "html") => self.err("Unexpected end tag"),
                Token::End(ref g) if matches!(g.name, "table" | "tbody" | "tfoot" | "thead" | "tr") => {
                    if self.in_scope(table_scope, g.name) {
                        self.close_cell();
                        self.to(InRow, t)
                    } else {
                        self.err("Unexpected end tag")
                    }
                }
                t => self.step(InBody, t),
            },
            InTemplate => match t {
                Token::Text(_) | Token::Null | Token::Comment(_) => self.step(InBody, t),
                Token::Start(ref g)
                    if matches!(
                        g.name,
                        "base" | "basefont" | "bgsound" | "link" | "meta" | "noframes" | "script" | "style" | "template" | "title"
                    ) =>
                {
                    self.step(InHead, t)
                }
                Token::End(ref g) if g.name == "template" => self.step(InHead, t),
                Token::Eof => {
                    if !self.has("template") {
                        self.stop = true;
                        return None;
                    }
                    self.err("Unexpected EOF in template");
                    self.pop_named("template");
                    self.clear_to_marker();
                    self.templates.pop();
                    self.reset();
                    Some(t)
                }
                Token::Start(ref g) => {
                    let m = match g.name {
                        "caption" | "colgroup" | "tbody" | "tfoot" | "thead" => InTable,
                        "col" => InColumnGroup,
                        "tr" => InTableBody,
                        "td" | "th" => InRow,
                        _ => InBody,
                    };
                    self.templates.pop();
                    self.templates.push(m);
                    self.to(m, t)
                }
                _ => self.err("Unexpected token in template"),
            },
            AfterBody => match t {
                Token::Text(ref x) if blank(x) => self.step(InBody, t),
                Token::Comment(c) => self.comment_to(self.open[0].clone(), c),
                Token::Start(ref g) if g.name == "html" => self.step(InBody, t),
                Token::End(g) if g.name == "html" => {
                    if self.ctx.is_some() {
                        return self.err("Unexpected end tag in fragment");
                    }
                    self.mode = AfterAfterBody;
                    None
                }
                Token::Eof => {
                    self.stop = true;
                    None
                }
                t => {
                    self.err("Unexpected token after body");
                    self.to(InBody, t)
                }
            },
            InFrameset => match t {
                Token::Text(x) if blank(&x) => self.text(x),
                Token::Comment(c) => self.comment(c),
                Token::Start(ref g) if g.name == "html" => self.step(InBody, t),
                Token::Start(g) if g.name == "frameset" => {
                    self.html(&g);
                    None
                }
                Token::End(g) if g.name == "frameset" => {
                    if self.open.len() == 1 {
                        self.err("Unexpected end tag");
                    } else {
                        self.pop();
                        if self.ctx.is_none() && self.cur_nm() != (Html, "frameset") {
                            self.mode = AfterFrameset;
                        }
                    }
                    None
                }
                Token::Start(g) if g.name == "frame" => {
                    self.void(&g);
                    None
                }
                Token::Start(ref g) if g.name == "noframes" => self.step(InHead, t),
                Token::Eof => {
                    self.stop = true;
                    None
                }
                _ => self.err("Unexpected token in frameset"),
            },
            AfterFrameset => match t {
                Token::Text(x) if blank(&x) => self.text(x),
                Token::Comment(c) => self.comment(c),
                Token::Start(ref g) if g.name == "html" => self.step(InBody, t),
                Token::End(g) if g.name == "html" => {
                    self.mode = AfterAfterFrameset;
                    None
                }
                Token::Start(ref g) if g.name == "noframes" => self.step(InHead, t),
                Token::Eof => {
                    self.stop = true;
                    None
                }
                _ => self.err("Unexpected token after frameset"),
            },
            AfterAfterBody => match t {
                Token::Text(ref x) if blank(x) => self.step(InBody, t),
                Token::Start(ref g) if g.name == "html" => self.step(InBody, t),
                Token::Comment(c) => self.comment_to(self.doc.clone(), c),
                Token::Eof => {
                    self.stop = true;
                    None
                }
                t => {
                    self.err("Unexpected token after html");
                    self.to(InBody, t)
                }
            },
            AfterAfterFrameset => match t {
                Token::Text(ref x) if blank(x) => self.step(InBody, t),
                Token::Start(ref g) if g.name == "html" => self.step(InBody, t),
                Token::Start(ref g) if g.name == "noframes" => self.step(InHead, t),
                Token::Comment(c) => self.comment_to(self.doc.clone(), c),
                Token::Eof => {
                    self.stop = true;
                    None
                }
                _ => self.err("Unexpected token after frameset"),
            },
        }
    }
    fn close_cell(&mut self) {
        self.implied(cursory, "");
        self.pop_until(cell);
        self.clear_to_marker();
    }

    fn in_head(&mut self, t: Token) -> Again {
        match t {
            Token::Text(x) if blank(&x) => self.text(x),
            Token::Comment(c) => self.comment(c),
            Token::Start(ref g) => match g.name {
                "html" => self.step(InBody, t),
                "base" | "basefont" | "bgsound" | "link" | "meta" => {
                    self.void(g);
                    None
                }
                "title" => self.raw_text(g, Raw::Rcdata(Some("title"))),
                "noframes" | "style" => self.raw_text(g, Raw::Rawtext(Some(g.name))),
                "noscript" if self.scripting => self.raw_text(g, Raw::Rawtext(Some("noscript"))),
                "noscript" => {
                    self.html(g);
                    self.mode = InHeadNoscript;
                    None
                }
                "script" => {
                    let e = self.make(Html, g);
                    if self.ctx.is_some() {
                        self.sink.mark_script_already_started(&e);
                    }
                    self.place(NodeOrText::AppendNode(e.clone()), None);
                    self.open.push(e);
                    self.orig = self.mode;
                    self.mode = Text;
                    self.raw = Some(Raw::Script(Some("script")));
                    None
                }
                "template" => {
                    self.html(g);
                    self.active.push(Fmt::Marker);
                    self.frameset_ok = false;
                    self.mode = InTemplate;
                    self.templates.push(InTemplate);
                    None
                }
                "head" => self.err("Unexpected start tag"),
                _ => self.leave_head(t),
            },
            Token::End(ref g) => match g.name {
                "head" => {
                    self.pop();
                    self.mode = AfterHead;
                    None
                }
                "body" | "html" | "br" => self.leave_head(t),
                "template" => {
                    if !self.has("template") {
                        return self.err("Unexpected end tag");
                    }
                    self.implied(thorough, "");
                    self.pop_named("template");
                    self.clear_to_marker();
                    self.templates.pop();
                    self.reset();
                    None
                }
                _ => self.err("Unexpected end tag"),
            },
            t => self.leave_head(t),
        }
    }
    fn leave_head(&mut self, t: Token) -> Again {
        self.pop();
        self.to(AfterHead, t)
    }

    fn in_table(&mut self, t: Token) -> Again {
        match t {
            Token::Text(_) | Token::Null => {
                if table_outer(self.cur_nm()) {
                    self.pending.clear();
                    self.orig = self.mode;
                    self.to(InTableText, t)
                } else {
                    self.foster_in_body(t)
                }
            }
            Token::Comment(c) => self.comment(c),
            Token::Eof => self.step(InBody, t),
            Token::Start(ref g) => match g.name {
                "caption" => {
                    self.clear_to(table_scope);
                    self.active.push(Fmt::Marker);
                    self.html(g);
                    self.mode = InCaption;
                    None
                }
                "colgroup" => {
                    self.clear_to(table_scope);
                    self.html(g);
                    self.mode = InColumnGroup;
                    None
                }
                "col" => {
                    self.clear_to(table_scope);
                    self.phantom("colgroup");
                    self.to(InColumnGroup, t)
                }
                "tbody" | "tfoot" | "thead" => {
                    self.clear_to(table_scope);
                    self.html(g);
                    self.mode = InTableBody;
                    None
                }
                "td" | "th" | "tr" => {
                    self.clear_to(table_scope);
                    self.phantom("tbody");
                    self.to(InTableBody, t)
                }
                "table" => {
                    self.err("Unexpected table");
                    if !self.in_scope(table_scope, "table") {
                        return None;
                    }
                    self.pop_named("table");
                    self.reset();
                    Some(t)
                }
                "style" | "script" | "template" => self.step(InHead, t),
                "input" if g.attrs.iter().any(|(k, v)| k == "type" && v.eq_ignore_ascii_case("hidden")) => {
                    self.err("Unexpected input");
                    self.void(g);
                    None
                }
                "form" => {
                    self.err("Unexpected form");
                    if !self.has("template") && self.form.is_none() {
                        self.form = Some(self.insert(Html, g, false));
                    }
                    None
                }
                _ => self.foster_in_body(t),
            },
            Token::End(ref g) => match g.name {
                "table" => {
                    if !self.in_scope(table_scope, "table") {
                        return self.err("Unexpected end tag");
                    }
                    self.pop_named("table");
                    self.reset();
                    None
                }
                "body" | "caption" | "col" | "colgroup" | "html" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr" => {
                    self.err("Unexpected end tag")
                }
                "template" => self.step(InHead, t),
                _ => self.foster_in_body(t),
            },
            Token::Doctype { .. } => None,
        }
    }

    fn in_body(&mut self, t: Token) -> Again {
        match t {
            Token::Null => self.err("Unexpected NUL"),
            Token::Text(x) => {
                self.reconstruct();
                if !blank(&x) {
                    self.frameset_ok = false;
                }
                self.text(x)
            }
            Token::Comment(c) => self.comment(c),
            Token::Doctype { .. } => None,
            Token::Eof => {
                if !self.templates.is_empty() {
                    return self.step(InTemplate, t);
                }
                self.stop = true;
                None
            }
            Token::Start(g) => self.start(g),
            Token::End(g) => self.end(g),
        }
    }

    fn start(&mut self, g: Tag) -> Again {
        match g.name {
            "html" => {
                self.err("Unexpected html");
                if !self.has("template") {
                    let a = self.attrs(&g.attrs, Html);
                    self.sink.add_attrs_if_missing(&self.open[0], a);
                }
            }
            "base" | "basefont" | "bgsound" | "link" | "meta" | "noframes" | "script" | "style" | "template" | "title" => {
                return self.step(InHead, Token::Start(g));
            }
            "body" => {
                self.err("Unexpected body");
                if let Some(b) = self.body()
                    && !self.has("template")
                {
                    self.frameset_ok = false;
                    let a = self.attrs(&g.attrs, Html);
                    self.sink.add_attrs_if_missing(&b, a);
                }
            }
            "frameset" => {
                self.err("Unexpected frameset");
                if !self.frameset_ok {
                    return None;
                }
                let Some(b) = self.body() else { return None };
                self.sink.remove_from_parent(&b);
                self.truncate(1);
                self.html(&g);
                self.mode = InFrameset;
            }
            "address" | "article" | "aside" | "blockquote" | "center" | "details" | "dialog" | "dir" | "div" | "dl" | "fieldset"
            | "figcaption" | "figure" | "footer" | "header" | "hgroup" | "main" | "menu" | "nav" | "ol" | "p" | "search"
            | "section" | "summary" | "ul" => {
                self.close_p_in_button_scope();
                self.html(&g);
            }
            "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => {
                self.close_p_in_button_scope();
                if heading(self.cur_nm()) {
                    self.err("Nested heading");
                    self.pop();
                }
                self.html(&g);
            }
            "pre" | "listing" => {
                self.close_p_in_button_scope();
                self.html(&g);
                self.ignore_lf = true;
                self.frameset_ok = false;
            }
            "form" => {
                if self.form.is_some() && !self.has("template") {
                    return self.err("Nested form");
                }
                self.close_p_in_button_scope();
                let e = self.html(&g);
                if !self.has("template") {
                    self.form = Some(e);
                }
            }
            "li" | "dd" | "dt" => {
                self.frameset_ok = false;
                let mut close = None;
                for h in self.open.iter().rev() {
                    let n = self.nm(h);
                    if n.0 == Html && (n.1 == "li" && g.name == "li" || g.name != "li" && matches!(n.1, "dd" | "dt")) {
                        close = Some(n.1);
                        break;
                    }
                    if special(n) && !matches!(n, (Html, "address" | "div" | "p")) {
                        break;
                    }
                }
                if let Some(n) = close {
                    self.implied(cursory, n);
                    self.pop_named(n);
                }
                self.close_p_in_button_scope();
                self.html(&g);
            }
            "plaintext" => {
                self.close_p_in_button_scope();
                self.html(&g);
                self.raw = Some(Raw::Plaintext);
            }
            "button" => {
                if self.in_scope(default_scope, "button") {
                    self.err("Nested buttons");
                    self.implied(cursory, "");
                    self.pop_named("button");
                }
                self.reconstruct();
                self.html(&g);
                self.frameset_ok = false;
            }
            "a" => {
                let mut open = None;
                for f in self.active.iter().rev() {
                    match f {
                        Fmt::Marker => break,
                        Fmt::Elem(h, u) if u.name == "a" => {
                            open = Some(h.clone());
                            break;
                        }
                        _ => {}
                    }
                }
                if let Some(h) = open {
                    self.err("Nested a");
                    self.adopt(&g);
                    if let Some(i) = self.active_at(&h) {
                        self.active.remove(i);
                    }
                    self.remove(&h);
                }
                self.reconstruct();
                self.format(&g);
            }
            "b" | "big" | "code" | "em" | "font" | "i" | "s" | "small" | "strike" | "strong" | "tt" | "u" => {
                self.reconstruct();
                self.format(&g);
            }
            "nobr" => {
                self.reconstruct();
                if self.in_scope(default_scope, "nobr") {
                    self.err("Nested nobr");
                    self.adopt(&g);
                    self.reconstruct();
                }
                self.format(&g);
            }
            "applet" | "marquee" | "object" => {
                self.reconstruct();
                self.html(&g);
                self.active.push(Fmt::Marker);
                self.frameset_ok = false;
            }
            "table" => {
                if self.quirks != QuirksMode::Quirks {
                    self.close_p_in_button_scope();
                }
                self.html(&g);
                self.frameset_ok = false;
                self.mode = InTable;
            }
            "area" | "br" | "embed" | "img" | "keygen" | "wbr" => {
                self.reconstruct();
                self.void(&g);
                self.frameset_ok = false;
            }
            "input" => {
                if self.ctx.as_ref().is_some_and(|c| self.is_named(c, "select")) {
                    return self.err("input in select");
                }
                if self.in_scope(default_scope, "select") {
                    self.err("input in select");
                    self.pop_named("select");
                }
                self.reconstruct();
                self.void(&g);
                if !g.attrs.iter().any(|(k, v)| k == "type" && v.eq_ignore_ascii_case("hidden")) {
                    self.frameset_ok = false;
                }
            }
            "param" | "source" | "track" => self.void(&g),
            "hr" => {
                self.close_p_in_button_scope();
                if self.in_scope(default_scope, "select") {
                    self.implied(cursory, "");
                }
                self.void(&g);
                self.frameset_ok = false;
            }
            "image" => {
                self.err("image");
                return Some(Token::Start(Tag { name: "img", ..g }));
            }
            "textarea" => {
                self.ignore_lf = true;
                self.frameset_ok = false;
                return self.raw_text(&g, Raw::Rcdata(Some("textarea")));
            }
            "xmp" => {
                self.close_p_in_button_scope();
                self.reconstruct();
                self.frameset_ok = false;
                return self.raw_text(&g, Raw::Rawtext(Some("xmp")));
            }
            "iframe" => {
                self.frameset_ok = false;
                return self.raw_text(&g, Raw::Rawtext(Some("iframe")));
            }
            "noembed" => return self.raw_text(&g, Raw::Rawtext(Some("noembed"))),
            "noscript" if self.scripting => return self.raw_text(&g, Raw::Rawtext(Some("noscript"))),
            "select" => {
                if self.ctx.as_ref().is_some_and(|c| self.is_named(c, "select")) {
                    return self.err("select in select");
                }
                if self.in_scope(default_scope, "select") {
                    self.err("select in select");
                    self.pop_named("select");
                    return None;
                }
                self.reconstruct();
                self.html(&g);
                self.frameset_ok = false;
            }
            "option" => {
                if self.in_scope(default_scope, "select") {
                    self.implied(cursory, "optgroup");
                } else if self.cur_nm() == (Html, "option") {
                    self.pop();
                }
                self.reconstruct();
                self.html(&g);
            }
            "optgroup" => {
                if self.in_scope(default_scope, "select") {
                    self.implied(cursory, "");
                } else if self.cur_nm() == (Html, "option") {
                    self.pop();
                }
                self.reconstruct();
                self.html(&g);
            }
            "rb" | "rtc" => {
                if self.in_scope(default_scope, "ruby") {
                    self.implied(cursory, "");
                }
                self.html(&g);
            }
            "rp" | "rt" => {
                if self.in_scope(default_scope, "ruby") {
                    self.implied(cursory, "rtc");
                }
                self.html(&g);
            }
            "math" | "svg" => {
                if !self.old {
                    self.reconstruct();
                }
                let ns = if g.name == "svg" { N::Svg } else { N::Math };
                self.insert(ns, &g, !g.self_closing);
            }
            "caption" | "col" | "colgroup" | "frame" | "head" | "tbody" | "td" | "tfoot" | "th" | "thead" | "tr" => {
                self.err("Unexpected start tag");
            }
            _ => {
                self.reconstruct();
                self.html(&g);
            }
        }
        None
    }

    fn end(&mut self, g: Tag) -> Again {
        match g.name {
            "template" => return self.step(InHead, Token::End(g)),
            "body" => {
                if self.in_scope(default_scope, "body") {
                    self.mode = AfterBody;
                } else {
                    self.err("</body> with no <body> in scope");
                }
            }
            "html" => {
                if self.in_scope(default_scope, "body") {
                    return self.to(AfterBody, Token::End(g));
                }
                self.err("</html> with no <body> in scope");
            }
            "address" | "article" | "aside" | "blockquote" | "button" | "center" | "details" | "dialog" | "dir" | "div" | "dl"
            | "fieldset" | "figcaption" | "figure" | "footer" | "header" | "hgroup" | "listing" | "main" | "menu" | "nav" | "ol"
            | "pre" | "search" | "section" | "select" | "summary" | "ul" => {
                if self.in_scope(default_scope, g.name) {
                    self.implied(cursory, "");
                    self.pop_named(g.name);
                } else {
                    self.err("Unexpected end tag");
                }
            }
            "form" => {
                if !self.has("template") {
                    let Some(f) = self.form.take() else { return self.err("Null form element pointer") };
                    if !self.scoped(default_scope, |h| self.same(h, &f)) {
                        return self.err("Form element not in scope");
                    }
                    self.implied(cursory, "");
                    self.remove(&f);
                } else {
                    if !self.in_scope(default_scope, "form") {
                        return self.err("Form element not in scope");
                    }
                    self.implied(cursory, "");
                    self.pop_named("form");
                }
            }
            "p" => {
                if !self.in_scope(button_scope, "p") {
                    self.err("No <p> tag to close");
                    self.phantom("p");
                }
                self.close_p();
            }
            "li" | "dd" | "dt" => {
                let scope = if g.name == "li" { list_scope } else { default_scope };
                if self.in_scope(scope, g.name) {
                    self.implied(cursory, g.name);
                    self.pop_named(g.name);
                } else {
                    self.err("No matching tag to close");
                }
            }
            "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => {
                if self.scoped(default_scope, |h| heading(self.nm(h))) {
                    self.implied(cursory, "");
                    self.pop_until(heading);
                } else {
                    self.err("No heading tag to close");
                }
            }
            "a" | "b" | "big" | "code" | "em" | "font" | "i" | "nobr" | "s" | "small" | "strike" | "strong" | "tt" | "u" => {
                self.adopt(&g);
            }
            "applet" | "marquee" | "object" => {
                if self.in_scope(default_scope, g.name) {
                    self.implied(cursory, "");
                    self.pop_named(g.name);
                    self.clear_to_marker();
                } else {
                    self.err("Unexpected end tag");
                }
            }
            "br" => {
                self.err("Unexpected end tag");
                return self.start(Tag { name: "br", attrs: vec![], self_closing: false });
            }
            _ => self.end_in_body(&g),
        }
        None
    }
}

fn quirks(name: &str, public: Option<&str>, system: Option<&str>, force: bool) -> QuirksMode {
    let p = public.unwrap_or("").to_ascii_lowercase();
    let s = system.map(|s| s.to_ascii_lowercase());
    if force || name != "html" || matches!(p.as_str(), "-//w3o//dtd w3 html strict 3.0//en//" | "-/w3c/dtd html 4.0 transitional/en" | "html") {
        return QuirksMode::Quirks;
    }
    let old = ["-//w3c//dtd html 3", "-//w3c//dtd html 4.0 ", "-//ietf//dtd html", "-//netscape", "-//microsoft", "-//softquad"];
    if s.as_deref() == Some("http://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtd") || old.iter().any(|o| p.starts_with(o)) {
        return QuirksMode::Quirks;
    }
    let h401 = p.starts_with("-//w3c//dtd html 4.01 frameset//") || p.starts_with("-//w3c//dtd html 4.01 transitional//");
    let x10 = p.starts_with("-//w3c//dtd xhtml 1.0 frameset//") || p.starts_with("-//w3c//dtd xhtml 1.0 transitional//");
    match (h401, s.is_some(), x10) {
        (true, false, _) => QuirksMode::Quirks,
        (true, true, _) | (_, _, true) => QuirksMode::LimitedQuirks,
        _ => QuirksMode::NoQuirks,
    }
}

pub(crate) fn drive<S: TreeSink>(sink: &S, input: &StrTendril, fragment: Option<(QualName, Vec<Attribute>)>, scripting: bool) {
    let mut b = Builder {
        sink,
        doc: sink.get_document(),
        mode: Initial,
        orig: Initial,
        templates: vec![],
        pending: vec![],
        quirks: QuirksMode::NoQuirks,
        open: vec![],
        active: vec![],
        head: None,
        form: None,
        ctx: None,
        frameset_ok: true,
        ignore_lf: false,
        foster: false,
        scripting,
        stop: false,
        old: OLD.load(std::sync::atomic::Ordering::Relaxed),
        raw: None,
    };
    let mut tk = Tokenizer::new(input.clone());
    if let Some((name, attrs)) = fragment {
        // As in html5ever: the context element is created first, then a root
        // `html` element, which receives the content.
        let flags = ElementFlags {
            template: name.ns == ns!(html) && &*name.local == "template",
            mathml_annotation_xml_integration_point: false,
        };
        let c = sink.create_element(name, attrs, flags);
        let n = b.nm(&c);
        tk.raw = match n {
            (Html, "title" | "textarea") => Some(Raw::Rcdata(None)),
            (Html, "style" | "xmp" | "iframe" | "noembed" | "noframes") => Some(Raw::Rawtext(None)),
            (Html, "script") => Some(Raw::Script(None)),
            (Html, "noscript") if scripting => Some(Raw::Rawtext(None)),
            (Html, "plaintext") => Some(Raw::Plaintext),
            _ => None,
        };
        if n == (Html, "template") {
            b.templates.push(InTemplate);
        }
        b.ctx = Some(c);
        b.root(&[]);
        b.reset();
    }
    let mut out = Vec::new();
    loop {
        tk.foreign = !b.open.is_empty() && b.nm(b.adjusted()).0 != Html;
        if !tk.next(&mut out) {
            break;
        }
        for t in out.drain(..) {
            b.feed(t);
        }
        if let Some(r) = b.raw.take() {
            tk.raw = Some(r);
        }
    }
    while !b.stop {
        b.feed(Token::Eof);
    }
    while let Some(h) = b.open.pop() {
        sink.pop(&h);
    }
}
