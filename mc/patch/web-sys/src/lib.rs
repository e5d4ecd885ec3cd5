//! Stand-in for `web-sys` on a native target: an in-memory DOM that follows the
//! DOM Standard for the operations the client uses (tree mutation with its
//! hierarchy errors, live child lists, attribute names with the XML Name
//! production, HTML-namespace upper-casing, innerHTML through the HTML parser).
mod arena;
pub use arena::{EventRecord, Snap, console_log, events, load, load_fragment, navigate, reloads, reset, snapshot, snapshot_of, stats};

use arena::{Kind, with};
use std::ops::Deref;
pub use js_sys::Object;
use wasm_bindgen::{JsClass, JsValue, Repr};

fn node_id(v: &JsValue) -> u32 {
    match &v.0 {
        Repr::Node(i) => *i,
        o => panic!("not a node: {:?}", JsValue(o.clone())),
    }
}
fn mk<T: wasm_bindgen::JsCast>(id: u32) -> T {
    T::unchecked_from_js(JsValue(Repr::Node(id)))
}

macro_rules! class {
    ($n:ident : $p:ident $(, $anc:ident)* ; $is:expr) => {
        #[repr(transparent)]
        #[derive(Clone, Debug, PartialEq)]
        pub struct $n($p);
        // SAFETY: transparent over a transparent wrapper of JsValue.
        unsafe impl JsClass for $n {
            fn is(v: &JsValue) -> bool {
                let f: fn(&JsValue) -> bool = $is;
                f(v)
            }
        }
        impl Deref for $n {
            type Target = $p;
            fn deref(&self) -> &$p {
                &self.0
            }
        }
        impl AsRef<JsValue> for $n {
            fn as_ref(&self) -> &JsValue {
                self
            }
        }
        impl AsRef<$n> for $n {
            fn as_ref(&self) -> &$n {
                self
            }
        }
        impl From<JsValue> for $n {
            fn from(v: JsValue) -> $n {
                <$n as wasm_bindgen::JsCast>::unchecked_from_js(v)
            }
        }
        impl From<$n> for JsValue {
            fn from(v: $n) -> JsValue {
                let r: &JsValue = &v;
                r.clone()
            }
        }
        class!(@up $n $p);
        $(class!(@up $n $anc);)*
    };
    (@up $n:ident $anc:ident) => {
        impl AsRef<$anc> for $n {
            fn as_ref(&self) -> &$anc {
                self
            }
        }
        impl From<$n> for $anc {
            fn from(v: $n) -> $anc {
                let r: &$anc = &v;
                r.clone()
            }
        }
    };
}
fn is_node(v: &JsValue, f: impl Fn(&Kind) -> bool) -> bool {
    matches!(&v.0, Repr::Node(i) if with(|d| f(d.kind(*i))))
}
fn is_host(v: &JsValue, c: &str) -> bool {
    matches!(&v.0, Repr::Host(k, _) if *k == c)
}

class!(EventTarget: Object; |v| is_node(v, |_| true) || is_host(v, "Window"));
class!(Node: EventTarget, Object; |v| is_node(v, |_| true));
class!(Element: Node, EventTarget, Object; |v| is_node(v, |k| matches!(k, Kind::Element { .. })));
class!(HtmlElement: Element, Node, EventTarget, Object; |v| is_node(v, |k| matches!(k, Kind::Element { html: true, .. })));
class!(HtmlTemplateElement: HtmlElement, Element, Node, EventTarget, Object;
    |v| is_node(v, |k| matches!(k, Kind::Element { template: Some(_), .. })));
class!(CharacterData: Node, EventTarget, Object; |v| is_node(v, |k| matches!(k, Kind::Text(_) | Kind::Comment(_))));
class!(Text: CharacterData, Node, EventTarget, Object; |v| is_node(v, |k| matches!(k, Kind::Text(_))));
class!(Comment: CharacterData, Node, EventTarget, Object; |v| is_node(v, |k| matches!(k, Kind::Comment(_))));
class!(Document: Node, EventTarget, Object; |v| is_node(v, |k| matches!(k, Kind::Document)));
class!(DocumentFragment: Node, EventTarget, Object; |v| is_node(v, |k| matches!(k, Kind::Fragment)));
class!(Window: EventTarget, Object; |v| is_host(v, "Window"));
class!(Event: Object; |v| matches!(&v.0, Repr::Obj { class, .. } if *class == "CustomEvent"));
class!(CustomEvent: Event, Object; |v| matches!(&v.0, Repr::Obj { class, .. } if *class == "CustomEvent"));
class!(CustomEventInit: Object; |v| v.is_object());

pub fn window() -> Option<Window> {
    Some(Window::from(JsValue(Repr::Host("Window", 0))))
}
impl Window {
    pub fn document(&self) -> Option<Document> {
        Some(mk(0))
    }
    pub fn location(&self) -> Location {
        Location
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Location;
impl Location {
    pub fn pathname(&self) -> Result<String, JsValue> {
        Ok(with(|d| d.path.clone().unwrap_or_else(|| "/".into())))
    }
    pub fn reload(&self) -> Result<(), JsValue> {
        with(|d| d.reloads += 1);
        Ok(())
    }
}

impl CustomEventInit {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        JsValue::object("Object").into()
    }
    pub fn set_bubbles(&self, b: bool) {
        self.set_prop("bubbles", b.into());
    }
    pub fn set_cancelable(&self, b: bool) {
        self.set_prop("cancelable", b.into());
    }
    pub fn set_composed(&self, b: bool) {
        self.set_prop("composed", b.into());
    }
    pub fn set_detail(&self, d: &JsValue) {
        self.set_prop("detail", d.clone());
    }
}
impl CustomEvent {
    pub fn new(ty: &str) -> Result<Self, JsValue> {
        Self::new_with_event_init_dict(ty, &CustomEventInit::new())
    }
    pub fn new_with_event_init_dict(ty: &str, init: &CustomEventInit) -> Result<Self, JsValue> {
        let e = JsValue::object("CustomEvent");
        e.set_prop("type", ty.into());
        for k in ["bubbles", "cancelable", "composed", "detail"] {
            e.set_prop(k, init.get_prop(k));
        }
        Ok(e.into())
    }
    pub fn detail(&self) -> JsValue {
        self.get_prop("detail")
    }
}
impl Event {
    pub fn type_(&self) -> String {
        self.get_prop("type").as_string().unwrap_or_default()
    }
}

impl EventTarget {
    pub fn dispatch_event(&self, e: &Event) -> Result<bool, JsValue> {
        let target = node_id(self);
        with(|d| {
            let detail = e.get_prop("detail");
            let ev = EventRecord {
                ty: e.type_(),
                target,
                path: d.path(target),
                bubbles: e.get_prop("bubbles").as_bool().unwrap_or(false),
                content: detail.get_prop("content").as_string(),
                key: detail.get_prop("key").as_string(),
                element: match detail.get_prop("element").0 {
                    Repr::Node(i) => Some(i),
                    _ => None,
                },
            };
            d.events.push(ev);
        });
        Ok(true)
    }
}

impl Node {
    pub const ELEMENT_NODE: u16 = 1;
    pub const ATTRIBUTE_NODE: u16 = 2;
    pub const TEXT_NODE: u16 = 3;
    pub const COMMENT_NODE: u16 = 8;
    pub const DOCUMENT_NODE: u16 = 9;
    pub const DOCUMENT_TYPE_NODE: u16 = 10;
    pub const DOCUMENT_FRAGMENT_NODE: u16 = 11;
    fn nid(&self) -> u32 {
        node_id(self)
    }
    pub fn node_type(&self) -> u16 {
        with(|d| match d.kind(self.nid()) {
            Kind::Element { .. } => 1,
            Kind::Text(_) => 3,
            Kind::Comment(_) => 8,
            Kind::Document => 9,
            Kind::Doctype(_) => 10,
            Kind::Fragment => 11,
        })
    }
    pub fn node_name(&self) -> String {
        with(|d| match d.kind(self.nid()) {
            Kind::Element { .. } => d.tag_name(self.nid()),
            Kind::Text(_) => "#text".into(),
            Kind::Comment(_) => "#comment".into(),
            Kind::Document => "#document".into(),
            Kind::Doctype(n) => n.clone(),
            Kind::Fragment => "#document-fragment".into(),
        })
    }
    pub fn parent_node(&self) -> Option<Node> {
        with(|d| d.parent(self.nid())).map(mk)
    }
    pub fn parent_element(&self) -> Option<Element> {
        with(|d| d.parent(self.nid()).filter(|p| matches!(d.kind(*p), Kind::Element { .. }))).map(mk)
    }
    pub fn child_nodes(&self) -> NodeList {
        NodeList(List::Live(self.nid()))
    }
    pub fn has_child_nodes(&self) -> bool {
        with(|d| !d.children(self.nid()).is_empty())
    }
    pub fn first_child(&self) -> Option<Node> {
        with(|d| d.children(self.nid()).first().copied()).map(mk)
    }
    pub fn last_child(&self) -> Option<Node> {
        with(|d| d.children(self.nid()).last().copied()).map(mk)
    }
    pub fn next_sibling(&self) -> Option<Node> {
        with(|d| d.sibling(self.nid(), 1)).map(mk)
    }
    pub fn previous_sibling(&self) -> Option<Node> {
        with(|d| d.sibling(self.nid(), -1)).map(mk)
    }
    pub fn owner_document(&self) -> Option<Document> {
        (self.nid() != 0).then(|| mk(0))
    }
    pub fn is_connected(&self) -> bool {
        with(|d| d.root_of(self.nid()) == 0)
    }
    pub fn contains(&self, other: Option<&Node>) -> bool {
        other.is_some_and(|o| with(|d| d.is_inclusive_ancestor(self.nid(), o.nid())))
    }
    pub fn is_same_node(&self, other: Option<&Node>) -> bool {
        other.is_some_and(|o| o.nid() == self.nid())
    }
    pub fn text_content(&self) -> Option<String> {
        with(|d| d.text_content(self.nid()))
    }
    pub fn set_text_content(&self, v: Option<&str>) {
        with(|d| d.set_text_content(self.nid(), v.unwrap_or("")))
    }
    pub fn node_value(&self) -> Option<String> {
        with(|d| match d.kind(self.nid()) {
            Kind::Text(s) | Kind::Comment(s) => Some(s.clone()),
            _ => None,
        })
    }
    pub fn set_node_value(&self, v: Option<&str>) {
        with(|d| {
            if matches!(d.kind(self.nid()), Kind::Text(_) | Kind::Comment(_)) {
                d.set_text_content(self.nid(), v.unwrap_or(""))
            }
        })
    }
    pub fn append_child(&self, n: &Node) -> Result<Node, JsValue> {
        with(|d| d.insert(self.nid(), n.nid(), None)).map(|_| n.clone())
    }
    pub fn insert_before(&self, n: &Node, before: Option<&Node>) -> Result<Node, JsValue> {
        with(|d| d.insert(self.nid(), n.nid(), before.map(|b| b.nid()))).map(|_| n.clone())
    }
    pub fn replace_child(&self, n: &Node, old: &Node) -> Result<Node, JsValue> {
        with(|d| d.replace(self.nid(), n.nid(), old.nid())).map(|_| old.clone())
    }
    pub fn remove_child(&self, n: &Node) -> Result<Node, JsValue> {
        with(|d| {
            if d.parent(n.nid()) != Some(self.nid()) {
                return Err(JsValue::error("NotFoundError", "The node to be removed is not a child of this node."));
            }
            d.detach(n.nid());
            Ok(n.clone())
        })
    }
    pub fn normalize(&self) {
        with(|d| d.normalize(self.nid()))
    }
    pub fn is_equal_node(&self, o: Option<&Node>) -> bool {
        o.is_some_and(|o| with(|d| d.snap(self.nid()) == d.snap(o.nid())))
    }
    pub fn get_root_node(&self) -> Node {
        mk(with(|d| d.root_of(self.nid())))
    }
    pub fn clone_node(&self) -> Result<Node, JsValue> {
        self.clone_node_with_deep(false)
    }
    pub fn clone_node_with_deep(&self, deep: bool) -> Result<Node, JsValue> {
        Ok(mk(with(|d| d.clone_node(self.nid(), deep))))
    }
}
impl CharacterData {
    pub fn data(&self) -> String {
        self.node_value().unwrap_or_default()
    }
    pub fn set_data(&self, s: &str) {
        self.set_node_value(Some(s))
    }
}

/// A live list of a node's children, or the result of a query.
#[derive(Clone, Debug, PartialEq)]
pub struct NodeList(List);
#[derive(Clone, Debug, PartialEq)]
enum List {
    Live(u32),
    Found(Vec<u32>),
}
impl NodeList {
    pub fn length(&self) -> u32 {
        match &self.0 {
            List::Live(n) => with(|d| d.children(*n).len() as u32),
            List::Found(v) => v.len() as u32,
        }
    }
    pub fn item(&self, i: u32) -> Option<Node> {
        match &self.0 {
            List::Live(n) => with(|d| d.children(*n).get(i as usize).copied()).map(mk),
            List::Found(v) => v.get(i as usize).copied().map(mk),
        }
    }
    pub fn get(&self, i: u32) -> Option<Node> {
        self.item(i)
    }
}
/// A live list of an element's attributes.
#[derive(Clone, Debug, PartialEq)]
pub struct NamedNodeMap(u32);
#[derive(Debug, PartialEq)]
struct AttrCell {
    at: arena::At,
    owner: Option<u32>,
}
/// An attribute: a live view while it is on an element, its own value otherwise.
#[derive(Clone, Debug, PartialEq)]
pub struct Attr(std::rc::Rc<std::cell::RefCell<AttrCell>>);
impl Attr {
    fn on(at: arena::At, owner: u32) -> Attr {
        Attr(std::rc::Rc::new(std::cell::RefCell::new(AttrCell { at, owner: Some(owner) })))
    }
    fn now(&self) -> arena::At {
        let c = self.0.borrow();
        match c.owner {
            Some(o) => with(|d| d.find_attr_ns(o, &c.at.ns, c.at.local())).unwrap_or_else(|| c.at.clone()),
            None => c.at.clone(),
        }
    }
    pub fn name(&self) -> String {
        self.now().name
    }
    pub fn value(&self) -> String {
        self.now().value
    }
    pub fn local_name(&self) -> String {
        self.now().local().to_string()
    }
    pub fn namespace_uri(&self) -> Option<String> {
        Some(self.now().ns).filter(|n| !n.is_empty())
    }
    pub fn prefix(&self) -> Option<String> {
        let a = self.now();
        (a.skip > 0).then(|| a.name[..a.skip - 1].to_string())
    }
    pub fn specified(&self) -> bool {
        true
    }
    pub fn owner_element(&self) -> Option<Element> {
        self.0.borrow().owner.map(mk)
    }
    pub fn set_value(&self, v: &str) {
        let mut c = self.0.borrow_mut();
        c.at.value = v.into();
        if let Some(o) = c.owner {
            with(|d| d.put_attr(o, c.at.clone(), false));
        }
    }
}
impl NamedNodeMap {
    pub fn length(&self) -> u32 {
        with(|d| d.attrs(self.0).len() as u32)
    }
    pub fn item(&self, i: u32) -> Option<Attr> {
        with(|d| d.attrs(self.0).get(i as usize).map(|a| Attr::on(a.clone(), self.0)))
    }
    pub fn get_with_index(&self, i: u32) -> Option<Attr> {
        self.item(i)
    }
    pub fn get_named_item(&self, n: &str) -> Option<Attr> {
        with(|d| d.find_attr(self.0, n)).map(|a| Attr::on(a, self.0))
    }
    pub fn get_with_name(&self, n: &str) -> Option<Attr> {
        self.get_named_item(n)
    }
    pub fn get_named_item_ns(&self, ns: Option<&str>, n: &str) -> Option<Attr> {
        with(|d| d.find_attr_ns(self.0, ns.unwrap_or(""), n)).map(|a| Attr::on(a, self.0))
    }
    pub fn set_named_item(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        mk::<Element>(self.0).set_attribute_node(a)
    }
    pub fn remove_named_item(&self, n: &str) -> Result<Attr, JsValue> {
        match self.get_named_item(n) {
            Some(a) => {
                mk::<Element>(self.0).remove_attribute_node(&a)?;
                Ok(a)
            }
            None => Err(JsValue::error("NotFoundError", "No item with that name.")),
        }
    }
}

macro_rules! parent_node {
    ($t:ident) => {
        impl $t {
            pub fn query_selector(&self, sel: &str) -> Result<Option<Element>, JsValue> {
                Ok(with(|d| d.query(self.nid(), sel))?.map(mk))
            }
            pub fn query_selector_all(&self, sel: &str) -> Result<NodeList, JsValue> {
                Ok(NodeList(List::Found(with(|d| d.query_all(self.nid(), sel))?)))
            }
            pub fn first_element_child(&self) -> Option<Element> {
                with(|d| d.child_elements(self.nid()).first().copied()).map(mk)
            }
            pub fn last_element_child(&self) -> Option<Element> {
                with(|d| d.child_elements(self.nid()).last().copied()).map(mk)
            }
            pub fn child_element_count(&self) -> u32 {
                with(|d| d.child_elements(self.nid()).len() as u32)
            }
            pub fn append_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                self.append_child(n).map(|_| ())
            }
            pub fn append_with_str_1(&self, s: &str) -> Result<(), JsValue> {
                self.append_child(&mk::<Document>(0).create_text_node(s)).map(|_| ())
            }
            pub fn prepend_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                self.insert_before(n, self.first_child().as_ref()).map(|_| ())
            }
            pub fn replace_children_with_node_0(&self) {
                while let Some(c) = self.last_child() {
                    let _ = self.remove_child(&c);
                }
            }
            pub fn replace_children_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                self.replace_children_with_node_0();
                self.append_child(n).map(|_| ())
            }
        }
    };
}
parent_node!(Element);
parent_node!(Document);
parent_node!(DocumentFragment);
macro_rules! child_node {
    ($t:ident) => {
        impl $t {
            pub fn remove(&self) {
                with(|d| d.detach(self.nid()))
            }
            pub fn before_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                self.parent_node().map_or(Ok(()), |p| p.insert_before(n, Some(self)).map(|_| ()))
            }
            pub fn after_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                let next = self.next_sibling().filter(|x| x.nid() != n.nid()).or_else(|| n.next_sibling());
                self.parent_node().map_or(Ok(()), |p| p.insert_before(n, next.as_ref()).map(|_| ()))
            }
            pub fn replace_with_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                self.parent_node().map_or(Ok(()), |p| p.replace_child(n, self).map(|_| ()))
            }
            pub fn next_element_sibling(&self) -> Option<Element> {
                let mut c = self.next_sibling();
                while let Some(n) = c {
                    if n.node_type() == Node::ELEMENT_NODE {
                        return Some(mk(n.nid()));
                    }
                    c = n.next_sibling();
                }
                None
            }
            pub fn previous_element_sibling(&self) -> Option<Element> {
                let mut c = self.previous_sibling();
                while let Some(n) = c {
                    if n.node_type() == Node::ELEMENT_NODE {
                        return Some(mk(n.nid()));
                    }
                    c = n.previous_sibling();
                }
                None
            }
        }
    };
}
child_node!(Element);
child_node!(CharacterData);

impl Element {
    pub fn closest(&self, sel: &str) -> Result<Option<Element>, JsValue> {
        let mut c = Some(self.clone());
        while let Some(e) = c {
            if e.matches(sel)? {
                return Ok(Some(e));
            }
            c = e.parent_element();
        }
        Ok(None)
    }
    pub fn id(&self) -> String {
        self.get_attribute("id").unwrap_or_default()
    }
    pub fn set_id(&self, v: &str) {
        let _ = self.set_attribute("id", v);
    }
    pub fn class_name(&self) -> String {
        self.get_attribute("class").unwrap_or_default()
    }
    pub fn set_class_name(&self, v: &str) {
        let _ = self.set_attribute("class", v);
    }
    pub fn insert_adjacent_element(&self, at: &str, e: &Element) -> Result<Option<Element>, JsValue> {
        match at.to_ascii_lowercase().as_str() {
            "beforebegin" => self.before_with_node_1(e)?,
            "afterbegin" => self.prepend_with_node_1(e)?,
            "beforeend" => self.append_with_node_1(e)?,
            "afterend" => self.after_with_node_1(e)?,
            _ => return Err(JsValue::error("SyntaxError", "The value provided is not a position.")),
        }
        Ok(Some(e.clone()))
    }
    pub fn tag_name(&self) -> String {
        with(|d| d.tag_name(self.nid()))
    }
    pub fn local_name(&self) -> String {
        with(|d| match d.kind(self.nid()) {
            Kind::Element { name, .. } => name.clone(),
            _ => unreachable!(),
        })
    }
    pub fn namespace_uri(&self) -> Option<String> {
        with(|d| match d.kind(self.nid()) {
            Kind::Element { ns, .. } => Some(ns.clone()),
            _ => unreachable!(),
        })
    }
    pub fn attributes(&self) -> NamedNodeMap {
        NamedNodeMap(self.nid())
    }
    pub fn has_attributes(&self) -> bool {
        with(|d| !d.attrs(self.nid()).is_empty())
    }
    pub fn has_attribute(&self, n: &str) -> bool {
        self.get_attribute(n).is_some()
    }
    pub fn get_attribute(&self, n: &str) -> Option<String> {
        with(|d| d.get_attr(self.nid(), n))
    }
    pub fn set_attribute(&self, n: &str, v: &str) -> Result<(), JsValue> {
        with(|d| d.set_attr(self.nid(), n, v))
    }
    pub fn set_attribute_ns(&self, ns: Option<&str>, n: &str, v: &str) -> Result<(), JsValue> {
        with(|d| d.set_attr_ns(self.nid(), ns.unwrap_or(""), n, v))
    }
    pub fn get_attribute_ns(&self, ns: Option<&str>, n: &str) -> Option<String> {
        with(|d| d.find_attr_ns(self.nid(), ns.unwrap_or(""), n)).map(|a| a.value)
    }
    pub fn has_attribute_ns(&self, ns: Option<&str>, n: &str) -> bool {
        self.get_attribute_ns(ns, n).is_some()
    }
    pub fn remove_attribute_ns(&self, ns: Option<&str>, n: &str) -> Result<(), JsValue> {
        with(|d| d.remove_attr_ns(self.nid(), ns.unwrap_or(""), n));
        Ok(())
    }
    pub fn get_attribute_node(&self, n: &str) -> Option<Attr> {
        self.attributes().get_named_item(n)
    }
    pub fn get_attribute_node_ns(&self, ns: Option<&str>, n: &str) -> Option<Attr> {
        self.attributes().get_named_item_ns(ns, n)
    }
    pub fn set_attribute_node(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        let mut c = a.0.borrow_mut();
        if c.owner.is_some_and(|o| o != self.nid()) {
            return Err(JsValue::error("InUseAttributeError", "The attribute is in use by another element."));
        }
        let old = with(|d| {
            let old = d.find_attr_ns(self.nid(), &c.at.ns, c.at.local());
            d.put_attr(self.nid(), c.at.clone(), true);
            old
        });
        c.owner = Some(self.nid());
        Ok(old.map(|at| Attr(std::rc::Rc::new(std::cell::RefCell::new(AttrCell { at, owner: None })))))
    }
    pub fn set_attribute_node_ns(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        self.set_attribute_node(a)
    }
    pub fn remove_attribute_node(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        let now = a.now();
        let mut c = a.0.borrow_mut();
        if c.owner != Some(self.nid()) || with(|d| d.remove_attr_ns(self.nid(), &now.ns, now.local())).is_none() {
            return Err(JsValue::error("NotFoundError", "The attribute is not on this element."));
        }
        c.at = now;
        c.owner = None;
        drop(c);
        Ok(Some(a.clone()))
    }
    pub fn get_attribute_names(&self) -> js_sys::Array {
        with(|d| d.attrs(self.nid()).iter().map(|a| JsValue::from_str(&a.name)).collect::<Vec<_>>()).into_iter().collect()
    }
    pub fn prefix(&self) -> Option<String> {
        None
    }
    pub fn remove_attribute(&self, n: &str) -> Result<(), JsValue> {
        with(|d| d.remove_attr(self.nid(), n));
        Ok(())
    }
    pub fn toggle_attribute(&self, n: &str) -> Result<bool, JsValue> {
        if self.has_attribute(n) {
            self.remove_attribute(n)?;
            Ok(false)
        } else {
            self.set_attribute(n, "")?;
            Ok(true)
        }
    }
    pub fn inner_html(&self) -> String {
        with(|d| d.inner_html(self.nid()))
    }
    pub fn outer_html(&self) -> String {
        with(|d| d.outer_html(self.nid()))
    }
    pub fn set_inner_html(&self, html: &str) {
        arena::set_inner_html(self.nid(), html)
    }
    pub fn matches(&self, sel: &str) -> Result<bool, JsValue> {
        with(|d| d.matches(self.nid(), sel))
    }
}
impl HtmlTemplateElement {
    pub fn content(&self) -> DocumentFragment {
        mk(with(|d| match d.kind(self.nid()) {
            Kind::Element { template: Some(c), .. } => *c,
            _ => unreachable!(),
        }))
    }
}
impl Document {
    pub fn body(&self) -> Option<HtmlElement> {
        with(|d| d.body()).map(mk)
    }
    pub fn head(&self) -> Option<HtmlElement> {
        with(|d| d.html_child("head")).map(mk)
    }
    pub fn document_element(&self) -> Option<Element> {
        with(|d| d.html()).map(mk)
    }
    pub fn get_element_by_id(&self, id: &str) -> Option<Element> {
        with(|d| d.by_id(id)).map(mk)
    }
    pub fn create_element(&self, tag: &str) -> Result<Element, JsValue> {
        with(|d| d.create_element(arena::HTML, &tag.to_ascii_lowercase())).map(mk)
    }
    pub fn create_element_ns(&self, ns: Option<&str>, tag: &str) -> Result<Element, JsValue> {
        with(|d| d.create_element(ns.unwrap_or(""), tag)).map(mk)
    }
    pub fn create_text_node(&self, t: &str) -> Text {
        mk(with(|d| d.push(Kind::Text(t.into()))))
    }
    pub fn create_comment(&self, t: &str) -> Comment {
        mk(with(|d| d.push(Kind::Comment(t.into()))))
    }
    pub fn create_attribute(&self, n: &str) -> Result<Attr, JsValue> {
        arena::check_name(n)?;
        let at = arena::At { ns: String::new(), name: n.to_ascii_lowercase(), value: String::new(), skip: 0 };
        Ok(Attr(std::rc::Rc::new(std::cell::RefCell::new(AttrCell { at, owner: None }))))
    }
    pub fn import_node_with_deep(&self, n: &Node, deep: bool) -> Result<Node, JsValue> {
        n.clone_node_with_deep(deep)
    }
    pub fn adopt_node(&self, n: &Node) -> Result<Node, JsValue> {
        with(|d| d.detach(n.nid()));
        Ok(n.clone())
    }
    pub fn create_document_fragment(&self) -> DocumentFragment {
        mk(with(|d| d.push(Kind::Fragment)))
    }
}

pub mod console {
    use wasm_bindgen::JsValue;
    pub fn log_1(_v: &JsValue) {
        crate::arena::with(|d| d.logged += 1);
    }
    pub fn warn_1(v: &JsValue) {
        log_1(v)
    }
    pub fn error_1(v: &JsValue) {
        log_1(v)
    }
}

/// What a parser would build: any name.
pub fn raw_element(ns: &str, tag: &str) -> Element {
    mk(with(|d| d.element(ns, tag, vec![])))
}
/// As above, for an attribute.
pub fn raw_attr(e: &Element, ns: &str, prefix: Option<&str>, local: &str, v: &str) {
    let (name, skip) = match prefix {
        Some(p) => (format!("{p}:{local}"), p.len() + 1),
        None => (local.to_string(), 0),
    };
    let at = arena::At { ns: ns.into(), name, value: v.into(), skip };
    with(|d| d.put_attr(e.nid(), at, true));
}
