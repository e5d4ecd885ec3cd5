//! Stand-in for `wasm-bindgen` on a native target: JavaScript values as a Rust
//! enum, with the casts and conversions the client code uses.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::rc::Rc;

pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt, wasm_bindgen};
}

#[derive(Clone)]
pub enum Repr {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<str>),
    /// Plain objects; `class` is "Object" or, for DOM errors, the error name.
    Obj { class: &'static str, props: Rc<RefCell<BTreeMap<String, JsValue>>> },
    /// Host objects: the class is looked up by the DOM crate.
    Node(u32),
    Host(&'static str, u32),
}

#[derive(Clone)]
pub struct JsValue(pub Repr);

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(Repr::Undefined);
    pub const NULL: JsValue = JsValue(Repr::Null);
    pub const TRUE: JsValue = JsValue(Repr::Bool(true));
    pub const FALSE: JsValue = JsValue(Repr::Bool(false));
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self {
        JsValue(Repr::Str(s.into()))
    }
    pub fn from_f64(n: f64) -> Self {
        JsValue(Repr::Num(n))
    }
    pub fn from_bool(b: bool) -> Self {
        JsValue(Repr::Bool(b))
    }
    pub fn undefined() -> Self {
        Self::UNDEFINED
    }
    pub fn null() -> Self {
        Self::NULL
    }
    pub fn object(class: &'static str) -> Self {
        JsValue(Repr::Obj { class, props: Rc::default() })
    }
    pub fn error(name: &'static str, message: &str) -> Self {
        let o = Self::object(name);
        o.set_prop("name", JsValue::from_str(name));
        o.set_prop("message", JsValue::from_str(message));
        o
    }
    pub fn set_prop(&self, k: &str, v: JsValue) -> bool {
        match &self.0 {
            Repr::Obj { props, .. } => {
                props.borrow_mut().insert(k.into(), v);
                true
            }
            _ => false,
        }
    }
    pub fn get_prop(&self, k: &str) -> JsValue {
        match &self.0 {
            Repr::Obj { props, .. } => props.borrow().get(k).cloned().unwrap_or(JsValue::UNDEFINED),
            _ => JsValue::UNDEFINED,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Repr::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match &self.0 {
            Repr::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match &self.0 {
            Repr::Bool(n) => Some(*n),
            _ => None,
        }
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, Repr::Str(_))
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.0, Repr::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.0, Repr::Null)
    }
    pub fn is_object(&self) -> bool {
        matches!(self.0, Repr::Obj { .. } | Repr::Node(_) | Repr::Host(..))
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &Self) -> bool {
        use Repr::*;
        match (&self.0, &o.0) {
            (Undefined, Undefined) | (Null, Null) => true,
            (Bool(a), Bool(b)) => a == b,
            (Num(a), Num(b)) => a == b,
            (Str(a), Str(b)) => a == b,
            (Obj { props: a, .. }, Obj { props: b, .. }) => Rc::ptr_eq(a, b),
            (Node(a), Node(b)) => a == b,
            (Host(c, a), Host(d, b)) => c == d && a == b,
            _ => false,
        }
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            Repr::Undefined => write!(f, "JsValue(undefined)"),
            Repr::Null => write!(f, "JsValue(null)"),
            Repr::Bool(b) => write!(f, "JsValue({b})"),
            Repr::Num(b) => write!(f, "JsValue({b})"),
            Repr::Str(s) => write!(f, "JsValue({s:?})"),
            Repr::Obj { class, props } => {
                let m = props.borrow().get("message").and_then(|v| v.as_string());
                write!(f, "JsValue({class}: {})", m.unwrap_or_default())
            }
            Repr::Node(i) => write!(f, "JsValue(Node#{i})"),
            Repr::Host(c, i) => write!(f, "JsValue({c}#{i})"),
        }
    }
}
impl Default for JsValue {
    fn default() -> Self {
        Self::UNDEFINED
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        Self::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        Self::from_str(&s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        Self::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        Self::from_bool(b)
    }
}
impl From<f64> for JsValue {
    fn from(b: f64) -> Self {
        Self::from_f64(b)
    }
}
impl From<u32> for JsValue {
    fn from(b: u32) -> Self {
        Self::from_f64(b as f64)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

/// # Safety
/// Implementors are `repr(transparent)` wrappers of `JsValue` (possibly nested).
pub unsafe trait JsClass: Sized {
    fn is(v: &JsValue) -> bool;
}
unsafe impl JsClass for JsValue {
    fn is(_: &JsValue) -> bool {
        true
    }
}

pub trait JsCast: JsClass + AsRef<JsValue> + Into<JsValue> {
    fn instanceof(v: &JsValue) -> bool {
        Self::is(v)
    }
    fn has_type<T: JsCast>(&self) -> bool {
        T::is(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::is(self.as_ref())
    }
    fn unchecked_from_js(v: JsValue) -> Self {
        // SAFETY: `JsClass` types are transparent over `JsValue`.
        let v = std::mem::ManuallyDrop::new(v);
        unsafe { std::mem::transmute_copy::<JsValue, Self>(&v) }
    }
    fn unchecked_from_js_ref(v: &JsValue) -> &Self {
        // SAFETY: as above.
        unsafe { &*(v as *const JsValue as *const Self) }
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if T::is(self.as_ref()) { Ok(self.unchecked_into()) } else { Err(self) }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if T::is(self.as_ref()) { Some(T::unchecked_from_js_ref(self.as_ref())) } else { None }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
}
impl<T: JsClass + AsRef<JsValue> + Into<JsValue>> JsCast for T {}

#[derive(Debug, Clone)]
pub struct JsError(JsValue);
impl JsError {
    pub fn new(m: &str) -> Self {
        JsError(JsValue::error("Error", m))
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        e.0
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, m: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
