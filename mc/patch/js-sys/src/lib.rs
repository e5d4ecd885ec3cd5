//! Stand-in for `js-sys`: plain objects, `Reflect`, `JSON.stringify`.
use std::ops::Deref;
use wasm_bindgen::{JsClass, JsValue, Repr};

macro_rules! class {
    ($n:ident, $is:expr) => {
        #[repr(transparent)]
        #[derive(Clone, Debug, PartialEq)]
        pub struct $n(JsValue);
        // SAFETY: transparent over JsValue.
        unsafe impl JsClass for $n {
            fn is(v: &JsValue) -> bool {
                let f: fn(&JsValue) -> bool = $is;
                f(v)
            }
        }
        impl Deref for $n {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.0
            }
        }
        impl AsRef<JsValue> for $n {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl AsRef<$n> for $n {
            fn as_ref(&self) -> &$n {
                self
            }
        }
        impl From<$n> for JsValue {
            fn from(v: $n) -> JsValue {
                v.0
            }
        }
        impl From<JsValue> for $n {
            fn from(v: JsValue) -> $n {
                $n(v)
            }
        }
    };
}
class!(Object, |v| v.is_object());
class!(Array, |v| matches!(&v.0, Repr::Obj { class: "Array", .. }));
class!(JsString, |v| v.is_string());
class!(Error, |v| matches!(&v.0, Repr::Obj { class, .. } if *class != "Object" && *class != "Array"));

impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Object(JsValue::object("Object"))
    }
}
impl Array {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        let a = JsValue::object("Array");
        a.set_prop("length", JsValue::from_f64(0.0));
        Array(a)
    }
    pub fn length(&self) -> u32 {
        self.0.get_prop("length").as_f64().unwrap_or(0.0) as u32
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        let n = self.length();
        self.0.set_prop(&n.to_string(), v.clone());
        self.0.set_prop("length", JsValue::from_f64((n + 1) as f64));
        n + 1
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.0.get_prop(&i.to_string())
    }
    pub fn set(&self, i: u32, v: JsValue) {
        self.0.set_prop(&i.to_string(), v);
        if i >= self.length() {
            self.0.set_prop("length", JsValue::from_f64((i + 1) as f64));
        }
    }
    pub fn iter(&self) -> impl Iterator<Item = JsValue> + '_ {
        (0..self.length()).map(|i| self.get(i))
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.iter().collect()
    }
}
impl<T: AsRef<JsValue>> FromIterator<T> for Array {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Array {
        let a = Array::new();
        for x in i {
            a.push(x.as_ref());
        }
        a
    }
}
impl Error {
    pub fn new(m: &str) -> Self {
        Error(JsValue::error("Error", m))
    }
    pub fn message(&self) -> JsString {
        JsString(self.0.get_prop("message"))
    }
}
impl From<JsString> for String {
    fn from(s: JsString) -> String {
        s.as_string().unwrap_or_default()
    }
}
impl From<&JsString> for String {
    fn from(s: &JsString) -> String {
        s.as_string().unwrap_or_default()
    }
}

pub mod Reflect {
    #![allow(non_snake_case)]
    use super::*;
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        if !target.is_object() {
            return Err(JsValue::error("TypeError", "Reflect.get called on non-object"));
        }
        Ok(target.get_prop(&key.as_string().unwrap_or_default()))
    }
    pub fn set(target: &JsValue, key: &JsValue, value: &JsValue) -> Result<bool, JsValue> {
        if !target.is_object() {
            return Err(JsValue::error("TypeError", "Reflect.set called on non-object"));
        }
        Ok(target.set_prop(&key.as_string().unwrap_or_default(), value.clone()))
    }
    pub fn has(target: &JsValue, key: &JsValue) -> Result<bool, JsValue> {
        Ok(!get(target, key)?.is_undefined())
    }
}
pub mod JSON {
    #![allow(non_snake_case)]
    use super::*;
    pub fn stringify(v: &JsValue) -> Result<JsString, JsValue> {
        fn go(v: &JsValue) -> Option<String> {
            Some(match &v.0 {
                Repr::Undefined => return None,
                Repr::Null => "null".into(),
                Repr::Bool(b) => b.to_string(),
                Repr::Num(n) => n.to_string(),
                Repr::Str(s) => format!("{s:?}"),
                Repr::Obj { class: "Array", props } => {
                    let n = props.borrow().get("length").and_then(|v| v.as_f64()).unwrap_or(0.0) as u32;
                    let p: Vec<String> = (0..n)
                        .map(|i| props.borrow().get(&i.to_string()).and_then(go).unwrap_or("null".into()))
                        .collect();
                    format!("[{}]", p.join(","))
                }
                Repr::Obj { props, .. } => {
                    let p: Vec<String> =
                        props.borrow().iter().filter_map(|(k, v)| Some(format!("{k:?}:{}", go(v)?))).collect();
                    format!("{{{}}}", p.join(","))
                }
                Repr::Node(_) | Repr::Host(..) => "{}".into(),
            })
        }
        Ok(JsString(match go(v) {
            Some(s) => JsValue::from_str(&s),
            None => JsValue::UNDEFINED,
        }))
    }
}
