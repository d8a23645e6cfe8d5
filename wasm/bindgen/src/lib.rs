//! Stand-in for wasm-bindgen: values of JavaScript as values of Rust, so that
//! bindings written for JavaScript can run and be watched without an engine.
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::{wasm_bindgen, JsCast, JsValue, UnwrapThrowExt};
}

pub mod convert {
    pub trait FromWasmAbi {
        type Abi;
        /// # Safety
        /// Safe here: wrong pointers panic
        unsafe fn from_abi(js: Self::Abi) -> Self;
    }
}

#[derive(Clone, Debug)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<str>),
    Array(Rc<RefCell<Vec<JsValue>>>),
    /// Properties in the order of insertion
    Object(Rc<RefCell<Vec<(String, JsValue)>>>),
    /// Milliseconds since 1970 in UTC
    Date(f64),
    /// An instance of an exported class
    Export(&'static str, u32),
    /// A class
    Class(&'static str),
}

thread_local! {
    static EXPORTED: RefCell<(u32, HashMap<u32, Box<dyn Any>>)> = RefCell::new((0, HashMap::new()));
}

#[doc(hidden)]
pub fn __export(class: &'static str, x: Box<dyn Any>) -> JsValue {
    EXPORTED.with(|e| {
        let mut e = e.borrow_mut();
        e.0 += 8;
        let p = e.0;
        e.1.insert(p, x);
        JsValue::Export(class, p)
    })
}

#[doc(hidden)]
pub fn __take(p: u32) -> Box<dyn Any> {
    EXPORTED.with(|e| e.borrow_mut().1.remove(&p)).expect("null pointer passed to rust")
}

/// Instances that were exported and not taken back
pub fn exported() -> usize {
    EXPORTED.with(|e| e.borrow().1.len())
}

/// Forgets all instances
pub fn forget() {
    EXPORTED.with(|e| e.borrow_mut().1.clear())
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue::Str(s.into())
    }
    pub fn from_f64(x: f64) -> JsValue {
        JsValue::Num(x)
    }
    pub fn from_bool(x: bool) -> JsValue {
        JsValue::Bool(x)
    }
    pub fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub fn null() -> JsValue {
        JsValue::Null
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    pub fn is_string(&self) -> bool {
        matches!(self, JsValue::Str(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self, JsValue::Array(_) | JsValue::Object(_) | JsValue::Date(_) | JsValue::Export(..) | JsValue::Null)
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Num(x) => Some(*x),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(x) => Some(*x),
            _ => None,
        }
    }
    /// As JSON.parse(text of serde_json)
    pub fn from_serde<T: serde::ser::Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        let s = serde_json::to_string(t)?;
        Ok(JsValue::__of_json(&serde_json::from_str(&s)?))
    }
    /// Through JSON.stringify(value), where undefined gives null
    pub fn into_serde<T: for<'a> serde::de::Deserialize<'a>>(&self) -> serde_json::Result<T> {
        let v = self.__json().unwrap_or(serde_json::Value::Null);
        serde_json::from_str(&v.to_string())
    }
    #[doc(hidden)]
    pub fn __of_json(v: &serde_json::Value) -> JsValue {
        use serde_json::Value::*;
        match v {
            Null => JsValue::Null,
            Bool(b) => JsValue::Bool(*b),
            Number(n) => JsValue::Num(n.as_f64().unwrap_or(f64::NAN)),
            String(s) => JsValue::from_str(s),
            Array(a) => JsValue::Array(Rc::new(RefCell::new(a.iter().map(JsValue::__of_json).collect()))),
            Object(o) => JsValue::Object(Rc::new(RefCell::new(
                o.iter().map(|(k, v)| (k.clone(), JsValue::__of_json(v))).collect(),
            ))),
        }
    }
    /// As JSON.stringify
    #[doc(hidden)]
    pub fn __json(&self) -> Option<serde_json::Value> {
        use serde_json::Value;
        Some(match self {
            JsValue::Undefined | JsValue::Class(_) => return None,
            JsValue::Null => Value::Null,
            JsValue::Bool(b) => Value::Bool(*b),
            JsValue::Num(n) if n.fract() == 0.0 && n.abs() < 9e15 => Value::from(*n as i64),
            JsValue::Num(n) => Value::from(*n),
            JsValue::Str(s) => Value::from(s.to_string()),
            JsValue::Array(a) => {
                Value::Array(a.borrow().iter().map(|x| x.__json().unwrap_or(Value::Null)).collect())
            }
            JsValue::Object(o) => Value::Object(
                o.borrow().iter().filter_map(|(k, v)| v.__json().map(|v| (k.clone(), v))).collect(),
            ),
            JsValue::Date(x) => Value::from(format!("date {}", x)),
            JsValue::Export(c, p) => Value::from(format!("{} {}", c, p)),
        })
    }
}

macro_rules! from {
    ($($t:ty => |$x:ident| $e:expr),* $(,)?) => {
        $(impl From<$t> for JsValue { fn from($x: $t) -> JsValue { $e } })*
    };
}
from! {
    String => |x| JsValue::from_str(&x),
    &str => |x| JsValue::from_str(x),
    &String => |x| JsValue::from_str(x),
    bool => |x| JsValue::Bool(x),
    f64 => |x| JsValue::Num(x),
    u32 => |x| JsValue::Num(x as f64),
    i32 => |x| JsValue::Num(x as f64),
    usize => |x| JsValue::Num(x as f64),
}
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(x: Option<T>) -> JsValue {
        x.map(Into::into).unwrap_or(JsValue::Undefined)
    }
}

impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

/// What can be looked at as something more special
pub trait JsCast: Sized {
    fn instanceof(v: &JsValue) -> bool;
    fn unchecked_from_js(v: JsValue) -> Self;
    fn unchecked_from_js_ref(v: &JsValue) -> &Self;
    fn __value(&self) -> &JsValue;
    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.__value())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.__value())
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        T::instanceof(self.__value()).then(|| T::unchecked_from_js_ref(self.__value()))
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if T::instanceof(self.__value()) {
            Ok(T::unchecked_from_js(self.__value().clone()))
        } else {
            Err(self)
        }
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.__value())
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.__value().clone())
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(v: JsValue) -> Self {
        v
    }
    fn unchecked_from_js_ref(v: &JsValue) -> &Self {
        v
    }
    fn __value(&self) -> &JsValue {
        self
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, m: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
