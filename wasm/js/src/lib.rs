//! Stand-in for js-sys: the parts of JavaScript's library that bindings use.
//! The time zone is UTC.
use std::cell::RefCell;
use std::convert::TryFrom;
use std::iter::FromIterator;
use std::ops::Deref;
use std::rc::Rc;
use wasm_bindgen::{JsCast, JsValue};

macro_rules! class {
    ($n:ident, $v:ident => $is:expr) => {
        #[derive(Clone, Debug)]
        #[repr(transparent)]
        pub struct $n(JsValue);
        impl JsCast for $n {
            fn instanceof($v: &JsValue) -> bool {
                $is
            }
            fn unchecked_from_js(v: JsValue) -> Self {
                $n(v)
            }
            fn unchecked_from_js_ref(v: &JsValue) -> &Self {
                // repr(transparent)
                unsafe { &*(v as *const JsValue as *const $n) }
            }
            fn __value(&self) -> &JsValue {
                &self.0
            }
        }
        impl Deref for $n {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.0
            }
        }
        impl AsRef<JsValue> for $n {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl From<$n> for JsValue {
            fn from(x: $n) -> JsValue {
                x.0
            }
        }
        impl From<JsValue> for $n {
            fn from(x: JsValue) -> $n {
                $n(x)
            }
        }
    };
}
class!(Object, v => matches!(v, JsValue::Array(_) | JsValue::Object(_) | JsValue::Date(_) | JsValue::Export(..)));
class!(Date, v => matches!(v, JsValue::Date(_)));
class!(Function, v => matches!(v, JsValue::Class(_)));
class!(JsString, v => v.is_string());

/// Apart, as it can fail to be made of a value
#[derive(Clone, Debug)]
#[repr(transparent)]
pub struct Array(JsValue);
impl JsCast for Array {
    fn instanceof(v: &JsValue) -> bool {
        matches!(v, JsValue::Array(_))
    }
    fn unchecked_from_js(v: JsValue) -> Self {
        Array(v)
    }
    fn unchecked_from_js_ref(v: &JsValue) -> &Self {
        unsafe { &*(v as *const JsValue as *const Array) }
    }
    fn __value(&self) -> &JsValue {
        &self.0
    }
}
impl Deref for Array {
    type Target = JsValue;
    fn deref(&self) -> &JsValue {
        &self.0
    }
}
impl AsRef<JsValue> for Array {
    fn as_ref(&self) -> &JsValue {
        &self.0
    }
}
impl From<Array> for JsValue {
    fn from(x: Array) -> JsValue {
        x.0
    }
}
impl TryFrom<JsValue> for Array {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<Array, JsValue> {
        v.dyn_into()
    }
}
impl Default for Array {
    fn default() -> Self {
        Array::new()
    }
}
impl Array {
    pub fn new() -> Array {
        Array(JsValue::Array(Rc::new(RefCell::new(vec![]))))
    }
    fn items(&self) -> &RefCell<Vec<JsValue>> {
        match &self.0 {
            JsValue::Array(a) => a,
            _ => panic!("TypeError: not an array"),
        }
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        let mut a = self.items().borrow_mut();
        a.push(v.clone());
        a.len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.items().borrow().get(i as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn length(&self) -> u32 {
        self.items().borrow().len() as u32
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.items().borrow().clone()
    }
    pub fn is_array(v: &JsValue) -> bool {
        Array::instanceof(v)
    }
}
impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Array {
        Array(JsValue::Array(Rc::new(RefCell::new(i.into_iter().map(|x| x.as_ref().clone()).collect()))))
    }
}

impl Default for Object {
    fn default() -> Self {
        Object::new()
    }
}
impl Object {
    pub fn new() -> Object {
        Object(JsValue::Object(Rc::new(RefCell::new(vec![]))))
    }
    pub fn from_entries(v: &JsValue) -> Result<Object, JsValue> {
        let o = Object::new();
        let a: &Array = v.dyn_ref().ok_or_else(|| JsValue::from_str("TypeError: not iterable"))?;
        for e in a.iter() {
            let e: &Array = e.dyn_ref().ok_or_else(|| JsValue::from_str("TypeError: not an entry"))?;
            let k = e.get(0).as_string().unwrap_or_else(|| format!("{:?}", e.get(0)));
            o.set(&k, e.get(1));
        }
        Ok(o)
    }
    fn set(&self, k: &str, v: JsValue) {
        if let JsValue::Object(o) = &self.0 {
            let mut o = o.borrow_mut();
            match o.iter_mut().find(|x| x.0 == k) {
                Some(x) => x.1 = v,
                None => o.push((k.to_string(), v)),
            }
        }
    }
    pub fn entries(o: &Object) -> Array {
        let out = Array::new();
        if let JsValue::Object(o) = &o.0 {
            for (k, v) in o.borrow().iter() {
                let e = Array::new();
                e.push(&JsValue::from_str(k));
                e.push(v);
                out.push(&e);
            }
        }
        out
    }
    pub fn keys(o: &Object) -> Array {
        Object::entries(o).iter().map(|e| e.unchecked_ref::<Array>().get(0)).collect()
    }
    pub fn get_prototype_of(v: &JsValue) -> Object {
        Object(v.clone())
    }
    pub fn constructor(&self) -> Function {
        Function(JsValue::Class(match &self.0 {
            JsValue::Export(c, _) => c,
            JsValue::Array(_) => "Array",
            JsValue::Date(_) => "Date",
            JsValue::Str(_) => "String",
            JsValue::Num(_) => "Number",
            JsValue::Bool(_) => "Boolean",
            JsValue::Object(_) => "Object",
            _ => panic!("TypeError: not an object"),
        }))
    }
}
impl Function {
    pub fn name(&self) -> JsString {
        match &self.0 {
            JsValue::Class(c) => JsString(JsValue::from_str(c)),
            _ => JsString(JsValue::from_str("")),
        }
    }
}
impl PartialEq<str> for JsString {
    fn eq(&self, o: &str) -> bool {
        self.0.as_string().as_deref() == Some(o)
    }
}
impl<'a> PartialEq<&'a str> for JsString {
    fn eq(&self, o: &&'a str) -> bool {
        self.0.as_string().as_deref() == Some(*o)
    }
}
impl From<JsString> for String {
    fn from(s: JsString) -> String {
        s.0.as_string().unwrap_or_default()
    }
}

pub struct Reflect;
impl Reflect {
    pub fn get(v: &JsValue, k: &JsValue) -> Result<JsValue, JsValue> {
        let k = k.as_string().unwrap_or_default();
        match v {
            // Under the names that old and new versions of the glue give it
            JsValue::Export(_, p) if k == "ptr" || k == "__wbg_ptr" => Ok(JsValue::Num(*p as f64)),
            JsValue::Object(o) => {
                Ok(o.borrow().iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or(JsValue::Undefined))
            }
            JsValue::Undefined | JsValue::Null | JsValue::Bool(_) | JsValue::Num(_) | JsValue::Str(_) => {
                Err(JsValue::from_str("TypeError: Reflect.get called on non-object"))
            }
            _ => Ok(JsValue::Undefined),
        }
    }
}

/// Days since 1970 of a date of the Gregorian calendar; months and days may lie outside of their ranges
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = y + m.div_euclid(12);
    let m = m.rem_euclid(12) + 1;
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2 - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468 + (d - 1)
}
/// Year, month from zero, day of the month
fn civil(z: i64) -> (i64, u32, u32) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as i64;
    (yoe + era * 400 + (m <= 2) as i64, (m - 1) as u32, d)
}
const DAY: f64 = 86_400_000.0;
impl Date {
    /// As `new Date(year, month, day)`: months count from zero, years 0 to 99 are of the 20th century
    pub fn new_with_year_month_day(year: u32, month: i32, day: i32) -> Date {
        let y = if year <= 99 { 1900 + year as i64 } else { year as i64 };
        Date(JsValue::Date(days(y, month as i64, day as i64) as f64 * DAY))
    }
    pub fn new(v: &JsValue) -> Date {
        Date(JsValue::Date(v.as_f64().unwrap_or(f64::NAN)))
    }
    pub fn get_time(&self) -> f64 {
        match self.0 {
            JsValue::Date(x) => x,
            _ => f64::NAN,
        }
    }
    fn civil(&self) -> (i64, u32, u32) {
        let t = self.get_time();
        if t.is_nan() {
            return (0, 0, 0);
        }
        civil((t / DAY).floor() as i64)
    }
    pub fn get_utc_full_year(&self) -> u32 {
        self.civil().0 as u32
    }
    pub fn get_utc_month(&self) -> u32 {
        self.civil().1
    }
    pub fn get_utc_date(&self) -> u32 {
        self.civil().2
    }
    pub fn get_full_year(&self) -> u32 {
        self.civil().0 as u32
    }
    pub fn get_month(&self) -> u32 {
        self.civil().1
    }
    pub fn get_date(&self) -> u32 {
        self.civil().2
    }
}
