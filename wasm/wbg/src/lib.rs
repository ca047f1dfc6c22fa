//! Stand-in for wasm-bindgen: JavaScript values as values of this program.
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub use wasm_bindgen_macro::wasm_bindgen;
pub mod prelude {
    pub use crate::{JsCast, JsValue, UnwrapThrowExt};
    pub use wasm_bindgen_macro::wasm_bindgen;
}
pub mod convert {
    pub trait FromWasmAbi {
        type Abi;
        /// # Safety
        /// the value must be the handle of a value of this type
        unsafe fn from_abi(x: Self::Abi) -> Self;
    }
}

thread_local! {
    static OWNED: RefCell<(u32, HashMap<u32, Box<dyn Any>>)> = RefCell::new((0, HashMap::new()));
}
#[doc(hidden)]
pub fn __take<T: 'static>(x: u32) -> T {
    let v = OWNED.with(|o| o.borrow_mut().1.remove(&x)).expect("null pointer passed to rust");
    *v.downcast().expect("a value of this type")
}
#[doc(hidden)]
pub fn __forget_all() {
    OWNED.with(|o| o.borrow_mut().1.clear());
}

#[derive(Clone, Debug, Default)]
pub enum JsValue {
    #[default]
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    Str(String),
    Array(Rc<RefCell<Vec<JsValue>>>),
    Object(Rc<RefCell<Vec<(String, JsValue)>>>),
    /// milliseconds since 1970 (UTC; the local time zone is UTC too)
    Date(f64),
    /// an instance of a class of the binding
    Own(&'static str, u32),
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    #[doc(hidden)]
    pub fn __own<T: 'static>(class: &'static str, x: T) -> Self {
        OWNED.with(|o| {
            let mut o = o.borrow_mut();
            o.0 += 1;
            let k = o.0;
            o.1.insert(k, Box::new(x));
            JsValue::Own(class, k)
        })
    }
    #[doc(hidden)]
    pub fn __into<T: 'static>(self) -> T {
        match self {
            JsValue::Own(_, k) => __take(k),
            x => panic!("not an instance: {:?}", x),
        }
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self {
        JsValue::Str(s.to_string())
    }
    pub fn from_f64(x: f64) -> Self {
        JsValue::Number(x)
    }
    pub fn from_bool(x: bool) -> Self {
        JsValue::Bool(x)
    }
    pub fn undefined() -> Self {
        JsValue::Undefined
    }
    pub fn null() -> Self {
        JsValue::Null
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Number(x) => Some(*x),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(x) => Some(*x),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    pub fn is_string(&self) -> bool {
        matches!(self, JsValue::Str(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self, JsValue::Array(_) | JsValue::Object(_) | JsValue::Date(_) | JsValue::Own(..))
    }
    pub fn is_truthy(&self) -> bool {
        !self.is_falsy()
    }
    pub fn is_falsy(&self) -> bool {
        match self {
            JsValue::Undefined | JsValue::Null => true,
            JsValue::Bool(b) => !b,
            JsValue::Number(x) => *x == 0.0 || x.is_nan(),
            JsValue::Str(s) => s.is_empty(),
            _ => false,
        }
    }
    pub fn from_serde<T: serde::Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        fn go(v: serde_json::Value) -> JsValue {
            match v {
                serde_json::Value::Null => JsValue::Null,
                serde_json::Value::Bool(b) => JsValue::Bool(b),
                serde_json::Value::Number(n) => JsValue::Number(n.as_f64().unwrap()),
                serde_json::Value::String(s) => JsValue::Str(s),
                serde_json::Value::Array(a) => JsValue::Array(Rc::new(RefCell::new(a.into_iter().map(go).collect()))),
                serde_json::Value::Object(o) => JsValue::Object(Rc::new(RefCell::new(o.into_iter().map(|(k, v)| (k, go(v))).collect()))),
            }
        }
        serde_json::to_value(t).map(go)
    }
    /// what JSON.stringify followed by JSON.parse yields
    pub fn __json(&self) -> serde_json::Value {
        match self {
            JsValue::Undefined | JsValue::Null | JsValue::Own(..) => serde_json::Value::Null,
            JsValue::Bool(b) => (*b).into(),
            JsValue::Number(x) if x.fract() == 0.0 && x.abs() < 9e15 => (*x as i64).into(),
            JsValue::Number(x) => (*x).into(),
            JsValue::Str(s) => s.clone().into(),
            JsValue::Array(a) => a.borrow().iter().map(|x| x.__json()).collect(),
            JsValue::Object(o) => serde_json::Value::Object(o.borrow().iter().map(|(k, v)| (k.clone(), v.__json())).collect()),
            JsValue::Date(x) => format!("date {}", x).into(),
        }
    }
    pub fn into_serde<T: for<'a> serde::Deserialize<'a>>(&self) -> serde_json::Result<T> {
        serde_json::from_value(self.__json())
    }
}
impl From<&str> for JsValue {
    fn from(x: &str) -> Self {
        JsValue::from_str(x)
    }
}
impl From<String> for JsValue {
    fn from(x: String) -> Self {
        JsValue::Str(x)
    }
}
impl From<&String> for JsValue {
    fn from(x: &String) -> Self {
        JsValue::Str(x.clone())
    }
}
impl From<bool> for JsValue {
    fn from(x: bool) -> Self {
        JsValue::Bool(x)
    }
}
macro_rules! numbers {
    ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(x: $t) -> Self { JsValue::Number(x as f64) } })* };
}
numbers!(u8 i8 u16 i16 u32 i32 f32 f64 usize isize);
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(x: Option<T>) -> Self {
        x.map_or(JsValue::Undefined, Into::into)
    }
}
impl PartialEq<str> for JsValue {
    fn eq(&self, o: &str) -> bool {
        matches!(self, JsValue::Str(s) if s == o)
    }
}
impl PartialEq<&str> for JsValue {
    fn eq(&self, o: &&str) -> bool {
        matches!(self, JsValue::Str(s) if s == o)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

/// Casts between the wrappers of js-sys, each of which is one JsValue
pub trait JsCast: AsRef<JsValue> + Into<JsValue> + Sized {
    fn instanceof(v: &JsValue) -> bool;
    fn unchecked_from_js(v: JsValue) -> Self;
    fn unchecked_from_js_ref(v: &JsValue) -> &Self;
    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        T::instanceof(self.as_ref()).then(|| T::unchecked_from_js_ref(self.as_ref()))
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if T::instanceof(self.as_ref()) {
            Ok(T::unchecked_from_js(self.into()))
        } else {
            Err(self)
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(v: JsValue) -> Self {
        v
    }
    fn unchecked_from_js_ref(v: &JsValue) -> &Self {
        v
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    fn expect_throw(self, m: &str) -> T;
    fn unwrap_throw(self) -> T {
        self.expect_throw("unwrap_throw")
    }
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
pub fn throw_str(s: &str) -> ! {
    panic!("{}", s)
}
