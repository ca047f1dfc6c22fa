//! Stand-in for js-sys: the parts of the JavaScript library that the binding
//! uses, with the meaning that ECMAScript gives them (in time zone UTC).
use std::cell::RefCell;
use std::convert::TryFrom;
use std::ops::Deref;
use std::rc::Rc;
use wasm_bindgen::{JsCast, JsValue};

macro_rules! wrapper {
    ($name:ident, $parent:ident, $is:pat) => {
        #[derive(Clone, Debug)]
        #[repr(transparent)]
        pub struct $name(JsValue);
        impl AsRef<JsValue> for $name {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl From<$name> for JsValue {
            fn from(x: $name) -> JsValue {
                x.0
            }
        }
        impl From<&$name> for JsValue {
            fn from(x: &$name) -> JsValue {
                x.0.clone()
            }
        }
        impl From<JsValue> for $name {
            fn from(x: JsValue) -> $name {
                $name(x)
            }
        }
        impl JsCast for $name {
            fn instanceof(v: &JsValue) -> bool {
                matches!(v, $is)
            }
            fn unchecked_from_js(v: JsValue) -> Self {
                $name(v)
            }
            fn unchecked_from_js_ref(v: &JsValue) -> &Self {
                // the wrapper has the layout of the value
                unsafe { &*(v as *const JsValue as *const $name) }
            }
        }
        impl Deref for $name {
            type Target = $parent;
            fn deref(&self) -> &$parent {
                $parent::unchecked_from_js_ref(&self.0)
            }
        }
    };
}
wrapper!(Object, JsValue, JsValue::Object(_) | JsValue::Array(_) | JsValue::Date(_) | JsValue::Own(..));
wrapper!(Date, Object, JsValue::Date(_));
wrapper!(Function, Object, JsValue::Object(_));
wrapper!(JsString, Object, JsValue::Str(_));

#[derive(Clone, Debug)]
#[repr(transparent)]
pub struct Array(JsValue);
impl AsRef<JsValue> for Array {
    fn as_ref(&self) -> &JsValue {
        &self.0
    }
}
impl From<Array> for JsValue {
    fn from(x: Array) -> JsValue {
        x.0
    }
}
impl From<&Array> for JsValue {
    fn from(x: &Array) -> JsValue {
        x.0.clone()
    }
}
impl JsCast for Array {
    fn instanceof(v: &JsValue) -> bool {
        matches!(v, JsValue::Array(_))
    }
    fn unchecked_from_js(v: JsValue) -> Self {
        Array(v)
    }
    fn unchecked_from_js_ref(v: &JsValue) -> &Self {
        // the wrapper has the layout of the value
        unsafe { &*(v as *const JsValue as *const Array) }
    }
}
impl Deref for Array {
    type Target = Object;
    fn deref(&self) -> &Object {
        Object::unchecked_from_js_ref(&self.0)
    }
}
impl TryFrom<JsValue> for Array {
    type Error = JsValue;
    fn try_from(x: JsValue) -> Result<Array, JsValue> {
        x.dyn_into()
    }
}
impl Default for Array {
    fn default() -> Self {
        Array::new()
    }
}

impl Array {
    fn v(&self) -> &Rc<RefCell<Vec<JsValue>>> {
        match &self.0 {
            JsValue::Array(a) => a,
            x => panic!("not an array: {:?}", x),
        }
    }
    pub fn new() -> Array {
        Array(JsValue::Array(Rc::default()))
    }
    pub fn of1(a: &JsValue) -> Array {
        [a.clone()].into_iter().collect()
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        [a.clone(), b.clone()].into_iter().collect()
    }
    pub fn new_with_length(n: u32) -> Array {
        (0..n).map(|_| JsValue::Undefined).collect()
    }
    pub fn from(x: &JsValue) -> Array {
        match x {
            JsValue::Array(a) => a.borrow().iter().cloned().collect(),
            _ => Array::new(),
        }
    }
    pub fn is_array(x: &JsValue) -> bool {
        matches!(x, JsValue::Array(_))
    }
    pub fn push(&self, x: &JsValue) -> u32 {
        self.v().borrow_mut().push(x.clone());
        self.length()
    }
    pub fn set(&self, i: u32, x: JsValue) {
        let mut v = self.v().borrow_mut();
        while v.len() <= i as usize {
            v.push(JsValue::Undefined);
        }
        v[i as usize] = x;
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.v().borrow().get(i as usize).cloned().unwrap_or_default()
    }
    pub fn length(&self) -> u32 {
        self.v().borrow().len() as u32
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.v().borrow().clone()
    }
}
impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<T: IntoIterator<Item = A>>(it: T) -> Self {
        Array(JsValue::Array(Rc::new(RefCell::new(it.into_iter().map(|x| x.as_ref().clone()).collect()))))
    }
}
impl<A: AsRef<JsValue>> Extend<A> for Array {
    fn extend<T: IntoIterator<Item = A>>(&mut self, it: T) {
        for x in it {
            self.push(x.as_ref());
        }
    }
}
impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

impl Default for Object {
    fn default() -> Self {
        Object::new()
    }
}
impl Object {
    pub fn new() -> Object {
        Object(JsValue::Object(Rc::default()))
    }
    pub fn from_entries(entries: &JsValue) -> Result<Object, JsValue> {
        let o = Object::new();
        match entries {
            JsValue::Array(a) => {
                for e in a.borrow().iter() {
                    match e {
                        JsValue::Array(e) => {
                            let e = e.borrow();
                            Reflect::set(&o, &e.first().cloned().unwrap_or_default(), &e.get(1).cloned().unwrap_or_default())?;
                        }
                        _ => return Err(JsValue::from_str("TypeError")),
                    }
                }
                Ok(o)
            }
            _ => Err(JsValue::from_str("TypeError")),
        }
    }
    pub fn entries(o: &Object) -> Array {
        match o.as_ref() {
            JsValue::Object(m) => m.borrow().iter().map(|(k, v)| Array::of2(&JsValue::from_str(k), v)).collect(),
            _ => Array::new(),
        }
    }
    pub fn keys(o: &Object) -> Array {
        Object::entries(o).iter().map(|e| Array::unchecked_from_js(e).get(0)).collect()
    }
    pub fn values(o: &Object) -> Array {
        Object::entries(o).iter().map(|e| Array::unchecked_from_js(e).get(1)).collect()
    }
    pub fn get_prototype_of(x: &JsValue) -> Object {
        let name = match x {
            JsValue::Own(class, _) => class,
            JsValue::Array(_) => "Array",
            JsValue::Str(_) => "String",
            JsValue::Number(_) => "Number",
            JsValue::Bool(_) => "Boolean",
            JsValue::Date(_) => "Date",
            JsValue::Object(_) => "Object",
            JsValue::Undefined | JsValue::Null => panic!("TypeError: Cannot convert undefined or null to object"),
        };
        let o = Object::new();
        Reflect::set(&o, &"constructor".into(), &name.into()).unwrap();
        o
    }
    pub fn constructor(&self) -> Function {
        Function(Reflect::get(self, &"constructor".into()).unwrap())
    }
}
impl Function {
    pub fn name(&self) -> JsString {
        JsString(self.0.clone())
    }
}
impl PartialEq<str> for JsString {
    fn eq(&self, o: &str) -> bool {
        self.0 == *o
    }
}
impl PartialEq<&str> for JsString {
    fn eq(&self, o: &&str) -> bool {
        self.0 == **o
    }
}
impl PartialEq<String> for JsString {
    fn eq(&self, o: &String) -> bool {
        self.0 == **o
    }
}

pub struct Reflect;
impl Reflect {
    pub fn get(o: &JsValue, k: &JsValue) -> Result<JsValue, JsValue> {
        let k = k.as_string().unwrap_or_default();
        match o {
            // (current glue calls it `__wbg_ptr`, the glue of the time `ptr`)
            JsValue::Own(_, n) if k == "ptr" || k == "__wbg_ptr" => Ok(JsValue::Number(*n as f64)),
            JsValue::Object(m) => Ok(m.borrow().iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or_default()),
            JsValue::Undefined | JsValue::Null => Err(JsValue::from_str("TypeError")),
            _ => Ok(JsValue::Undefined),
        }
    }
    pub fn set(o: &JsValue, k: &JsValue, v: &JsValue) -> Result<bool, JsValue> {
        let k = k.as_string().unwrap_or_default();
        match o {
            JsValue::Object(m) => {
                let mut m = m.borrow_mut();
                match m.iter_mut().find(|x| x.0 == k) {
                    Some(x) => x.1 = v.clone(),
                    None => m.push((k, v.clone())),
                }
                Ok(true)
            }
            _ => Err(JsValue::from_str("TypeError")),
        }
    }
}

fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = y + m.div_euclid(12);
    let m = m.rem_euclid(12) + 1;
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2 - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468 + d - 1
}
fn civil(z: i64) -> (i64, u32, u32) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m as u32, (doy - (153 * mp + 2) / 5 + 1) as u32)
}
impl Date {
    fn day(&self) -> (i64, u32, u32) {
        match self.0 {
            JsValue::Date(ms) => civil((ms / 86_400_000.0).floor() as i64),
            _ => panic!("not a date"),
        }
    }
    /// months count from 0; what is out of range carries over
    pub fn new_with_year_month_day(y: u32, m: i32, d: i32) -> Date {
        let y = if y < 100 { y + 1900 } else { y };
        Date(JsValue::Date(days(y as i64, m as i64, d as i64) as f64 * 86_400_000.0))
    }
    pub fn new_with_year_month(y: u32, m: i32) -> Date {
        Date::new_with_year_month_day(y, m, 1)
    }
    pub fn new(x: &JsValue) -> Date {
        match x {
            JsValue::Number(ms) | JsValue::Date(ms) => Date(JsValue::Date(*ms)),
            JsValue::Str(s) => {
                let p: Vec<i64> = s.split('T').next().unwrap().split('-').map(|x| x.parse().unwrap_or(1)).collect();
                Date(JsValue::Date(days(p[0], p.get(1).copied().unwrap_or(1) - 1, p.get(2).copied().unwrap_or(1)) as f64 * 86_400_000.0))
            }
            _ => panic!("date of {:?}", x),
        }
    }
    pub fn utc(y: f64, m: f64) -> f64 {
        days(y as i64, m as i64, 1) as f64 * 86_400_000.0
    }
    pub fn get_time(&self) -> f64 {
        match self.0 {
            JsValue::Date(ms) => ms,
            _ => f64::NAN,
        }
    }
    pub fn get_full_year(&self) -> u32 {
        self.day().0 as u32
    }
    pub fn get_month(&self) -> u32 {
        self.day().1 - 1
    }
    pub fn get_date(&self) -> u32 {
        self.day().2
    }
    pub fn get_utc_full_year(&self) -> u32 {
        self.day().0 as u32
    }
    pub fn get_utc_month(&self) -> u32 {
        self.day().1 - 1
    }
    pub fn get_utc_date(&self) -> u32 {
        self.day().2
    }
}
