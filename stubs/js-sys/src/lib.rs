//! The part of JavaScript's standard library that bindings use.
use std::fmt;
use wasm_bindgen::{js_type, sim, JsCast, JsValue};

js_type! { pub Object, |v| v.is_object() || v.is_function() }
js_type! { pub Function, |v| v.is_function() }
js_type! { pub JsString, |v| v.is_string() }
js_type! { pub Number, |v| v.as_f64().is_some() }
js_type! { pub Boolean, |v| v.as_bool().is_some() }
js_type! { pub Array, |v| v.is_array() }
js_type! { pub Promise, |v| sim::is_promise(v) }

macro_rules! errors {
    ($($n:ident)*) => { $(
        js_type! { pub $n, |v| sim::is_error(v) && (stringify!($n) == "Error" || sim::get_property(v, "name").ok().and_then(|n| n.as_string()).as_deref() == Some(stringify!($n))) }
        impl $n {
            pub fn new(message: &str) -> $n {
                sim::error(stringify!($n), message).into()
            }
            pub fn name(&self) -> JsString {
                JsString::from(self.part("name"))
            }
            pub fn set_name(&self, name: &str) {
                sim::set_property(self, "name", name.into());
            }
            pub fn message(&self) -> JsString {
                JsString::from(self.part("message"))
            }
            pub fn set_message(&self, message: &str) {
                sim::set_property(self, "message", message.into());
            }
            pub fn cause(&self) -> JsValue {
                self.part("cause")
            }
            pub fn set_cause(&self, cause: &JsValue) {
                sim::set_property(self, "cause", cause.clone());
            }
            pub fn to_string(&self) -> JsString {
                sim::error_text(self).as_str().into()
            }
            fn part(&self, k: &str) -> JsValue {
                sim::get_property(self, k).unwrap_or_default()
            }
        }
    )* };
}
errors!(Error TypeError RangeError SyntaxError EvalError ReferenceError);

impl<'a> From<&'a str> for JsString {
    fn from(s: &'a str) -> Self {
        JsValue::from_str(s).into()
    }
}
impl From<String> for JsString {
    fn from(s: String) -> Self {
        JsValue::from_str(&s).into()
    }
}
impl From<JsString> for String {
    fn from(s: JsString) -> Self {
        s.as_string().unwrap_or_default()
    }
}
impl<'a> From<&'a JsString> for String {
    fn from(s: &'a JsString) -> Self {
        s.as_string().unwrap_or_default()
    }
}
impl fmt::Display for JsString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.as_string().unwrap_or_default())
    }
}
impl<'a> PartialEq<&'a str> for JsString {
    fn eq(&self, o: &&'a str) -> bool {
        self.as_string().as_deref() == Some(*o)
    }
}
impl JsString {
    pub fn length(&self) -> u32 {
        sim::get_property(self, "length").ok().and_then(|n| n.as_f64()).unwrap_or(0.0) as u32
    }
    pub fn try_from(v: &JsValue) -> Option<&JsString> {
        v.dyn_ref()
    }
}

impl Array {
    pub fn new() -> Array {
        sim::array(vec![]).into()
    }
    pub fn new_with_length(n: u32) -> Array {
        sim::array(vec![JsValue::UNDEFINED; n as usize]).into()
    }
    pub fn of1(a: &JsValue) -> Array {
        sim::array(vec![a.clone()]).into()
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        sim::array(vec![a.clone(), b.clone()]).into()
    }
    pub fn of3(a: &JsValue, b: &JsValue, c: &JsValue) -> Array {
        sim::array(vec![a.clone(), b.clone(), c.clone()]).into()
    }
    /// `Array.from(v)`
    pub fn from(v: &JsValue) -> Array {
        match sim::items(v) {
            Some(a) => sim::array(a.borrow().clone()).into(),
            None => match v.as_string() {
                Some(s) => s.chars().map(|c| JsValue::from_str(&c.to_string())).collect(),
                None => Array::new(),
            },
        }
    }
    pub fn is_array(v: &JsValue) -> bool {
        v.is_array()
    }
    fn items(&self) -> std::rc::Rc<std::cell::RefCell<Vec<JsValue>>> {
        sim::items(self).unwrap_or_default()
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.items().borrow().get(i as usize).cloned().unwrap_or_default()
    }
    pub fn at(&self, i: i32) -> JsValue {
        let n = self.length() as i32;
        self.get((if i < 0 { n + i } else { i }) as u32)
    }
    pub fn set(&self, i: u32, v: JsValue) {
        sim::set_property(self, &i.to_string(), v);
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        self.items().borrow_mut().push(v.clone());
        self.length()
    }
    pub fn pop(&self) -> JsValue {
        self.items().borrow_mut().pop().unwrap_or_default()
    }
    pub fn length(&self) -> u32 {
        self.items().borrow().len() as u32
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.items().borrow().clone()
    }
    pub fn concat(&self, o: &Array) -> Array {
        self.iter().chain(o.iter()).collect()
    }
    pub fn includes(&self, v: &JsValue, from: i32) -> bool {
        self.iter().skip(from.max(0) as usize).any(|x| x == *v)
    }
    pub fn for_each(&self, f: &mut dyn FnMut(JsValue, u32, Array)) {
        for (i, v) in self.iter().enumerate() {
            f(v, i as u32, self.clone());
        }
    }
}
impl Default for Array {
    fn default() -> Self {
        Array::new()
    }
}
impl<A: AsRef<JsValue>> std::iter::FromIterator<A> for Array {
    fn from_iter<I: IntoIterator<Item = A>>(it: I) -> Self {
        sim::array(it.into_iter().map(|x| x.as_ref().clone()).collect()).into()
    }
}
impl<A: AsRef<JsValue>> Extend<A> for Array {
    fn extend<I: IntoIterator<Item = A>>(&mut self, it: I) {
        for x in it {
            self.push(x.as_ref());
        }
    }
}
impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a> IntoIterator for &'a Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

impl Object {
    pub fn new() -> Object {
        sim::object(vec![]).into()
    }
    pub fn keys(o: &Object) -> Array {
        sim::keys(o).iter().map(|k| JsValue::from_str(k)).collect()
    }
    pub fn values(o: &Object) -> Array {
        sim::keys(o).iter().map(|k| sim::get_property(o, k).unwrap_or_default()).collect()
    }
    pub fn entries(o: &Object) -> Array {
        sim::keys(o).iter().map(|k| JsValue::from(Array::of2(&JsValue::from_str(k), &sim::get_property(o, k).unwrap_or_default()))).collect()
    }
}
impl Default for Object {
    fn default() -> Self {
        Object::new()
    }
}

#[allow(non_snake_case)]
pub mod Reflect {
    use super::*;
    pub fn get(o: &JsValue, k: &JsValue) -> Result<JsValue, JsValue> {
        sim::get_property(o, &key(k))
    }
    pub fn set(o: &JsValue, k: &JsValue, v: &JsValue) -> Result<bool, JsValue> {
        Ok(sim::set_property(o, &key(k), v.clone()))
    }
    pub fn has(o: &JsValue, k: &JsValue) -> Result<bool, JsValue> {
        Ok(sim::keys(o).contains(&key(k)))
    }
    fn key(k: &JsValue) -> String {
        k.as_string().unwrap_or_else(|| sim::show(k))
    }
}

#[allow(non_snake_case)]
pub mod JSON {
    use super::*;
    pub fn parse(s: &str) -> Result<JsValue, JsValue> {
        sim::parse_json(s)
    }
    pub fn stringify(v: &JsValue) -> Result<JsString, JsValue> {
        Ok(match sim::stringify(v) {
            Some(s) => s.into(),
            None => JsValue::UNDEFINED.into(),
        })
    }
}

impl Function {
    pub fn call0(&self, _: &JsValue) -> Result<JsValue, JsValue> {
        sim::call_function(self, &[])
    }
    pub fn call1(&self, _: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> {
        sim::call_function(self, &[a.clone()])
    }
    pub fn call2(&self, _: &JsValue, a: &JsValue, b: &JsValue) -> Result<JsValue, JsValue> {
        sim::call_function(self, &[a.clone(), b.clone()])
    }
}

impl Promise {
    pub fn new(f: &mut dyn FnMut(Function, Function)) -> Promise {
        let p = sim::promise();
        let (a, b) = (p.clone(), p.clone());
        let yes = sim::function(move |v| {
            sim::settle(&a, Ok(sim::nth(v, 0)));
            Ok(JsValue::UNDEFINED)
        });
        let no = sim::function(move |v| {
            sim::settle(&b, Err(sim::nth(v, 0)));
            Ok(JsValue::UNDEFINED)
        });
        f(yes.into(), no.into());
        p.into()
    }
    pub fn resolve(v: &JsValue) -> Promise {
        if sim::is_promise(v) {
            return v.clone().into();
        }
        sim::resolved(Ok(v.clone())).into()
    }
    pub fn reject(v: &JsValue) -> Promise {
        sim::resolved(Err(v.clone())).into()
    }
}
