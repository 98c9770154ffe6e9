//! `wasm_bindgen` over a simulated JavaScript engine.  Values are reference counted; promises settle
//! once, and wake whoever waits for them; host objects are closures of the simulator.
use std::any::Any;
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub use wasm_bindgen_macro::wasm_bindgen;
pub mod sim;
mod text;

pub mod prelude {
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt};
    pub use wasm_bindgen_macro::wasm_bindgen;
}

pub(crate) type Members = Rc<RefCell<Vec<(String, JsValue)>>>;

#[derive(Clone)]
pub(crate) enum V {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<str>),
    Array(Rc<RefCell<Vec<JsValue>>>),
    Object(Members),
    /// An instance of `Error` or of a class below it, with its members.
    Error(Members),
    /// An instance of an exported Rust type.
    Instance(&'static str, Rc<dyn Any>),
    Host(Rc<dyn sim::Host>),
    Promise(Rc<RefCell<sim::PromiseState>>),
    Function(Rc<dyn Fn(&[JsValue]) -> Result<JsValue, JsValue>>),
}

#[derive(Clone)]
#[repr(transparent)]
pub struct JsValue(pub(crate) V);

#[allow(non_snake_case)]
impl JsValue {
    pub const NULL: JsValue = JsValue(V::Null);
    pub const UNDEFINED: JsValue = JsValue(V::Undefined);
    pub const TRUE: JsValue = JsValue(V::Bool(true));
    pub const FALSE: JsValue = JsValue(V::Bool(false));

    pub fn null() -> JsValue {
        JsValue(V::Null)
    }
    pub fn undefined() -> JsValue {
        JsValue(V::Undefined)
    }
    pub fn from_str(s: &str) -> JsValue {
        JsValue(V::Str(s.into()))
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue(V::Num(n))
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue(V::Bool(b))
    }
    /// By way of `JSON.stringify` and `JSON.parse`, as the real thing does.
    pub fn from_serde<T: serde::Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        let s = serde_json::to_string(t)?;
        Ok(text::parse(&s).expect("JSON.parse of what serde_json made"))
    }
    pub fn into_serde<T: for<'a> serde::de::Deserialize<'a>>(&self) -> serde_json::Result<T> {
        let s = if self.is_undefined() { "null".to_string() } else { text::stringify(self).unwrap_or_default() };
        serde_json::from_str(&s)
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            V::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self.0 {
            V::Num(n) => Some(n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self.0 {
            V::Bool(b) => Some(b),
            _ => None,
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self.0, V::Null)
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.0, V::Undefined)
    }
    pub fn is_null_or_undefined(&self) -> bool {
        self.is_null() || self.is_undefined()
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, V::Str(_))
    }
    pub fn is_symbol(&self) -> bool {
        false
    }
    pub fn is_bigint(&self) -> bool {
        false
    }
    pub fn is_array(&self) -> bool {
        matches!(self.0, V::Array(_))
    }
    pub fn is_function(&self) -> bool {
        matches!(self.0, V::Function(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self.0, V::Array(_) | V::Object(_) | V::Error(_) | V::Instance(..) | V::Host(_) | V::Promise(_))
    }
    pub fn is_truthy(&self) -> bool {
        !self.is_falsy()
    }
    pub fn is_falsy(&self) -> bool {
        match &self.0 {
            V::Undefined | V::Null => true,
            V::Bool(b) => !b,
            V::Num(n) => *n == 0.0 || n.is_nan(),
            V::Str(s) => s.is_empty(),
            _ => false,
        }
    }
    pub fn js_typeof(&self) -> JsValue {
        JsValue::from_str(match &self.0 {
            V::Undefined => "undefined",
            V::Bool(_) => "boolean",
            V::Num(_) => "number",
            V::Str(_) => "string",
            V::Function(_) => "function",
            _ => "object",
        })
    }
    pub fn loose_eq(&self, other: &JsValue) -> bool {
        self == other || (self.is_null_or_undefined() && other.is_null_or_undefined())
    }
}

impl Default for JsValue {
    fn default() -> Self {
        JsValue::UNDEFINED
    }
}

/// `===`
impl PartialEq for JsValue {
    fn eq(&self, o: &JsValue) -> bool {
        match (&self.0, &o.0) {
            (V::Undefined, V::Undefined) | (V::Null, V::Null) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Num(a), V::Num(b)) => a == b,
            (V::Str(a), V::Str(b)) => a == b,
            (V::Array(a), V::Array(b)) => Rc::ptr_eq(a, b),
            (V::Object(a), V::Object(b)) | (V::Error(a), V::Error(b)) => Rc::ptr_eq(a, b),
            (V::Instance(_, a), V::Instance(_, b)) => Rc::ptr_eq(a, b),
            (V::Promise(a), V::Promise(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}
impl PartialEq<str> for JsValue {
    fn eq(&self, o: &str) -> bool {
        matches!(&self.0, V::Str(s) if &**s == o)
    }
}
impl<'a> PartialEq<&'a str> for JsValue {
    fn eq(&self, o: &&'a str) -> bool {
        self == *o
    }
}
impl PartialEq<String> for JsValue {
    fn eq(&self, o: &String) -> bool {
        self == o.as_str()
    }
}
impl PartialEq<bool> for JsValue {
    fn eq(&self, o: &bool) -> bool {
        self.as_bool() == Some(*o)
    }
}

impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JsValue({})", text::debug(self))
    }
}

impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl<'a> From<&'a JsValue> for JsValue {
    fn from(v: &'a JsValue) -> Self {
        v.clone()
    }
}
impl<'a> From<&'a str> for JsValue {
    fn from(s: &'a str) -> Self {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::from_str(&s)
    }
}
impl<'a> From<&'a String> for JsValue {
    fn from(s: &'a String) -> Self {
        JsValue::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        JsValue::from_bool(b)
    }
}
macro_rules! numbers {
    ($($t:ty)*) => { $(
        impl From<$t> for JsValue {
            fn from(n: $t) -> Self {
                JsValue::from_f64(n as f64)
            }
        }
    )* };
}
numbers!(i8 u8 i16 u16 i32 u32 f32 f64 usize isize);
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(o: Option<T>) -> Self {
        o.map(Into::into).unwrap_or(JsValue::UNDEFINED)
    }
}
impl<T: Into<JsValue>> From<Vec<T>> for JsValue {
    fn from(v: Vec<T>) -> Self {
        sim::array(v.into_iter().map(Into::into).collect())
    }
}
impl<T: Into<JsValue>> From<Box<[T]>> for JsValue {
    fn from(v: Box<[T]>) -> Self {
        v.into_vec().into()
    }
}

/// `new Error(message)` made on the Rust side.
#[derive(Clone, Debug)]
pub struct JsError {
    value: JsValue,
}
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError { value: sim::error("Error", s) }
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        JsError::new(&e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        e.value
    }
}

pub trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn instanceof(val: &JsValue) -> bool;
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
    fn is_type_of(val: &JsValue) -> bool {
        Self::instanceof(val)
    }
    fn has_type<T: JsCast>(&self) -> bool {
        T::is_type_of(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self>
    where
        Self: Sized,
    {
        if self.has_type::<T>() {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() {
            Some(self.unchecked_ref())
        } else {
            None
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T
    where
        Self: Sized,
    {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
}

impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        val
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T {
        self.expect_throw("unwrap_throw")
    }
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn expect_throw(self, message: &str) -> T {
        self.unwrap_or_else(|| throw_str(message))
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn expect_throw(self, message: &str) -> T {
        self.unwrap_or_else(|_| throw_str(message))
    }
}
pub fn throw_str(s: &str) -> ! {
    throw_val(JsValue::from_str(s))
}
pub fn throw_val(v: JsValue) -> ! {
    panic!("thrown through Rust frames: {:?}", v)
}

/// A type of values that only JavaScript can make.
#[macro_export]
macro_rules! imported_type {
    ($(#[$m:meta])* $vis:vis $n:ident) => {
        $crate::js_type! { $(#[$m])* $vis $n, |v| v.is_object() }
    };
}

/// A wrapper around values for which a test holds.
#[macro_export]
macro_rules! js_type {
    ($(#[$m:meta])* $vis:vis $n:ident, |$v:ident| $test:expr) => {
        $(#[$m])*
        #[derive(Clone, Debug, PartialEq)]
        #[repr(transparent)]
        $vis struct $n { obj: $crate::JsValue }
        impl ::core::convert::From<$crate::JsValue> for $n {
            fn from(obj: $crate::JsValue) -> Self { $n { obj } }
        }
        impl ::core::convert::From<$n> for $crate::JsValue {
            fn from(v: $n) -> Self { v.obj }
        }
        impl<'a> ::core::convert::From<&'a $n> for $crate::JsValue {
            fn from(v: &'a $n) -> Self { v.obj.clone() }
        }
        impl ::core::convert::AsRef<$crate::JsValue> for $n {
            fn as_ref(&self) -> &$crate::JsValue { &self.obj }
        }
        impl ::core::ops::Deref for $n {
            type Target = $crate::JsValue;
            fn deref(&self) -> &$crate::JsValue { &self.obj }
        }
        impl $crate::JsCast for $n {
            fn instanceof($v: &$crate::JsValue) -> bool { $test }
            fn unchecked_from_js(obj: $crate::JsValue) -> Self { $n { obj } }
            fn unchecked_from_js_ref(v: &$crate::JsValue) -> &Self {
                // `repr(transparent)`
                unsafe { &*(v as *const $crate::JsValue as *const Self) }
            }
        }
        impl $crate::sim::FromJs for $n {
            fn from_js(v: &$crate::JsValue) -> ::core::result::Result<Self, $crate::JsValue> { Ok($n { obj: v.clone() }) }
        }
        impl $crate::sim::IntoJs for $n {
            fn into_js(self) -> ::core::result::Result<$crate::JsValue, $crate::JsValue> { Ok(self.obj) }
        }
        impl $crate::sim::FromRet for $n {
            fn from_ret(v: $crate::JsValue) -> Self { $n { obj: v } }
        }
    };
}
