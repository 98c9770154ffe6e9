//! The engine's side: what a simulator uses, and what the attribute's expansion refers to.
use crate::{text, JsValue, V};
use std::any::Any;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Mutex;
use std::task::{Context, Poll, Waker};

// ---------------------------------------------------------------- exports

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Static,
    Method,
    Constructor,
    Getter,
    Start,
}
pub type Shim = fn(JsValue, Vec<JsValue>) -> Result<JsValue, JsValue>;

static EXPORTS: Mutex<Vec<(&'static str, &'static str, Kind, Shim)>> = Mutex::new(Vec::new());

pub fn register(class: &'static str, name: &'static str, kind: Kind, shim: Shim) {
    EXPORTS.lock().unwrap().push((class, name, kind, shim));
}

pub fn exports() -> Vec<(&'static str, &'static str, Kind)> {
    let mut v: Vec<_> = EXPORTS.lock().unwrap().iter().map(|e| (e.0, e.1, e.2)).collect();
    v.sort_by_key(|e| (e.0, e.1));
    v
}

fn find(class: &str, name: &str, ok: impl Fn(Kind) -> bool) -> Result<Shim, JsValue> {
    let e = EXPORTS.lock().unwrap().iter().find(|e| e.0 == class && e.1 == name && ok(e.2)).map(|e| e.3);
    e.ok_or_else(|| error("TypeError", &format!("{}.{} is not a function", class, name)))
}

/// `new Class(args)`
pub fn construct(class: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    let f = EXPORTS.lock().unwrap().iter().find(|e| e.0 == class && e.2 == Kind::Constructor).map(|e| e.3);
    match f {
        Some(f) => f(JsValue::UNDEFINED, args),
        None => Err(error("TypeError", &format!("{} is not a constructor", class))),
    }
}
/// `Class.name(args)`
pub fn call_static(class: &str, name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    find(class, name, |k| k == Kind::Static)?(JsValue::UNDEFINED, args)
}
/// `value.name(args)`
pub fn call(this: &JsValue, name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    match &this.0 {
        V::Instance(class, _) => find(class, name, |k| k == Kind::Method)?(this.clone(), args),
        _ => call_method(this, name, args),
    }
}
pub fn class_of(v: &JsValue) -> Option<&'static str> {
    match &v.0 {
        V::Instance(c, _) => Some(c),
        _ => None,
    }
}
/// `value.free()`
pub fn free<T: 'static>(v: &JsValue) {
    let _ = take_instance::<T>(v);
}

pub fn nth(args: &[JsValue], n: usize) -> JsValue {
    args.get(n).cloned().unwrap_or(JsValue::UNDEFINED)
}

// ---------------------------------------------------------------- instances of Rust types

pub fn instance<T: 'static>(class: &'static str, v: T) -> JsValue {
    JsValue(V::Instance(class, Rc::new(RefCell::new(Some(v))) as Rc<dyn Any>))
}
pub fn cell<T: 'static>(v: &JsValue) -> Result<Rc<RefCell<Option<T>>>, JsValue> {
    match &v.0 {
        V::Instance(_, a) => a.clone().downcast::<RefCell<Option<T>>>().map_err(|_| error("Error", "expected instance of another class")),
        _ => Err(error("Error", "expected instance of a class")),
    }
}
pub fn take_instance<T: 'static>(v: &JsValue) -> Result<T, JsValue> {
    cell::<T>(v)?.borrow_mut().take().ok_or_else(freed)
}
pub fn freed() -> JsValue {
    error("Error", "null pointer passed to rust")
}

// ---------------------------------------------------------------- values

pub fn array(v: Vec<JsValue>) -> JsValue {
    JsValue(V::Array(Rc::new(RefCell::new(v))))
}
pub fn object(m: Vec<(String, JsValue)>) -> JsValue {
    JsValue(V::Object(Rc::new(RefCell::new(m))))
}
pub fn function(f: impl Fn(&[JsValue]) -> Result<JsValue, JsValue> + 'static) -> JsValue {
    JsValue(V::Function(Rc::new(f)))
}
pub fn error(name: &str, message: &str) -> JsValue {
    JsValue(V::Error(Rc::new(RefCell::new(vec![("name".into(), name.into()), ("message".into(), message.into())]))))
}
pub fn is_error(v: &JsValue) -> bool {
    matches!(v.0, V::Error(_))
}
pub fn is_promise(v: &JsValue) -> bool {
    matches!(v.0, V::Promise(_))
}
pub fn error_text(v: &JsValue) -> String {
    let part = |k: &str| get_property(v, k).ok().and_then(|x| x.as_string()).unwrap_or_default();
    let (n, m) = (part("name"), part("message"));
    if m.is_empty() {
        n
    } else {
        format!("{}: {}", n, m)
    }
}
/// The items of an array.
pub fn items(v: &JsValue) -> Option<Rc<RefCell<Vec<JsValue>>>> {
    match &v.0 {
        V::Array(a) => Some(a.clone()),
        _ => None,
    }
}
pub fn keys(v: &JsValue) -> Vec<String> {
    match &v.0 {
        V::Object(m) => m.borrow().iter().map(|(k, _)| k.clone()).collect(),
        V::Error(m) => m.borrow().iter().map(|(k, _)| k.clone()).filter(|k| k != "name" && k != "message").collect(),
        V::Array(a) => (0..a.borrow().len()).map(|i| i.to_string()).collect(),
        _ => vec![],
    }
}
pub fn get_property(v: &JsValue, k: &str) -> Result<JsValue, JsValue> {
    Ok(match &v.0 {
        V::Undefined | V::Null => return Err(error("TypeError", &format!("Cannot read properties of {} (reading '{}')", text::debug(v), k))),
        V::Object(m) | V::Error(m) => m.borrow().iter().find(|(n, _)| n == k).map(|(_, v)| v.clone()).unwrap_or_default(),
        V::Array(a) => match k {
            "length" => JsValue::from_f64(a.borrow().len() as f64),
            _ => k.parse::<usize>().ok().and_then(|i| a.borrow().get(i).cloned()).unwrap_or_default(),
        },
        V::Str(s) if k == "length" => JsValue::from_f64(s.encode_utf16().count() as f64),
        _ => JsValue::UNDEFINED,
    })
}
pub fn set_property(v: &JsValue, k: &str, x: JsValue) -> bool {
    match &v.0 {
        V::Object(m) | V::Error(m) => {
            let mut m = m.borrow_mut();
            match m.iter_mut().find(|(n, _)| n == k) {
                Some(e) => e.1 = x,
                None => m.push((k.to_string(), x)),
            }
            true
        }
        V::Array(a) => match k.parse::<usize>() {
            Ok(i) => {
                let mut a = a.borrow_mut();
                while a.len() <= i {
                    a.push(JsValue::UNDEFINED);
                }
                a[i] = x;
                true
            }
            Err(_) => false,
        },
        _ => false,
    }
}
pub fn parse_json(s: &str) -> Result<JsValue, JsValue> {
    text::parse(s)
}
pub fn stringify(v: &JsValue) -> Option<String> {
    text::stringify(v)
}
pub fn from_json(v: &serde_json::Value) -> JsValue {
    text::value(v)
}
/// What is left of a value after `JSON.stringify`.
pub fn to_json(v: &JsValue) -> Option<serde_json::Value> {
    text::stringify(v).and_then(|s| serde_json::from_str(&s).ok())
}
pub fn show(v: &JsValue) -> String {
    text::debug(v)
}
pub fn number_text(n: f64) -> String {
    text::number(n)
}

// ---------------------------------------------------------------- host objects

/// An object of the embedding application.
pub trait Host {
    fn call(&self, method: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue>;
}
pub fn host(h: Rc<dyn Host>) -> JsValue {
    JsValue(V::Host(h))
}
pub fn call_method(this: &JsValue, name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    match &this.0 {
        V::Host(h) => h.call(name, args),
        V::Undefined | V::Null => Err(error("TypeError", &format!("Cannot read properties of {} (reading '{}')", text::debug(this), name))),
        V::Instance(..) => call(this, name, args),
        _ => match &get_property(this, name)?.0 {
            V::Function(f) => f(&args),
            _ => Err(error("TypeError", &format!("{} is not a function", name))),
        },
    }
}
pub fn call_function(f: &JsValue, args: &[JsValue]) -> Result<JsValue, JsValue> {
    match &f.0 {
        V::Function(f) => f(args),
        _ => Err(error("TypeError", "not a function")),
    }
}
pub fn call_global(_: &str, _: Vec<JsValue>) -> Result<JsValue, JsValue> {
    Ok(JsValue::UNDEFINED)
}
pub fn global(_: &str) -> JsValue {
    JsValue::UNDEFINED
}
pub fn or_throw(r: Result<JsValue, JsValue>) -> JsValue {
    r.unwrap_or_else(|e| crate::throw_val(e))
}

// ---------------------------------------------------------------- promises

pub enum PromiseState {
    Pending { wakers: Vec<Waker>, then: Vec<Box<dyn FnOnce(Result<JsValue, JsValue>)>> },
    Settled(Result<JsValue, JsValue>),
}

pub fn promise() -> JsValue {
    JsValue(V::Promise(Rc::new(RefCell::new(PromiseState::Pending { wakers: vec![], then: vec![] }))))
}
pub fn resolved(r: Result<JsValue, JsValue>) -> JsValue {
    let p = promise();
    settle(&p, r);
    p
}
/// Settles a promise; only the first time counts.
pub fn settle(p: &JsValue, r: Result<JsValue, JsValue>) {
    // a promise resolved with a promise takes over what becomes of it
    if let Ok(inner) = &r {
        if is_promise(inner) {
            let p = p.clone();
            then(inner, move |r| settle(&p, r));
            return;
        }
    }
    let state = match &p.0 {
        V::Promise(s) => s,
        _ => panic!("not a promise"),
    };
    let old = {
        let mut s = state.borrow_mut();
        if matches!(*s, PromiseState::Settled(_)) {
            return;
        }
        std::mem::replace(&mut *s, PromiseState::Settled(r.clone()))
    };
    if let PromiseState::Pending { wakers, then } = old {
        for w in wakers {
            w.wake();
        }
        for t in then {
            t(r.clone());
        }
    }
}
pub fn then(p: &JsValue, f: impl FnOnce(Result<JsValue, JsValue>) + 'static) {
    let state = match &p.0 {
        V::Promise(s) => s,
        _ => return f(Ok(p.clone())),
    };
    let done = match &mut *state.borrow_mut() {
        PromiseState::Pending { then, .. } => {
            then.push(Box::new(f));
            return;
        }
        PromiseState::Settled(r) => r.clone(),
    };
    f(done)
}
pub fn outcome(p: &JsValue) -> Option<Result<JsValue, JsValue>> {
    match &p.0 {
        V::Promise(s) => match &*s.borrow() {
            PromiseState::Pending { .. } => None,
            PromiseState::Settled(r) => Some(r.clone()),
        },
        _ => Some(Ok(p.clone())),
    }
}

/// Waits for a promise; it always takes at least one turn, as it does in JavaScript.
pub struct Waiting {
    p: JsValue,
    turned: bool,
}
pub fn wait(p: JsValue) -> Waiting {
    Waiting { p, turned: false }
}
impl Future for Waiting {
    type Output = Result<JsValue, JsValue>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let turned = std::mem::replace(&mut self.turned, true);
        match &self.p.0 {
            V::Promise(s) => match &mut *s.borrow_mut() {
                PromiseState::Pending { wakers, .. } => {
                    wakers.push(cx.waker().clone());
                    Poll::Pending
                }
                PromiseState::Settled(r) => {
                    if turned {
                        Poll::Ready(r.clone())
                    } else {
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    }
                }
            },
            _ => Poll::Ready(Ok(self.p.clone())),
        }
    }
}
/// What an imported asynchronous function ends with.
pub async fn settled(r: Result<JsValue, JsValue>) -> Result<JsValue, JsValue> {
    wait(r?).await
}

pub type Task = Pin<Box<dyn Future<Output = ()>>>;
thread_local! {
    static SINK: RefCell<Option<Box<dyn Fn(Task)>>> = RefCell::new(None);
}
/// Where the tasks of this thread's engine go.
pub fn simulate(sink: Option<Box<dyn Fn(Task)>>) {
    SINK.with(|s| *s.borrow_mut() = sink);
}
pub fn spawn(t: Task) {
    SINK.with(|s| match &*s.borrow() {
        Some(sink) => sink(t),
        None => panic!("no simulator on this thread"),
    })
}
/// A task whose end settles a promise.
pub fn task(f: impl Future<Output = Result<JsValue, JsValue>> + 'static) -> JsValue {
    let p = promise();
    let q = p.clone();
    spawn(Box::pin(async move {
        let r = f.await;
        settle(&q, r)
    }));
    p
}

// ---------------------------------------------------------------- conversions

/// Arguments of exported functions.
pub trait FromJs: Sized {
    fn from_js(v: &JsValue) -> Result<Self, JsValue>;
}
/// Results of exported functions.
pub trait IntoJs {
    fn into_js(self) -> Result<JsValue, JsValue>;
}
/// Results of imported functions.
pub trait FromRet {
    fn from_ret(v: JsValue) -> Self;
}
pub fn ret<T: FromRet>(v: JsValue) -> T {
    T::from_ret(v)
}

impl FromJs for JsValue {
    fn from_js(v: &JsValue) -> Result<Self, JsValue> {
        Ok(v.clone())
    }
}
impl FromJs for String {
    fn from_js(v: &JsValue) -> Result<Self, JsValue> {
        v.as_string().ok_or_else(|| error("TypeError", "expected a string argument"))
    }
}
impl FromJs for bool {
    fn from_js(v: &JsValue) -> Result<Self, JsValue> {
        Ok(v.is_truthy())
    }
}
impl<T: FromJs> FromJs for Option<T> {
    fn from_js(v: &JsValue) -> Result<Self, JsValue> {
        if v.is_null_or_undefined() {
            Ok(None)
        } else {
            T::from_js(v).map(Some)
        }
    }
}
impl<T: FromJs> FromJs for Vec<T> {
    fn from_js(v: &JsValue) -> Result<Self, JsValue> {
        match items(v) {
            Some(a) => a.borrow().iter().map(T::from_js).collect(),
            None => Err(error("TypeError", "expected an array argument")),
        }
    }
}
impl<T: FromJs> FromJs for Box<[T]> {
    fn from_js(v: &JsValue) -> Result<Self, JsValue> {
        Ok(Vec::<T>::from_js(v)?.into_boxed_slice())
    }
}
macro_rules! numeric {
    ($($t:ty)*) => { $(
        impl FromJs for $t {
            fn from_js(v: &JsValue) -> Result<Self, JsValue> {
                v.as_f64().map(|n| n as $t).ok_or_else(|| error("TypeError", "expected a number argument"))
            }
        }
        impl IntoJs for $t {
            fn into_js(self) -> Result<JsValue, JsValue> {
                Ok(JsValue::from_f64(self as f64))
            }
        }
        impl FromRet for $t {
            fn from_ret(v: JsValue) -> Self {
                v.as_f64().unwrap_or(f64::NAN) as $t
            }
        }
    )* };
}
numeric!(i8 u8 i16 u16 i32 u32 f32 f64 usize isize);
macro_rules! plain {
    ($($t:ty)*) => { $(
        impl IntoJs for $t {
            fn into_js(self) -> Result<JsValue, JsValue> {
                Ok(self.into())
            }
        }
    )* };
}
plain!(JsValue String bool crate::JsError);
impl IntoJs for () {
    fn into_js(self) -> Result<JsValue, JsValue> {
        Ok(JsValue::UNDEFINED)
    }
}
impl<T: IntoJs> IntoJs for Option<T> {
    fn into_js(self) -> Result<JsValue, JsValue> {
        self.map(T::into_js).unwrap_or(Ok(JsValue::UNDEFINED))
    }
}
impl<T: IntoJs> IntoJs for Vec<T> {
    fn into_js(self) -> Result<JsValue, JsValue> {
        Ok(array(self.into_iter().map(T::into_js).collect::<Result<_, _>>()?))
    }
}
impl<T: IntoJs, E: Into<JsValue>> IntoJs for Result<T, E> {
    fn into_js(self) -> Result<JsValue, JsValue> {
        match self {
            Ok(v) => v.into_js(),
            Err(e) => Err(e.into()),
        }
    }
}
impl FromRet for JsValue {
    fn from_ret(v: JsValue) -> Self {
        v
    }
}
impl FromRet for () {
    fn from_ret(_: JsValue) -> Self {}
}
impl FromRet for String {
    fn from_ret(v: JsValue) -> Self {
        v.as_string().unwrap_or_default()
    }
}
impl FromRet for bool {
    fn from_ret(v: JsValue) -> Self {
        v.is_truthy()
    }
}
impl<T: FromRet> FromRet for Option<T> {
    fn from_ret(v: JsValue) -> Self {
        if v.is_null_or_undefined() {
            None
        } else {
            Some(T::from_ret(v))
        }
    }
}
impl<T: FromRet> FromRet for Vec<T> {
    fn from_ret(v: JsValue) -> Self {
        items(&v).map(|a| a.borrow().iter().cloned().map(T::from_ret).collect()).unwrap_or_default()
    }
}
