//! What the demonstrations of the JavaScript binding share: a host whose answers can be scripted.
#![allow(dead_code, unused_imports)]
pub use crate::keys::{Alg, DocModel, Fmt, Key, Mat, Svc, SvcModel, VmModel};
use askar_crypto::sim::Prng;
pub use didcomm::*;
use didcomm_js as _;
pub use serde_json::{json, Value};
use std::cell::RefCell;
pub use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
pub use wasm_bindgen::{sim as js, JsValue};

type Task = Pin<Box<dyn Future<Output = ()>>>;
thread_local! {
    static TASKS: RefCell<Vec<Task>> = RefCell::new(vec![]);
}
fn noop() -> RawWaker {
    fn clone(_: *const ()) -> RawWaker {
        noop()
    }
    fn nop(_: *const ()) {}
    static T: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    RawWaker::new(std::ptr::null(), &T)
}
/// Run what can run.
pub fn settle_down() {
    let w = unsafe { Waker::from_raw(noop()) };
    for _ in 0..200 {
        let mut v: Vec<Task> = TASKS.with(|t| t.borrow_mut().drain(..).collect());
        v.retain_mut(|t| t.as_mut().poll(&mut Context::from_waker(&w)) == Poll::Pending);
        TASKS.with(|t| t.borrow_mut().append(&mut v));
    }
}
pub fn start() {
    js::simulate(Some(Box::new(|t| TASKS.with(|q| q.borrow_mut().push(t)))));
}

#[derive(Default)]
pub struct State {
    pub docs: BTreeMap<String, Value>,
    pub secrets: BTreeMap<String, Value>,
    /// Requests containing this text are rejected with an error of this name.
    pub fail: Option<(String, String)>,
    /// Promises for requests containing this text stay pending until `release`.
    pub keep: Option<String>,
    /// What an unknown DID is answered with.
    pub unknown: Option<JsValue>,
    kept: Vec<(JsValue, Result<JsValue, JsValue>)>,
}
#[derive(Clone, Default)]
pub struct Host(pub Rc<RefCell<State>>);
impl Host {
    pub fn new(docs: &[&DocModel], keys: &[&Key]) -> Host {
        let h = Host::default();
        for d in docs {
            h.0.borrow_mut().docs.insert(d.did.clone(), d.to_json());
        }
        for k in keys {
            h.0.borrow_mut().secrets.insert(k.kid.clone(), k.secret_json(Fmt::Jwk));
        }
        h
    }
    /// The resolver (or wallet) object handed to operations.
    pub fn js(&self) -> JsValue {
        js::host(Rc::new(self.clone()))
    }
    pub fn release(&self) {
        self.0.borrow_mut().keep = None;
        let v: Vec<_> = self.0.borrow_mut().kept.drain(..).collect();
        v.into_iter().for_each(|(p, r)| js::settle(&p, r));
    }
}
impl js::Host for Host {
    fn call(&self, method: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
        let mut s = self.0.borrow_mut();
        let key = format!("{} {}", method, js::show(&args[0]));
        let text = args[0].as_string().unwrap_or_default();
        let none = s.unknown.clone().unwrap_or(JsValue::NULL);
        let found = |m: &BTreeMap<String, Value>| m.get(&text).map(js::from_json).unwrap_or(none);
        let r = match &s.fail {
            Some((k, name)) if key.contains(k.as_str()) => Err(js::error(name, "scripted")),
            _ => Ok(match method {
                "resolve" => found(&s.docs),
                "get_secret" => found(&s.secrets),
                _ => {
                    let l = js::items(&args[0]).unwrap();
                    let l: Vec<JsValue> = l.borrow().iter().filter(|k| s.secrets.contains_key(&k.as_string().unwrap())).cloned().collect();
                    js::array(l)
                }
            }),
        };
        let p = js::promise();
        if matches!(&s.keep, Some(k) if key.contains(k.as_str())) {
            s.kept.push((p.clone(), r));
        } else {
            js::settle(&p, r);
        }
        Ok(p)
    }
}

pub fn message(v: Value) -> JsValue {
    js::construct("Message", vec![js::from_json(&v)]).unwrap_or_else(|e| panic!("{}", js::show(&e)))
}
pub fn hello(from: Option<&str>, to: &str) -> Value {
    let mut v = json!({"id": "1", "typ": "application/didcomm-plain+json", "type": "t", "body": {"hello": 1}, "to": [to]});
    if let Some(f) = from {
        v["from"] = json!(f);
    }
    v
}
/// The name of the error something failed with.
pub fn name(e: &JsValue) -> String {
    js::get_property(e, "name").ok().and_then(|n| n.as_string()).unwrap_or_else(|| js::show(e))
}
/// What a call came to; `None` while its promise is pending.
pub fn outcome(p: &Result<JsValue, JsValue>) -> Option<Result<JsValue, String>> {
    settle_down();
    match p {
        Err(e) => Some(Err(name(e))),
        Ok(p) => js::outcome(p).map(|r| r.map_err(|e| name(&e))),
    }
}
pub fn options() -> JsValue {
    js::from_json(&json!({"forward": false}))
}
pub fn str(s: &str) -> JsValue {
    JsValue::from_str(s)
}
pub fn opt(s: Option<&str>) -> JsValue {
    s.map(JsValue::from_str).unwrap_or(JsValue::NULL)
}
pub fn first(v: &JsValue) -> JsValue {
    js::items(v).unwrap().borrow()[0].clone()
}
pub fn value(m: &JsValue) -> Value {
    js::call(m, "as_value", vec![]).ok().and_then(|v| js::to_json(&v)).unwrap()
}

pub fn key(seed: u64, kid: &str, alg: Alg) -> Key {
    Key::gen(&mut Prng::new(seed * 7919 + 13), kid, alg)
}
pub fn vm(k: &Key) -> VmModel {
    VmModel { kid: k.kid.clone(), mat: Mat::Good(k.clone(), Fmt::Jwk) }
}
pub fn doc(did: &str, ka: &[&Key], auth: &[&Key]) -> DocModel {
    DocModel {
        did: did.into(),
        ver: 0,
        ka: ka.iter().map(|k| k.kid.clone()).collect(),
        auth: auth.iter().map(|k| k.kid.clone()).collect(),
        vms: ka.iter().chain(auth).map(|k| vm(k)).collect(),
        services: vec![],
    }
}
/// Fails the demonstration.
#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            eprintln!("PROPERTY BROKEN: {}", format!($($t)*));
            std::process::exit(1);
        }
    };
}
