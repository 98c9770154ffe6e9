//! One simulated execution of an application that uses the JavaScript binding: operations started
//! at arbitrary times, resolver and wallet objects whose promises resolve early, late or not before
//! the end, reject or throw, and the native operation with the same answers as the oracle.
use crate::choices::Choices;
pub use crate::deploy::RunOut;
use crate::deploy::*;
use crate::exec::{self, delay, lib_sync, Ended, Exec};
use crate::msgs::{from_prior_value, msg_value, Gen};
use didcomm::algorithms::{AnonCryptAlg, AuthCryptAlg};
use didcomm::error::ErrorKind;
use didcomm::protocols::routing::try_parse_forward;
use didcomm::{FromPrior, Message, PackEncryptedOptions, UnpackOptions};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use wasm_bindgen::{sim as js, JsValue};

type Outcome = Result<JsValue, JsValue>;

/// A group of operations with one host behind them.
struct Group {
    script: Arc<Mutex<Script>>,
    /// Promises the host keeps pending.
    kept: Rc<Cell<u64>>,
    dids: JsValue,
    wallet: JsValue,
}

#[derive(Clone, Copy, PartialEq)]
enum Shape {
    /// A string.
    Text,
    /// A string and metadata.
    Packed,
    /// A string and the identifier of a key.
    Notice,
    Message,
    FromPrior,
}

struct Op {
    no: usize,
    name: &'static str,
    group: Rc<Group>,
    shape: Shape,
    want: Option<End>,
    begin: Box<dyn Fn() -> Outcome>,
    ends: RefCell<Vec<Outcome>>,
}

#[derive(Clone)]
struct Env {
    sim: Shared,
    held: Rc<RefCell<Vec<Box<dyn FnOnce()>>>>,
    ops: Rc<RefCell<Vec<Rc<Op>>>>,
    /// Operations still to be started, by time or from within a request to the host.
    waiting: Rc<RefCell<Vec<Rc<Op>>>>,
    /// Messages the application has read, and what the native operation read.
    inbox: Rc<RefCell<Vec<(JsValue, Message)>>>,
}

fn kind_name(k: ErrorKind) -> String {
    format!("DIDComm{:?}", k)
}

/// What a value is after a journey through JavaScript.
fn norm(v: &Value) -> Value {
    js::to_json(&js::from_json(v)).unwrap_or(Value::Null)
}

// ---------------------------------------------------------------- the host's side

struct Host {
    env: Env,
    wallet: bool,
    script: Arc<Mutex<Script>>,
    kept: Rc<Cell<u64>>,
}

/// Something that is no answer at all.
fn nonsense(ch: &mut Choices, key: &str) -> JsValue {
    let list = key.starts_with("find");
    match ch.draw(6) {
        0 => JsValue::from_f64(7.0),
        1 => JsValue::from_str(if list { "a" } else { "{}" }),
        2 => JsValue::TRUE,
        3 => js::object(vec![("id".into(), if list { JsValue::from_f64(0.0) } else { JsValue::from_f64(5.0) })]),
        4 if !list => js::array(vec![]),
        4 => JsValue::NULL,
        _ => {
            if list {
                JsValue::UNDEFINED
            } else {
                js::object(vec![("id".into(), "did:sim:x".into()), ("keyAgreement".into(), "no list".into()), ("type".into(), JsValue::NULL)])
            }
        }
    }
}

impl Host {
    /// The answer as a JavaScript application gives it.
    fn present(&self, key: &str, a: &Answer) -> (Outcome, bool) {
        let mut sim = self.env.sim.lock().unwrap();
        let ch = &mut sim.book.ch;
        match a {
            Answer::Doc(None) | Answer::Secret(None) => (Ok(if ch.chance(1, 2) { JsValue::NULL } else { JsValue::UNDEFINED }), false),
            Answer::Doc(Some(d)) => {
                let mut v = d.to_json();
                if ch.chance(1, 4) {
                    v["@context"] = json!(["https://www.w3.org/ns/did/v1"]);
                    v["assertionMethod"] = json!([]);
                }
                (Ok(js::from_json(&v)), false)
            }
            Answer::Secret(Some((k, f))) => (Ok(js::from_json(&k.secret_json(*f))), false),
            Answer::Found(f) => {
                let mut l: Vec<JsValue> = f.iter().map(|s| JsValue::from_str(s)).collect();
                let n = ch.draw(8);
                if n & 1 == 1 {
                    l.reverse();
                }
                if n & 6 == 6 {
                    // more than was asked for
                    l.insert(ch.draw(l.len() as u64 + 1) as usize, "did:sim:other#key-1".into());
                    l.insert(ch.draw(l.len() as u64 + 1) as usize, [JsValue::NULL, JsValue::from_f64(1.0), JsValue::UNDEFINED][ch.draw(3) as usize].clone());
                    let again = l[ch.draw(l.len() as u64) as usize].clone();
                    l.push(again);
                }
                (Ok(js::array(l)), false)
            }
            Answer::Err(k, m) => {
                let throws = ch.chance(1, 4);
                let v = match (k, ch.draw(12)) {
                    (ErrorKind::InvalidState, 0) => js::error("TypeError", m),
                    (ErrorKind::InvalidState, 1) => JsValue::from_str(m),
                    (ErrorKind::InvalidState, 2) => JsValue::from_str(""),
                    (ErrorKind::InvalidState, 3) => JsValue::NULL,
                    (ErrorKind::InvalidState, 4) => JsValue::UNDEFINED,
                    (ErrorKind::InvalidState, 5) => JsValue::from_f64(404.0),
                    (ErrorKind::InvalidState, 6) => js::object(vec![("code".into(), JsValue::from_f64(1.0))]),
                    (ErrorKind::InvalidState, 7) => js::error("Error", ""),
                    (ErrorKind::InvalidState, 8 | 9) => return (Ok(nonsense(ch, key)), false),
                    (k, 10) => {
                        let e = js::error(&kind_name(*k), "");
                        js::set_property(&e, "cause", js::error("DIDCommMalformed", "cause"));
                        e
                    }
                    (k, _) => js::error(&kind_name(*k), m),
                };
                (Err(v), throws)
            }
            Answer::Dropped => (Err(js::error("Error", "dropped")), false),
        }
    }
    fn request(&self, key: String) -> Outcome {
        let (a, mode, wait) = {
            let mut sim = self.env.sim.lock().unwrap();
            let a = answer(&mut sim, &mut self.script.lock().unwrap(), &key);
            let b = &mut sim.book;
            let mode = ["at once", "later", "later", "later", "withheld", "twice", "by way of another promise", "starts an operation", "later"][b.ch.draw(9) as usize];
            let wait = match b.ch.draw(3) {
                0 => 0,
                1 => b.ch.draw(2000),
                _ => b.ch.draw(100_000),
            };
            b.stat(&format!("answered {}", mode));
            b.log(format!("host asked: {} ({}, {}us)", key, mode, wait));
            (a, mode, wait)
        };
        let env = self.env.clone();
        let (r, throws) = self.present(&key, &a);
        if throws {
            env.fault("thrown instead of rejected");
            return Err(r.unwrap_err());
        }
        let p = js::promise();
        let q = p.clone();
        match mode {
            "later" => exec::spawn(format!("host answers {}", key), async move {
                delay(1 + wait).await;
                js::settle(&q, r);
                env.log(format!("host answered: {}", key));
            }),
            "withheld" => {
                env.fault("answer withheld");
                let kept = self.kept.clone();
                kept.set(kept.get() + 1);
                env.held.borrow_mut().push(Box::new(move || {
                    kept.set(kept.get() - 1);
                    js::settle(&q, r);
                }));
            }
            "twice" => {
                env.fault("second answer");
                exec::spawn(format!("host answers {}", key), async move {
                    delay(wait).await;
                    js::settle(&q, r);
                    js::settle(&q, Err(js::error("DIDCommUnsupported", "second answer")));
                    js::settle(&q, Ok(JsValue::NULL));
                });
            }
            "by way of another promise" => {
                let inner = js::promise();
                js::settle(&p, Ok(inner.clone()));
                exec::spawn(format!("host answers {}", key), async move {
                    delay(wait).await;
                    js::settle(&inner, r);
                });
            }
            "starts an operation" => {
                env.fault("operation started inside a request");
                env.start_waiting();
                js::settle(&q, r);
            }
            _ => js::settle(&q, r),
        }
        Ok(p)
    }
}

impl js::Host for Host {
    fn call(&self, method: &str, args: Vec<JsValue>) -> Outcome {
        let text = |v: &JsValue| v.as_string();
        let key = match (method, self.wallet, args.len()) {
            ("resolve", false, 1) => text(&args[0]).map(|d| key_resolve(&d)),
            ("get_secret", true, 1) => text(&args[0]).map(|k| key_get(&k)),
            ("find_secrets", true, 1) => js::items(&args[0]).and_then(|a| a.borrow().iter().map(text).collect::<Option<Vec<String>>>()).map(|l| key_find(&l)),
            _ => None,
        };
        match key {
            Some(k) => self.request(k),
            None => {
                let shown: Vec<String> = args.iter().map(js::show).collect();
                self.env.violation(format!("the host was called as {}({})", method, short(&shown.join(", "))));
                Err(js::error("TypeError", "not a function"))
            }
        }
    }
}

// ---------------------------------------------------------------- running operations

/// A task of the engine: a panic would abort the whole module.
struct Task {
    f: Option<Pin<Box<dyn Future<Output = ()>>>>,
    env: Env,
}
impl Future for Task {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = &mut *self;
        let f = me.f.as_mut().expect("finished");
        match lib_sync(|| f.as_mut().poll(cx)) {
            Ok(p) => p,
            Err(m) => {
                me.env.violation(format!("the module aborted: {}", m));
                let f = me.f.take();
                let _ = lib_sync(move || drop(f));
                Poll::Ready(())
            }
        }
    }
}

fn anon_js(s: &str) -> &str {
    match s {
        "A256cbcHs512EcdhEsA256kw" | "A256cbcHs512Ecdh1puA256kw" => "A256CBC-HS512",
        "Xc20pEcdhEsA256kw" => "XC20P",
        "A256gcmEcdhEsA256kw" => "A256GCM",
        s => s,
    }
}
fn anon_name_js(a: &AnonCryptAlg) -> &'static str {
    match a {
        AnonCryptAlg::A256cbcHs512EcdhEsA256kw => "A256cbcHs512EcdhEsA256kw",
        AnonCryptAlg::Xc20pEcdhEsA256kw => "Xc20pEcdhEsA256kw",
        AnonCryptAlg::A256gcmEcdhEsA256kw => "A256gcmEcdhEsA256kw",
    }
}

/// Optional members are absent or null.
fn thin(v: Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.into_iter().filter(|(_, v)| !v.is_null()).collect()),
        v => v,
    }
}

fn failure(e: &JsValue) -> Result<End, String> {
    let name = if js::is_error(e) { js::get_property(e, "name").ok().and_then(|n| n.as_string()) } else { None };
    let k = name.as_deref().and_then(|n| KINDS.iter().find(|k| kind_name(**k) == n));
    match k {
        Some(k) => Ok(End::Err(*k)),
        None => Err(format!("failed with {}", short(&js::show(e)))),
    }
}

/// What an operation ended with, in the oracle's terms.
fn end_of(shape: Shape, o: &Outcome) -> Result<End, String> {
    let v = match o {
        Ok(v) => v,
        Err(e) => return failure(e),
    };
    let odd = || format!("returned {}", short(&js::show(v)));
    if shape == Shape::Text {
        return v.as_string().map(|s| End::Text(s, Value::Null)).ok_or_else(odd);
    }
    let pair = js::items(v).ok_or_else(odd)?;
    let (first, second) = match &pair.borrow()[..] {
        [a, b] => (a.clone(), b.clone()),
        _ => return Err(odd()),
    };
    match shape {
        Shape::Packed => {
            let t = first.as_string().ok_or_else(odd)?;
            Ok(End::Text(t, thin(js::to_json(&second).ok_or_else(odd)?)))
        }
        Shape::Notice => Ok(End::Text(first.as_string().ok_or_else(odd)?, json!({"kid": second.as_string().ok_or_else(odd)?}))),
        Shape::FromPrior => {
            let c = value_of(&first, "FromPrior")?;
            Ok(End::Read(c, json!({"kid": second.as_string().ok_or_else(odd)?})))
        }
        _ => {
            let c = value_of(&first, "Message")?;
            let mut m = thin(js::to_json(&second).ok_or_else(odd)?);
            for k in ["enc_alg_auth", "enc_alg_anon"] {
                if let Some(s) = m[k].as_str() {
                    m[k] = json!(anon_js(s));
                }
            }
            Ok(End::Read(c, thin(m)))
        }
    }
}

/// `instance.as_value()`
fn value_of(v: &JsValue, class: &str) -> Result<Value, String> {
    if js::class_of(v) != Some(class) {
        return Err(format!("returned {} where a {} belongs", short(&js::show(v)), class));
    }
    match lib_sync(|| js::call(v, "as_value", vec![])) {
        Ok(Ok(v)) => js::to_json(&v).ok_or_else(|| "as_value returned undefined".to_string()),
        Ok(Err(e)) => Err(format!("as_value threw {}", js::show(&e))),
        Err(m) => Err(format!("as_value panicked: {}", m)),
    }
}

impl Env {
    fn log(&self, s: String) {
        self.sim.lock().unwrap().book.log(s)
    }
    fn draw(&self, n: u64) -> u64 {
        self.sim.lock().unwrap().book.ch.draw(n)
    }
    fn fault(&self, s: &str) {
        self.sim.lock().unwrap().book.stat(&format!("fault.{}", s))
    }
    fn violation(&self, s: String) {
        self.sim.lock().unwrap().book.violation("C24", s)
    }
    fn start_waiting(&self) {
        let op = self.waiting.borrow_mut().pop();
        if let Some(op) = op {
            self.start(op);
        }
    }
    fn start(&self, op: Rc<Op>) {
        self.ops.borrow_mut().push(op.clone());
        self.log(format!("op{} starts: {}", op.no, op.name));
        {
            let mut s = self.sim.lock().unwrap();
            s.book.stat("op");
            s.book.stat(&format!("started {}", op.name));
        }
        match lib_sync(|| (op.begin)()) {
            Ok(Ok(p)) => {
                if !js::is_promise(&p) {
                    self.violation(format!("op{} {}: returned {} instead of a promise", op.no, op.name, short(&js::show(&p))));
                    return;
                }
                let (me, op) = (self.clone(), op.clone());
                js::then(&p, move |r| me.ended(&op, r));
            }
            Ok(Err(e)) => self.ended(&op, Err(e)),
            Err(m) => self.violation(format!("op{} {} panicked: {}", op.no, op.name, m)),
        }
    }
    fn ended(&self, op: &Rc<Op>, r: Outcome) {
        let what = match &r {
            Ok(v) => format!("value {}", short(&js::show(v))),
            Err(e) => format!("error {}", short(&js::show(e))),
        };
        self.log(format!("op{} ended: {}", op.no, what));
        op.ends.borrow_mut().push(r.clone());
        if let (Shape::Message, Ok(v), Some(End::Read(c, _))) = (op.shape, &r, &op.want) {
            let m = js::items(v).and_then(|a| a.borrow().first().cloned());
            if let (Some(m), Ok(native)) = (m, serde_json::from_value::<Message>(c.clone())) {
                self.inbox.borrow_mut().push((m, native));
            }
        }
        // an application goes on from its handler
        if self.draw(4) == 3 {
            self.start_waiting();
        }
    }
    /// What is settled so far must be settled once and truly.
    fn judge(&self, at_end: bool) {
        let ops = self.ops.borrow().clone();
        for op in ops {
            let ends = op.ends.borrow().clone();
            let what = format!("op{} {}", op.no, op.name);
            if ends.len() > 1 {
                self.violation(format!("{}: ended {} times", what, ends.len()));
            }
            if ends.is_empty() && at_end {
                self.violation(format!("{}: never ended although every promise was settled", what));
            }
            if ends.is_empty() && !at_end && op.group.kept.get() == 0 {
                self.violation(format!("{}: waits although all promises it asked for are settled", what));
            }
            if !at_end {
                continue;
            }
            let placed = op.group.script.lock().unwrap().placed.clone();
            let got = ends.first().map(|o| end_of(op.shape, o));
            let notice = op.shape == Shape::Notice;
            match (&op.want, &got) {
                (Some(want), Some(Ok(got))) => {
                    let want = match want {
                        End::Text(t, m) => End::Text(t.clone(), thin(norm(m))),
                        End::Read(c, m) => End::Read(norm(c), thin(norm(m))),
                        e => e.clone(),
                    };
                    if let Err(m) = same(&self.sim, &want, got, notice) {
                        self.violation(format!("{}: {} [{}]", what, m, placed.join(", ")));
                    }
                }
                (_, Some(Err(m))) => self.violation(format!("{}: {} [{}]", what, m, placed.join(", "))),
                _ => {}
            }
            let mut s = self.sim.lock().unwrap();
            let k = match &got {
                Some(Ok(End::Err(k))) => format!("ended with {:?}", k),
                Some(Ok(_)) => "ended well".to_string(),
                Some(Err(_)) => "ended badly".to_string(),
                None => "not ended".to_string(),
            };
            let kinds: Vec<String> = placed.iter().map(|p| p.split(": ").nth(1).unwrap_or("").to_string()).collect();
            s.book.cover.insert(fnv(&format!("{}|{}|{:?}", op.name, k, kinds)));
            s.book.stat(&k);
        }
    }
    /// Operations that give their result at once, on what the application has.
    fn at_once(&self) {
        let held: Vec<(JsValue, Message)> = self.inbox.borrow().clone();
        for (v, native) in held {
            let want = norm(&msg_value(&native));
            match value_of(&v, "Message") {
                Ok(got) if got == want => {}
                Ok(got) => self.violation(format!("as_value of a message: {}", diff(&want, &got))),
                // the application freed it
                Err(m) if m.contains("null pointer") => continue,
                Err(m) => self.violation(format!("as_value of a message: {}", m)),
            }
            let want = match try_parse_forward(&native) {
                Some(f) => norm(&json!({"msg": msg_value(f.msg), "next": f.next, "forwarded_msg": f.forwarded_msg})),
                None => Value::Null,
            };
            self.sim.lock().unwrap().book.stat(if want.is_null() { "try_parse_forward: no forward" } else { "try_parse_forward: forward" });
            match lib_sync(|| js::call(&v, "try_parse_forward", vec![])) {
                Ok(Ok(got)) => {
                    // an instance, or what it stands for
                    let got = match js::class_of(&got) {
                        Some(c) => value_of(&got, c).unwrap_or_default(),
                        None => js::to_json(&got).unwrap_or_default(),
                    };
                    if got != want {
                        self.violation(format!("try_parse_forward: {}", diff(&want, &got)));
                    }
                }
                Ok(Err(e)) => self.violation(format!("try_parse_forward threw {}", js::show(&e))),
                Err(m) => self.violation(format!("try_parse_forward panicked: {}", m)),
            }
        }
    }
}

// ---------------------------------------------------------------- generated operations

/// A message object as an application writes it, sometimes wrong.
fn maybe_spoil(ch: &mut Choices, mut v: Value) -> (JsValue, Value) {
    if ch.chance(1, 12) {
        match ch.draw(9) {
            0 => {
                v.as_object_mut().unwrap().remove("id");
            }
            1 => {
                v.as_object_mut().unwrap().remove("type");
                v.as_object_mut().unwrap().remove("sub");
            }
            2 => v["to"] = json!("did:sim:x"),
            3 => v["created_time"] = json!(-1),
            4 => v["expires_time"] = json!(1.5),
            5 => v["exp"] = json!("soon"),
            6 => v["iss"] = Value::Null,
            7 => v = json!("text"),
            _ => return (JsValue::UNDEFINED, Value::Null),
        }
    }
    let j = js::from_json(&v);
    if ch.chance(1, 6) && v.is_object() {
        // members without a value count as absent
        js::set_property(&j, "thid_", JsValue::UNDEFINED);
        for k in ["pthid", "aud", "from_prior"] {
            if v.get(k).is_none() {
                js::set_property(&j, k, JsValue::UNDEFINED);
            }
        }
    }
    let n = norm(&v);
    (j, n)
}

fn default_enc() -> PackEncryptedOptions {
    PackEncryptedOptions {
        protect_sender: false,
        forward: true,
        forward_headers: None,
        messaging_service: None,
        enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw,
        enc_alg_anon: AnonCryptAlg::Xc20pEcdhEsA256kw,
    }
}

/// Options with members left out where they equal the documented defaults.
fn enc_options(ch: &mut Choices, o: &PackEncryptedOptions) -> JsValue {
    let d = default_enc();
    let v = js::object(vec![]);
    let mut put = |k: &str, x: JsValue, dflt: bool| {
        if !dflt || ch.chance(1, 2) {
            js::set_property(&v, k, x);
        }
    };
    put("protect_sender", o.protect_sender.into(), o.protect_sender == d.protect_sender);
    put("forward", o.forward.into(), o.forward == d.forward);
    let h = o.forward_headers.as_ref().map(|h| js::from_json(&json!(h)));
    put("forward_headers", h.clone().unwrap_or(JsValue::NULL), h.is_none());
    put("messaging_service", o.messaging_service.clone().map(JsValue::from).unwrap_or(JsValue::UNDEFINED), o.messaging_service.is_none());
    put("enc_alg_auth", "A256cbcHs512Ecdh1puA256kw".into(), true);
    put("enc_alg_anon", anon_name_js(&o.enc_alg_anon).into(), o.enc_alg_anon == d.enc_alg_anon);
    v
}

fn unpack_options(ch: &mut Choices, o: &UnpackOptions) -> JsValue {
    let v = js::object(vec![]);
    for (k, x) in [("expect_decrypt_by_all_keys", o.expect_decrypt_by_all_keys), ("unwrap_re_wrapping_forward", o.unwrap_re_wrapping_forward)] {
        if x || ch.chance(1, 2) {
            js::set_property(&v, k, x.into());
        }
    }
    v
}

fn bad_options(ch: &mut Choices) -> JsValue {
    match ch.draw(8) {
        0 => JsValue::UNDEFINED,
        1 => JsValue::NULL,
        2 => "options".into(),
        3 => JsValue::from_f64(3.0),
        4 => js::from_json(&json!({"protect_sender": "yes", "expect_decrypt_by_all_keys": "yes"})),
        5 => js::from_json(&json!({"enc_alg_anon": "XC20P", "unwrap_re_wrapping_forward": 1})),
        6 => js::from_json(&json!({"forward": null, "unwrap_re_wrapping_forward": null})),
        _ => js::from_json(&json!({"messaging_service": 5, "expect_decrypt_by_all_keys": {}})),
    }
}

fn optional(ch: &mut Choices, s: &Option<String>) -> JsValue {
    match s {
        Some(s) => s.into(),
        None if ch.chance(1, 2) => JsValue::NULL,
        None => JsValue::UNDEFINED,
    }
}

type Ready = (&'static str, Shape, Option<End>, Box<dyn Fn() -> Outcome>);

/// The application's side of an operation, and what has to come of it.
fn prepare(env: &Env, group: &Rc<Group>) -> Option<Ready> {
    let call = gen_call(&mut env.sim.lock().unwrap());
    let n = name(&call);
    let (dids, wallet) = (group.dids.clone(), group.wallet.clone());
    let end = |c: &Call| native_end(&env.sim, &group.script, c);
    let malformed = || Some(End::Err(ErrorKind::Malformed));
    let choose = |a: u64, b: u64| env.sim.lock().unwrap().book.ch.chance(a, b);

    // operations on a message the application made or read
    let with_message = |msg: &Message, what: &str, rebuild: &dyn Fn(Message) -> Call, args: Vec<JsValue>, shape: Shape, bad: bool| -> Option<Ready> {
        let what = what.to_string();
        let free = choose(1, 6);
        let inbox = env.inbox.borrow();
        if !inbox.is_empty() && choose(1, 5) {
            let (v, native) = inbox[env.draw(inbox.len() as u64) as usize].clone();
            let want = if bad { malformed() } else { Some(end(&rebuild(native))?) };
            return Some((n, shape, want, Box::new(move || js::call(&v, &what, args.clone()))));
        }
        let (j, native) = {
            let mut s = env.sim.lock().unwrap();
            maybe_spoil(&mut s.book.ch, msg_value(msg))
        };
        let want = match serde_json::from_value::<Message>(native) {
            Ok(_) if bad => malformed(),
            Ok(m) => Some(end(&rebuild(m))?),
            Err(_) => malformed(),
        };
        Some((
            n,
            shape,
            want,
            Box::new(move || {
                let m = js::construct("Message", vec![j.clone()])?;
                let p = js::call(&m, &what, args.clone())?;
                if free {
                    js::free::<didcomm_js::Message>(&m);
                }
                Ok(p)
            }),
        ))
    };
    match call {
        Call::PackPlain { msg } => with_message(&msg, "pack_plaintext", &|msg| Call::PackPlain { msg }, vec![dids], Shape::Text, false),
        Call::PackSigned { msg, by } => {
            let args = vec![by.clone().into(), dids, wallet];
            with_message(&msg, "pack_signed", &|msg| Call::PackSigned { msg, by: by.clone() }, args, Shape::Packed, false)
        }
        Call::PackEnc { msg, to, from, by, mut opts } => {
            let bad = choose(1, 16);
            if choose(1, 4) {
                opts = default_enc();
            }
            if let Some(h) = &mut opts.forward_headers {
                *h = serde_json::from_value(norm(&json!(h))).unwrap();
            }
            let args = {
                let mut s = env.sim.lock().unwrap();
                let ch = &mut s.book.ch;
                let o = if bad { bad_options(ch) } else { enc_options(ch, &opts) };
                vec![to.clone().into(), optional(ch, &from), optional(ch, &by), dids, wallet, o]
            };
            with_message(&msg, "pack_encrypted", &|msg| Call::PackEnc { msg, to: to.clone(), from: from.clone(), by: by.clone(), opts: opts.clone() }, args, Shape::Packed, bad)
        }
        Call::Unpack { text, opts } => {
            let bad = choose(1, 16);
            let o = {
                let mut s = env.sim.lock().unwrap();
                if bad {
                    bad_options(&mut s.book.ch)
                } else {
                    unpack_options(&mut s.book.ch, &opts)
                }
            };
            let t = text.clone();
            let want = if bad { malformed() } else { Some(end(&Call::Unpack { text, opts })?) };
            Some((n, Shape::Message, want, Box::new(move || js::call_static("Message", "unpack", vec![t.clone().into(), dids.clone(), wallet.clone(), o.clone()]))))
        }
        Call::PackPrior { fp, kid } => {
            let (j, native, k) = {
                let mut s = env.sim.lock().unwrap();
                let (j, v) = maybe_spoil(&mut s.book.ch, from_prior_value(&fp));
                let k = optional(&mut s.book.ch, &kid);
                (j, v, k)
            };
            let want = match serde_json::from_value::<FromPrior>(native) {
                Ok(fp) => Some(end(&Call::PackPrior { fp, kid })?),
                Err(_) => malformed(),
            };
            Some((
                n,
                Shape::Notice,
                want,
                Box::new(move || {
                    let f = js::construct("FromPrior", vec![j.clone()])?;
                    js::call(&f, "pack", vec![k.clone(), dids.clone(), wallet.clone()])
                }),
            ))
        }
        Call::UnpackPrior { jwt } => {
            let t = jwt.clone();
            let want = Some(end(&Call::UnpackPrior { jwt })?);
            Some((n, Shape::FromPrior, want, Box::new(move || js::call_static("FromPrior", "unpack", vec![t.clone().into(), dids.clone()]))))
        }
        Call::Wrap { text, headers, to, routing, alg } => {
            let headers: HashMap<String, Value> = serde_json::from_value(norm(&json!(headers))).unwrap();
            let bad = if choose(1, 8) { 1 + env.draw(7) } else { 0 };
            let mut args = vec![text.clone().into(), js::from_json(&json!(headers)), to.clone().into(), js::from_json(&json!(routing)), anon_name_js(&alg).into(), dids];
            match bad {
                1 => args[1] = JsValue::UNDEFINED,
                2 => args[1] = "h".into(),
                3 => args[3] = "k".into(),
                4 => args[3] = js::from_json(&json!(["did:sim:x", 5])),
                5 => args[4] = "XC20P".into(),
                6 => args[4] = JsValue::UNDEFINED,
                7 => args[3] = JsValue::NULL,
                _ => {}
            }
            let want = if bad > 0 { malformed() } else { Some(end(&Call::Wrap { text, headers, to, routing, alg })?) };
            Some((n, Shape::Text, want, Box::new(move || js::call_static("Message", "wrap_in_forward", args.clone()))))
        }
    }
}

/// A message or notice made from an object gives the object back.
fn there_and_back(env: &Env) {
    for class in ["Message", "FromPrior"] {
        let (j, native) = {
            let mut s = env.sim.lock().unwrap();
            let marker = s.deploy.marker();
            let v = if class == "Message" {
                let m = Gen { ch: &mut s.book.ch, marker: marker.clone() }.message(format!("id-{}", marker), Some("did:sim:a".into()), None, None).0;
                msg_value(&m)
            } else {
                json!({"iss": "did:sim:a", "sub": marker, "exp": s.book.ch.draw(1 << 40)})
            };
            maybe_spoil(&mut s.book.ch, v)
        };
        let want = if class == "Message" {
            serde_json::from_value::<Message>(native).map(|m| norm(&msg_value(&m)))
        } else {
            serde_json::from_value::<FromPrior>(native).map(|f| norm(&from_prior_value(&f)))
        };
        let r = lib_sync(|| js::construct(class, vec![j]));
        match (want, r) {
            (_, Err(m)) => env.violation(format!("new {} panicked: {}", class, m)),
            (Ok(want), Ok(Ok(v))) => match value_of(&v, class) {
                Ok(got) if got == want => {}
                Ok(got) => env.violation(format!("as_value of a new {}: {}", class, diff(&want, &got))),
                Err(m) => env.violation(format!("new {}: {}", class, m)),
            },
            (Ok(_), Ok(Err(e))) => env.violation(format!("new {} threw {}", class, js::show(&e))),
            (Err(_), Ok(Ok(v))) => env.violation(format!("new {} accepted what the native type refuses: {:?}", class, value_of(&v, class))),
            (Err(_), Ok(Err(e))) => match failure(&e) {
                Ok(End::Err(ErrorKind::Malformed)) => {}
                _ => env.violation(format!("new {} threw {} for a malformed value", class, js::show(&e))),
            },
        }
    }
}

pub fn run(mut ch: Choices, seed: u64, _focus: &str) -> RunOut {
    askar_crypto::sim::seed(seed);
    let exec = Exec::new();
    let deploy = Deploy::new(&mut ch, seed);
    let sim: Shared = Arc::new(Mutex::new(Sim { book: Book::new(ch), deploy }));
    let env = Env { sim: sim.clone(), held: Rc::default(), ops: Rc::default(), waiting: Rc::default(), inbox: Rc::default() };
    let e2 = env.clone();
    js::simulate(Some(Box::new(move |f| {
        exec::spawn("task of the module".into(), Task { f: Some(f), env: e2.clone() });
    })));
    stock(&sim);
    there_and_back(&env);
    let groups = env.draw(4) + 1;
    let no = Rc::new(Cell::new(0));
    for _ in 0..groups {
        let (faults, n) = {
            let mut s = sim.lock().unwrap();
            let ch = &mut s.book.ch;
            let calm = ch.chance(1, 4);
            (if calm { 0 } else { ch.draw(4) as u32 }, ch.range(1, 5))
        };
        let script = Arc::new(Mutex::new(Script::new(faults, false)));
        let kept = Rc::new(Cell::new(0));
        let host = |wallet| js::host(Rc::new(Host { env: env.clone(), wallet, script: script.clone(), kept: kept.clone() }));
        let group = Rc::new(Group { script: script.clone(), kept: kept.clone(), dids: host(false), wallet: host(true) });
        for _ in 0..n {
            let (e, group, no) = (env.clone(), group.clone(), no.clone());
            let make = move || {
                let (name, shape, want, begin) = prepare(&e, &group)?;
                no.set(no.get() + 1);
                Some(Rc::new(Op { no: no.get() - 1, name, group: group.clone(), shape, want, begin, ends: RefCell::default() }))
            };
            let e = env.clone();
            let (inside, at) = {
                let mut s = sim.lock().unwrap();
                (s.book.ch.chance(1, 6), s.book.ch.draw(20_000))
            };
            if inside {
                if let Some(op) = make() {
                    env.waiting.borrow_mut().push(op);
                }
                continue;
            }
            exec::spawn("start an operation".into(), async move {
                delay(at).await;
                if let Some(op) = make() {
                    e.start(op);
                }
                e.at_once();
            });
        }
    }
    let s2 = sim.clone();
    let mut pick = move |n: u64| s2.lock().unwrap().book.ch.draw(n);
    let mut ended = exec.run(&mut pick);
    env.judge(false);
    // from here on every promise is settled
    for _ in 0..400 {
        while !env.waiting.borrow().is_empty() {
            env.start_waiting();
        }
        let h: Vec<_> = env.held.borrow_mut().drain(..).collect();
        if h.is_empty() && !matches!(ended, Ended::StepLimit) {
            ended = exec.run(&mut pick);
            if env.held.borrow().is_empty() && env.waiting.borrow().is_empty() {
                break;
            }
            continue;
        }
        for f in h {
            f();
            ended = exec.run(&mut pick);
        }
    }
    if matches!(ended, Ended::StepLimit) {
        env.violation("operations make no progress: step limit".into());
    }
    env.at_once();
    env.judge(true);
    js::simulate(None);
    let (order, time, polls) = (exec.order.get(), exec.now.get(), exec.polls.get());
    // the operations, their hosts and this record refer to one another
    env.ops.borrow_mut().clear();
    env.waiting.borrow_mut().clear();
    env.inbox.borrow_mut().clear();
    env.held.borrow_mut().clear();
    exec.clear();
    let mut s = sim.lock().unwrap();
    let b = &mut s.book;
    RunOut {
        viols: std::mem::take(&mut b.viols),
        trace: std::mem::take(&mut b.trace),
        choices: std::mem::take(&mut b.ch.rec),
        stats: std::mem::take(&mut b.stats),
        cover: std::mem::take(&mut b.cover),
        order,
        time,
        polls,
    }
}
