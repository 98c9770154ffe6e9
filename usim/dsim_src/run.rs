//! One simulated execution of an application that uses the callback binding: operations started at
//! arbitrary times, a host that answers resolver and wallet callbacks early, late, twice, with an
//! error or never, and the native operation with the same answers as the oracle.
use crate::choices::Choices;
pub use crate::deploy::RunOut;
use crate::deploy::*;
use crate::exec::{self, delay, lib_sync, Ended, Exec};
use crate::msgs::{from_prior_value, msg_value, Gen};
use didcomm::did::DIDDoc;
use didcomm::error::ErrorKind;
use didcomm::secrets::Secret;
use didcomm::{FromPrior, Message, PackEncryptedMetadata, PackSignedMetadata, UnpackMetadata};
use didcomm_uniffi as ffi;
use didcomm_uniffi::{DIDComm, ErrorCode};
use serde_json::{json, Value};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

type Held = Arc<Mutex<Vec<Box<dyn FnOnce() + Send>>>>;

/// A group of operations on one instance of the binding, with one host behind it.
struct Group {
    script: Arc<Mutex<Script>>,
    instance: Mutex<Option<Arc<DIDComm>>>,
    calm: bool,
    /// Callbacks the host still keeps.
    kept: Arc<AtomicU64>,
}

struct Op {
    no: usize,
    call: Call,
    group: Arc<Group>,
    want: Option<End>,
    state: Arc<Mutex<OpState>>,
}

#[derive(Default)]
struct OpState {
    ends: Vec<End>,
    dropped: bool,
}

#[derive(Clone)]
struct Env {
    sim: Shared,
    held: Held,
    ops: Arc<Mutex<Vec<Arc<Op>>>>,
    /// Operations still to be started, by time or from within a callback.
    waiting: Arc<Mutex<Vec<Arc<Op>>>>,
}

// ---------------------------------------------------------------- the host's side

/// The three kinds of answer callbacks of the binding.
trait Cb: Send + Sync {
    fn answer(&self, a: &Answer) -> Result<(), ErrorKind>;
    fn fail(&self, k: ErrorKind, m: &str) -> Result<(), ErrorKind>;
    fn blank(&self) -> Result<(), ErrorKind>;
}

fn secret(s: &Option<(crate::keys::Key, crate::keys::Fmt)>) -> Option<Secret> {
    s.as_ref().map(|(k, f)| k.secret(*f))
}

macro_rules! cb {
    ($t:ty, $a:ident => $v:expr, $blank:expr) => {
        impl Cb for $t {
            fn answer(&self, $a: &Answer) -> Result<(), ErrorKind> {
                if let Answer::Err(k, m) = $a {
                    return self.error(*k, m.clone());
                }
                self.success($v)
            }
            fn fail(&self, k: ErrorKind, m: &str) -> Result<(), ErrorKind> {
                self.error(k, m.to_string())
            }
            fn blank(&self) -> Result<(), ErrorKind> {
                self.success($blank)
            }
        }
    };
}
fn doc(a: &Answer) -> Option<DIDDoc> {
    match a {
        Answer::Doc(d) => d.as_ref().map(|d| d.to_lib()),
        _ => panic!("wrong kind of answer"),
    }
}
fn sec(a: &Answer) -> Option<Secret> {
    match a {
        Answer::Secret(s) => secret(s),
        _ => panic!("wrong kind of answer"),
    }
}
fn ids(a: &Answer) -> Vec<String> {
    match a {
        Answer::Found(f) => f.clone(),
        _ => panic!("wrong kind of answer"),
    }
}
cb!(ffi::OnDIDResolverResult, a => doc(a), None);
cb!(ffi::OnGetSecretResult, a => sec(a), None);
cb!(ffi::OnFindSecretsResult, a => ids(a), vec![]);

struct Host {
    env: Env,
    script: Arc<Mutex<Script>>,
    kept: Arc<AtomicU64>,
}

impl Host {
    fn request(&self, key: String, cb: Arc<dyn Cb>) -> ErrorCode {
        let (a, mode, wait) = {
            let mut sim = self.env.sim.lock().unwrap();
            let a = answer(&mut sim, &mut self.script.lock().unwrap(), &key);
            let b = &mut sim.book;
            let mode = if matches!(a, Answer::Dropped) { 4 + b.ch.draw(3) } else { [0, 1, 1, 1, 2, 3, 7, 8, 9][b.ch.draw(9) as usize] };
            let wait = match b.ch.draw(3) {
                0 => 0,
                1 => b.ch.draw(2000),
                _ => b.ch.draw(100_000),
            };
            let how = ["at once", "later", "twice at once", "twice", "not: dropped", "not: dropped later", "not: kept to the end", "withheld", "from two sides", "starts an operation"][mode as usize];
            b.stat(&format!("answered {}", how));
            b.log(format!("host asked: {} ({}, {}us)", key, how, wait));
            (a, mode, wait)
        };
        let env = self.env.clone();
        match mode {
            // at once
            0 => {
                let _ = cb.answer(&a);
            }
            // later
            1 => exec::spawn(format!("host answers {}", key), async move {
                delay(1 + wait).await;
                let _ = lib_sync(|| cb.answer(&a));
                env.log(format!("host answered: {}", key));
            }),
            // twice, the second time with something else
            2 => {
                env.fault("second answer");
                let _ = cb.answer(&a);
                let _ = cb.fail(ErrorKind::Unsupported, "second answer");
                let _ = cb.blank();
            }
            3 => {
                env.fault("late second answer");
                exec::spawn(format!("host answers {}", key), async move {
                    delay(wait).await;
                    let _ = lib_sync(|| cb.answer(&a));
                    delay(wait / 2).await;
                    let _ = lib_sync(|| cb.blank());
                    let _ = lib_sync(|| cb.fail(ErrorKind::Unsupported, "second answer"));
                });
            }
            // thrown away: at once, later, or when the faults stop
            4 => drop(cb),
            5 => exec::spawn(format!("host drops {}", key), async move {
                delay(wait).await;
                drop(cb);
                env.log(format!("host dropped: {}", key));
            }),
            6 => {
                env.fault("callback kept");
                let kept = self.kept.clone();
                kept.fetch_add(1, Ordering::SeqCst);
                self.env.held.lock().unwrap().push(Box::new(move || {
                    kept.fetch_sub(1, Ordering::SeqCst);
                    drop(cb)
                }))
            }
            // kept until the faults stop, then answered
            7 => {
                env.fault("answer withheld");
                let kept = self.kept.clone();
                kept.fetch_add(1, Ordering::SeqCst);
                self.env.held.lock().unwrap().push(Box::new(move || {
                    kept.fetch_sub(1, Ordering::SeqCst);
                    let _ = lib_sync(|| cb.answer(&a));
                }));
            }
            // answered from two sides at once
            8 => {
                env.fault("racing answers");
                for _ in 0..2 {
                    let (cb, a) = (cb.clone(), a.clone());
                    exec::spawn(format!("host answers {}", key), async move {
                        delay(wait).await;
                        let _ = lib_sync(|| cb.answer(&a));
                    });
                }
            }
            // an operation is started before the answer is given
            _ => {
                env.fault("operation started inside a callback");
                env.start_waiting();
                let _ = cb.answer(&a);
            }
        }
        if self.env.draw(8) == 7 && (mode == 0 || mode == 4) {
            ErrorCode::Error
        } else {
            ErrorCode::Success
        }
    }
}

struct Registry(Host);
impl ffi::DIDResolver for Registry {
    fn resolve(&self, did: String, cb: Arc<ffi::OnDIDResolverResult>) -> ErrorCode {
        self.0.request(key_resolve(&did), cb)
    }
}
struct Wallet(Host);
impl ffi::SecretsResolver for Wallet {
    fn get_secret(&self, secret_id: String, cb: Arc<ffi::OnGetSecretResult>) -> ErrorCode {
        self.0.request(key_get(&secret_id), cb)
    }
    fn find_secrets(&self, secret_ids: Vec<String>, cb: Arc<ffi::OnFindSecretsResult>) -> ErrorCode {
        self.0.request(key_find(&secret_ids), cb)
    }
}

// ---------------------------------------------------------------- result callbacks

struct Result_ {
    env: Env,
    no: usize,
    state: Arc<Mutex<OpState>>,
}

impl Result_ {
    fn end(&self, e: End) {
        self.env.log(format!("op{} ended: {}", self.no, brief(&e)));
        self.state.lock().unwrap().ends.push(e);
        // an application goes on from its callback
        if self.env.draw(4) == 3 {
            self.env.start_waiting();
        }
    }
}

impl Drop for Result_ {
    fn drop(&mut self) {
        if let Ok(mut s) = self.state.lock() {
            s.dropped = true;
        }
    }
}

macro_rules! on_error {
    () => {
        fn error(&self, err: ErrorKind, _: String) {
            self.end(End::Err(err))
        }
    };
}
impl ffi::OnPackPlaintextResult for Result_ {
    fn success(&self, r: String) {
        self.end(End::Text(r, Value::Null))
    }
    on_error!();
}
impl ffi::OnWrapInForwardResult for Result_ {
    fn success(&self, r: String) {
        self.end(End::Text(r, Value::Null))
    }
    on_error!();
}
impl ffi::OnPackSignedResult for Result_ {
    fn success(&self, r: String, m: PackSignedMetadata) {
        self.end(End::Text(r, json!({"sign_by_kid": m.sign_by_kid})))
    }
    on_error!();
}
impl ffi::OnPackEncryptedResult for Result_ {
    fn success(&self, r: String, m: PackEncryptedMetadata) {
        self.end(End::Text(r, enc_meta(&m)))
    }
    on_error!();
}
impl ffi::OnUnpackResult for Result_ {
    fn success(&self, r: Message, m: UnpackMetadata) {
        self.end(End::Read(msg_value(&r), unpack_meta(&m)))
    }
    on_error!();
}
impl ffi::OnFromPriorPackResult for Result_ {
    fn success(&self, r: String, kid: String) {
        self.end(End::Text(r, json!({ "kid": kid })))
    }
    on_error!();
}
impl ffi::OnFromPriorUnpackResult for Result_ {
    fn success(&self, r: FromPrior, kid: String) {
        self.end(End::Read(from_prior_value(&r), json!({ "kid": kid })))
    }
    on_error!();
}

// ---------------------------------------------------------------- running operations

/// A task of the binding's pool: a panic ends the task, not the process.
struct PoolTask {
    f: Option<Pin<Box<dyn Future<Output = ()> + Send>>>,
    env: Env,
}
impl Future for PoolTask {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = &mut *self;
        let f = me.f.as_mut().expect("finished");
        match lib_sync(|| f.as_mut().poll(cx)) {
            Ok(p) => p,
            Err(m) => {
                me.env.sim.lock().unwrap().book.violation("C18", format!("task panicked: {}", m));
                let f = me.f.take();
                let _ = lib_sync(move || drop(f));
                Poll::Ready(())
            }
        }
    }
}

impl Env {
    fn log(&self, s: String) {
        self.sim.lock().unwrap().book.log(s)
    }
    fn draw(&self, n: u64) -> u64 {
        self.sim.lock().unwrap().book.ch.draw(n)
    }
    fn fault(&self, s: &str) {
        self.sim.lock().unwrap().book.stat(&format!("fault.{}", s))
    }
    fn start_waiting(&self) {
        let op = self.waiting.lock().unwrap().pop();
        if let Some(op) = op {
            self.start(op);
        }
    }
    fn start(&self, op: Arc<Op>) {
        let inst = op.group.instance.lock().unwrap().clone();
        let d = match inst {
            Some(d) => d,
            None => return,
        };
        self.ops.lock().unwrap().push(op.clone());
        self.log(format!("op{} starts: {}", op.no, name(&op.call)));
        {
            let mut s = self.sim.lock().unwrap();
            s.book.stat("op");
            s.book.stat(&format!("started {}", name(&op.call)));
        }
        let r = || Box::new(Result_ { env: self.clone(), no: op.no, state: op.state.clone() });
        let code = lib_sync(|| match &op.call {
            Call::PackPlain { msg } => d.pack_plaintext(msg, r()),
            Call::PackSigned { msg, by } => d.pack_signed(msg, by.clone(), r()),
            Call::PackEnc { msg, to, from, by, opts } => d.pack_encrypted(msg, to.clone(), from.clone(), by.clone(), opts, r()),
            Call::Unpack { text, opts } => d.unpack(text.clone(), opts, r()),
            Call::PackPrior { fp, kid } => d.pack_from_prior(fp, kid.clone(), r()),
            Call::UnpackPrior { jwt } => d.unpack_from_prior(jwt.clone(), r()),
            Call::Wrap { text, headers, to, routing, alg } => d.wrap_in_forward(text.clone(), headers, to.clone(), routing, alg, r()),
        });
        if let Err(m) = code {
            self.sim.lock().unwrap().book.violation("C18", format!("op{} {} panicked: {}", op.no, name(&op.call), m));
        }
    }
    /// What is settled so far must be settled once and truly.
    fn judge(&self, at_end: bool) {
        let ops = self.ops.lock().unwrap().clone();
        for op in ops {
            let st = op.state.lock().unwrap();
            let (n, first) = (st.ends.len(), st.ends.first().cloned());
            drop(st);
            let what = format!("op{} {}", op.no, name(&op.call));
            if n > 1 {
                self.sim.lock().unwrap().book.violation("C18", format!("{}: ended {} times", what, n));
            }
            if n == 0 && at_end {
                self.sim.lock().unwrap().book.violation("C18", format!("{}: never ended although every callback was answered or dropped", what));
            }
            if n == 0 && !at_end && op.group.kept.load(Ordering::SeqCst) == 0 {
                self.sim.lock().unwrap().book.violation("C18", format!("{}: waits although all its callbacks were answered", what));
            }
            if let (Some(want), Some(got), true) = (&op.want, &first, at_end) {
                if let Err(m) = same(&self.sim, want, got, is_notice(&op.call)) {
                    let faults = op.group.script.lock().unwrap().placed.join(", ");
                    self.sim.lock().unwrap().book.violation("C18", format!("{}: {} [{}]", what, m, faults));
                }
            }
            if at_end {
                let mut s = self.sim.lock().unwrap();
                let c = format!(
                    "{}|{}|{:?}|{}",
                    name(&op.call),
                    first.as_ref().map(|e| if let End::Err(k) = e { format!("{:?}", k) } else { "ok".into() }).unwrap_or_default(),
                    op.group.script.lock().unwrap().placed.iter().map(|p| p.split(": ").nth(1).unwrap_or("").to_string()).collect::<Vec<_>>(),
                    op.group.calm
                );
                s.book.cover.insert(fnv(&c));
                let k = match &first {
                    Some(End::Err(k)) => format!("ended with {:?}", k),
                    Some(_) => "ended well".to_string(),
                    None => "not ended".to_string(),
                };
                s.book.stat(&k);
            }
        }
    }
}

/// The converter of JSON values keeps them, and refuses what is not JSON.
fn converter(sim: &Shared) {
    use didcomm_uniffi::UniffiCustomTypeConverter as Conv;
    let mut s = sim.lock().unwrap();
    for _ in 0..2 {
        let v = Gen { ch: &mut s.book.ch, marker: String::new() }.value(2);
        let r = lib_sync(|| {
            let t = <Value as Conv>::from_custom(v.clone());
            let back = <Value as Conv>::into_custom(t.clone());
            let cut: String = t.chars().take(t.chars().count() / 2).collect();
            let torn = if serde_json::from_str::<Value>(&cut).is_err() { <Value as Conv>::into_custom(cut).is_err() } else { true };
            (serde_json::from_str::<Value>(&t).ok(), back.ok(), torn)
        });
        match r {
            Ok((a, b, torn)) => {
                if a.as_ref() != Some(&v) || b.as_ref() != Some(&v) {
                    s.book.violation("C18", format!("converter: JSON value {} became {:?}", short(&v.to_string()), b));
                }
                if !torn {
                    s.book.violation("C18", format!("converter: half of {} was accepted as a JSON value", short(&v.to_string())));
                }
            }
            Err(m) => s.book.violation("C18", format!("converter: panicked: {}", m)),
        }
    }
}

pub fn run(mut ch: Choices, seed: u64, _focus: &str) -> RunOut {
    askar_crypto::sim::seed(seed);
    let exec = Exec::new();
    let deploy = Deploy::new(&mut ch, seed);
    let sim: Shared = Arc::new(Mutex::new(Sim { book: Book::new(ch), deploy }));
    let env = Env { sim: sim.clone(), held: Held::default(), ops: Arc::default(), waiting: Arc::default() };
    let e2 = env.clone();
    futures::executor::simulate(Some(Box::new(move |f| {
        exec::spawn("pool task".into(), PoolTask { f: Some(f), env: e2.clone() });
    })));
    stock(&sim);
    converter(&sim);
    let groups = env.draw(4) + 1;
    let mut no = 0;
    for g in 0..groups {
        let (calm, faults, n) = {
            let mut s = sim.lock().unwrap();
            let ch = &mut s.book.ch;
            let calm = ch.chance(1, 8);
            (calm, if calm { 0 } else { ch.draw(4) as u32 }, ch.range(1, 5))
        };
        let script = Arc::new(Mutex::new(Script::new(faults, true)));
        let kept = Arc::new(AtomicU64::new(0));
        let instance = if calm {
            // the example resolvers that come with the binding
            let s = sim.lock().unwrap();
            let docs: Vec<DIDDoc> = s.deploy.docs.values().map(|d| d.to_lib()).collect();
            let secrets: Vec<Secret> = s.deploy.keys.values().map(|(k, f)| k.secret(*f)).collect();
            DIDComm::new(Box::new(ffi::ExampleDIDResolver::new(docs)), Box::new(ffi::ExampleSecretsResolver::new(secrets)))
        } else {
            DIDComm::new(Box::new(Registry(Host { env: env.clone(), script: script.clone(), kept: kept.clone() })), Box::new(Wallet(Host { env: env.clone(), script: script.clone(), kept: kept.clone() })))
        };
        let group = Arc::new(Group { script: script.clone(), instance: Mutex::new(Some(Arc::new(instance))), calm, kept });
        for _ in 0..n {
            let call = gen_call(&mut sim.lock().unwrap());
            let want = native_end(&sim, &script, &call);
            if want.is_none() {
                continue;
            }
            let op = Arc::new(Op { no, call, group: group.clone(), want, state: Arc::default() });
            no += 1;
            let e = env.clone();
            let (inside, at) = {
                let mut s = sim.lock().unwrap();
                (s.book.ch.chance(1, 6), s.book.ch.draw(20_000))
            };
            if inside {
                env.waiting.lock().unwrap().push(op);
                continue;
            }
            exec::spawn(format!("start op{}", op.no), async move {
                delay(at).await;
                e.start(op);
            });
        }
        // the application lets go of the instance while operations are on their way
        if env.draw(3) == 2 {
            let e = env.clone();
            let at = env.draw(40_000);
            exec::spawn(format!("forget instance {}", g), async move {
                delay(at).await;
                e.fault("instance dropped");
                e.log(format!("instance {} dropped", g));
                let i = group.instance.lock().unwrap().take();
                let _ = lib_sync(move || drop(i));
            });
        }
    }
    let s2 = sim.clone();
    let mut pick = move |n: u64| s2.lock().unwrap().book.ch.draw(n);
    let mut ended = exec.run(&mut pick);
    env.judge(false);
    // from here on every callback is answered or dropped
    for _ in 0..400 {
        while !env.waiting.lock().unwrap().is_empty() {
            env.start_waiting();
        }
        let h: Vec<_> = env.held.lock().unwrap().drain(..).collect();
        if h.is_empty() && !matches!(ended, Ended::StepLimit) {
            ended = exec.run(&mut pick);
            if env.held.lock().unwrap().is_empty() && env.waiting.lock().unwrap().is_empty() {
                break;
            }
            continue;
        }
        for f in h {
            f();
            ended = exec.run(&mut pick);
        }
    }
    if matches!(ended, Ended::StepLimit) {
        sim.lock().unwrap().book.violation("C18", "operations make no progress: step limit".into());
    }
    env.judge(true);
    futures::executor::simulate(None);
    let (order, time, polls) = (exec.order.get(), exec.now.get(), exec.polls.get());
    env.ops.lock().unwrap().clear();
    exec.clear();
    let mut s = sim.lock().unwrap();
    let b = &mut s.book;
    RunOut {
        viols: std::mem::take(&mut b.viols),
        trace: std::mem::take(&mut b.trace),
        choices: std::mem::take(&mut b.ch.rec),
        stats: std::mem::take(&mut b.stats),
        cover: std::mem::take(&mut b.cover),
        order,
        time,
        polls,
    }
}
