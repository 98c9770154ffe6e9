//! What the demonstrations of the callback binding share: a host whose answers can be scripted.
#![allow(dead_code, unused_imports)]
pub use crate::keys::{Alg, DocModel, Fmt, Key, Mat, Svc, SvcModel, VmModel};
use askar_crypto::sim::Prng;
pub use didcomm::did::DIDDoc;
pub use didcomm::error::ErrorKind;
pub use didcomm::secrets::Secret;
pub use didcomm::*;
pub use didcomm_uniffi::{DIDComm, ErrorCode, OnDIDResolverResult, OnFindSecretsResult, OnGetSecretResult};
use didcomm_uniffi as ffi;
pub use serde_json::{json, Value};
pub use std::collections::{BTreeMap, HashMap};
use std::sync::mpsc::{channel, Receiver, Sender};
pub use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Default)]
pub struct Host {
    pub docs: Mutex<BTreeMap<String, DIDDoc>>,
    pub secrets: Mutex<BTreeMap<String, Secret>>,
    /// Answer requests containing this text with this kind.
    pub fail: Mutex<Option<(String, ErrorKind)>>,
    /// Errors have no message.
    pub silent: Mutex<bool>,
    /// Keep requests containing this text until `release`.
    pub keep: Mutex<Option<String>>,
    kept: Mutex<Vec<Box<dyn FnOnce() + Send>>>,
}
impl Host {
    pub fn new(docs: &[&DocModel], keys: &[&Key]) -> Arc<Host> {
        let h = Host::default();
        for d in docs {
            h.docs.lock().unwrap().insert(d.did.clone(), d.to_lib());
        }
        for k in keys {
            h.secrets.lock().unwrap().insert(k.kid.clone(), k.secret(Fmt::Jwk));
        }
        Arc::new(h)
    }
    fn failing(&self, key: &str) -> Option<ErrorKind> {
        self.fail.lock().unwrap().as_ref().filter(|f| key.contains(&f.0)).map(|f| f.1)
    }
    fn text(&self) -> String {
        if *self.silent.lock().unwrap() { String::new() } else { "scripted".into() }
    }
    fn answer(&self, key: &str, f: Box<dyn FnOnce() + Send>) -> ErrorCode {
        let keep = matches!(&*self.keep.lock().unwrap(), Some(k) if key.contains(k.as_str()));
        if keep {
            self.kept.lock().unwrap().push(f);
        } else {
            f();
        }
        ErrorCode::Success
    }
    pub fn kept(&self) -> usize {
        self.kept.lock().unwrap().len()
    }
    pub fn release(&self) {
        *self.keep.lock().unwrap() = None;
        let v: Vec<_> = self.kept.lock().unwrap().drain(..).collect();
        v.into_iter().for_each(|f| f());
    }
}
struct R(Arc<Host>);
impl ffi::DIDResolver for R {
    fn resolve(&self, did: String, cb: Arc<OnDIDResolverResult>) -> ErrorCode {
        let key = format!("resolve {}", did);
        let (e, d) = (self.0.failing(&key), self.0.docs.lock().unwrap().get(&did).cloned());
        let t = self.0.text();
        self.0.answer(&key, Box::new(move || drop(match e {
            Some(k) => cb.error(k, t),
            None => cb.success(d),
        })))
    }
}
impl ffi::SecretsResolver for R {
    fn get_secret(&self, id: String, cb: Arc<OnGetSecretResult>) -> ErrorCode {
        let key = format!("get {}", id);
        let (e, s) = (self.0.failing(&key), self.0.secrets.lock().unwrap().get(&id).cloned());
        let t = self.0.text();
        self.0.answer(&key, Box::new(move || drop(match e {
            Some(k) => cb.error(k, t),
            None => cb.success(s),
        })))
    }
    fn find_secrets(&self, ids: Vec<String>, cb: Arc<OnFindSecretsResult>) -> ErrorCode {
        let key = format!("find {}", ids.join(" "));
        let e = self.0.failing(&key);
        let s = self.0.secrets.lock().unwrap();
        let f = ids.into_iter().filter(|i| s.contains_key(i)).collect();
        drop(s);
        let t = self.0.text();
        self.0.answer(&key, Box::new(move || drop(match e {
            Some(k) => cb.error(k, t),
            None => cb.success(f),
        })))
    }
}
pub fn instance(h: &Arc<Host>) -> DIDComm {
    DIDComm::new(Box::new(R(h.clone())), Box::new(R(h.clone())))
}

/// Collects what an operation ends with.
pub struct Cb<T>(Mutex<Sender<std::result::Result<T, ErrorKind>>>);
pub struct Outcome<T>(Receiver<std::result::Result<T, ErrorKind>>);
pub fn callback<T>() -> (Box<Cb<T>>, Outcome<T>) {
    let (s, r) = channel();
    (Box::new(Cb(Mutex::new(s))), Outcome(r))
}
impl<T> Cb<T> {
    fn put(&self, r: std::result::Result<T, ErrorKind>) {
        let _ = self.0.lock().unwrap().send(r);
    }
}
impl<T> Outcome<T> {
    /// What the operation ended with; `None` when it does not end (in this long).
    pub fn get(&self, ms: u64) -> Option<std::result::Result<T, ErrorKind>> {
        self.0.recv_timeout(Duration::from_millis(ms)).ok()
    }
}
macro_rules! on {
    ($t:ident, $r:ty, |$($a:ident: $at:ty),*| $v:expr) => {
        impl ffi::$t for Cb<$r> {
            fn success(&self, $($a: $at),*) {
                self.put(Ok($v))
            }
            fn error(&self, k: ErrorKind, _: String) {
                self.put(Err(k))
            }
        }
    };
}
on!(OnPackPlaintextResult, String, |r: String| r);
on!(OnWrapInForwardResult, String, |r: String| r);
on!(OnPackSignedResult, (String, PackSignedMetadata), |r: String, m: PackSignedMetadata| (r, m));
on!(OnPackEncryptedResult, (String, PackEncryptedMetadata), |r: String, m: PackEncryptedMetadata| (r, m));
on!(OnUnpackResult, (Message, UnpackMetadata), |r: Message, m: UnpackMetadata| (r, m));
on!(OnFromPriorPackResult, (String, String), |r: String, k: String| (r, k));
on!(OnFromPriorUnpackResult, (FromPrior, String), |r: FromPrior, k: String| (r, k));

pub fn key(seed: u64, kid: &str, alg: Alg) -> Key {
    Key::gen(&mut Prng::new(seed * 7919 + 13), kid, alg)
}
pub fn vm(k: &Key) -> VmModel {
    VmModel { kid: k.kid.clone(), mat: Mat::Good(k.clone(), Fmt::Jwk) }
}
pub fn doc(did: &str, ka: &[&Key], auth: &[&Key]) -> DocModel {
    DocModel {
        did: did.into(),
        ver: 0,
        ka: ka.iter().map(|k| k.kid.clone()).collect(),
        auth: auth.iter().map(|k| k.kid.clone()).collect(),
        vms: ka.iter().chain(auth).map(|k| vm(k)).collect(),
        services: vec![],
    }
}
pub fn noforward() -> PackEncryptedOptions {
    PackEncryptedOptions { forward: false, ..Default::default() }
}
pub fn hello(from: Option<&str>, to: &str) -> Message {
    let b = Message::build("1".into(), "t".into(), json!({"hello": 1})).to(to.into());
    match from {
        Some(f) => b.from(f.into()).finalize(),
        None => b.finalize(),
    }
}
/// Fails the demonstration.
#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            eprintln!("PROPERTY BROKEN: {}", format!($($t)*));
            std::process::exit(1);
        }
    };
}
