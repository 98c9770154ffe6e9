//! What the demonstrations share: keys, documents, resolvers that can be scripted, and a tiny executor.
#![allow(dead_code, unused_imports)]
pub use crate::keys::{b64, unb64, Alg, DocModel, Fmt, Key, Mat, Svc, SvcModel, VmModel};
pub use askar_crypto::sim::Prng;
pub use async_trait::async_trait;
pub use didcomm::did::{DIDDoc, DIDResolver};
pub use didcomm::error::{err_msg, Error, ErrorKind, Result, ResultContext, ResultExt};
pub use didcomm::secrets::{Secret, SecretsResolver};
pub use didcomm::*;
pub use serde_json::{json, Value};
pub use std::cell::{Cell, RefCell};
pub use std::collections::BTreeMap;
pub use std::future::Future;
pub use std::pin::Pin;
pub use std::rc::Rc;
pub use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

fn raw() -> RawWaker {
    fn no(_: *const ()) {}
    fn clone(_: *const ()) -> RawWaker {
        raw()
    }
    static V: RawWakerVTable = RawWakerVTable::new(clone, no, no, no);
    RawWaker::new(std::ptr::null(), &V)
}
pub fn poll_once<F: Future + ?Sized>(f: &mut Pin<Box<F>>) -> Option<F::Output> {
    let w = unsafe { Waker::from_raw(raw()) };
    match f.as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Ready(r) => Some(r),
        Poll::Pending => None,
    }
}
pub fn run<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    for _ in 0..1_000_000 {
        if let Some(r) = poll_once(&mut f) {
            return r;
        }
    }
    panic!("operation never ends");
}
/// Suspends once.
pub struct Yield(pub bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        Poll::Pending
    }
}

/// DID registry; a scripted answer may replace the normal one.
#[derive(Default)]
pub struct Registry {
    pub docs: RefCell<BTreeMap<String, DIDDoc>>,
    pub calls: Cell<usize>,
    /// Fail the n-th call (from 0) with this kind.
    pub fail: Cell<Option<(usize, ErrorKind)>>,
    pub slow: Cell<bool>,
}
#[async_trait(?Send)]
impl DIDResolver for Registry {
    async fn resolve(&self, did: &str) -> Result<Option<DIDDoc>> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.slow.get() {
            Yield(false).await;
        }
        if let Some((k, kind)) = self.fail.get() {
            if k == n {
                return Err(err_msg(kind, "scripted resolver failure"));
            }
        }
        Ok(self.docs.borrow().get(did).cloned())
    }
}
#[derive(Default)]
pub struct Wallet {
    pub secrets: RefCell<BTreeMap<String, Secret>>,
    pub calls: Cell<usize>,
    pub fail: Cell<Option<(usize, ErrorKind)>>,
}
impl Wallet {
    pub fn of(keys: &[&Key]) -> Wallet {
        let w = Wallet::default();
        for k in keys {
            w.put(k, Fmt::Jwk);
        }
        w
    }
    pub fn put(&self, k: &Key, f: Fmt) {
        self.secrets.borrow_mut().insert(k.kid.clone(), k.secret(f));
    }
    fn gate(&self) -> Result<()> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        match self.fail.get() {
            Some((k, kind)) if k == n => Err(err_msg(kind, "scripted wallet failure")),
            _ => Ok(()),
        }
    }
}
#[async_trait(?Send)]
impl SecretsResolver for Wallet {
    async fn get_secret(&self, id: &str) -> Result<Option<Secret>> {
        self.gate()?;
        Ok(self.secrets.borrow().get(id).cloned())
    }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> Result<Vec<&'a str>> {
        self.gate()?;
        Ok(ids.iter().filter(|i| self.secrets.borrow().contains_key(**i)).copied().collect())
    }
}

pub fn key(seed: u64, kid: &str, alg: Alg) -> Key {
    Key::gen(&mut Prng::new(seed * 7919 + 13), kid, alg)
}
pub fn vm(k: &Key) -> VmModel {
    vmf(k, Fmt::Jwk)
}
pub fn vmf(k: &Key, f: Fmt) -> VmModel {
    VmModel { kid: k.kid.clone(), mat: Mat::Good(k.clone(), f) }
}
/// Document listing `ka` for key agreement and `auth` for authentication.
pub fn doc(did: &str, ka: &[&Key], auth: &[&Key]) -> DocModel {
    DocModel {
        did: did.into(),
        ver: 0,
        ka: ka.iter().map(|k| k.kid.clone()).collect(),
        auth: auth.iter().map(|k| k.kid.clone()).collect(),
        vms: ka.iter().chain(auth).map(|k| vm(k)).collect(),
        services: vec![],
    }
}
pub fn service(id: &str, uri: &str, routing: &[&str]) -> SvcModel {
    SvcModel {
        id: id.into(),
        kind: Svc::Didcomm { uri: uri.into(), accept: Some(vec!["didcomm/v2".into()]), routing: routing.iter().map(|s| s.to_string()).collect() },
    }
}
pub fn registry(docs: &[&DocModel]) -> Registry {
    let r = Registry::default();
    for d in docs {
        r.docs.borrow_mut().insert(d.did.clone(), d.to_lib());
    }
    r
}
pub fn noforward() -> PackEncryptedOptions {
    PackEncryptedOptions { forward: false, ..Default::default() }
}
/// Fails the demonstration.
#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            eprintln!("PROPERTY BROKEN: {}", format!($($t)*));
            std::process::exit(1);
        }
    };
}
