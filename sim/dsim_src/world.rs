//! The simulated deployment: identities and their documents, devices with views, wallets and disks,
//! fault plans, and the resolvers handed to the library.
use crate::choices::Choices;
use crate::exec::{self, delay};
use crate::keys::*;
use crate::peer::View;
use askar_crypto::sim::{AeadUse, Drawn, Prng};
use async_trait::async_trait;
use didcomm::did::resolvers::ExampleDIDResolver;
use didcomm::did::{DIDDoc, DIDResolver, ServiceKind, VerificationMaterial};
use didcomm::error::{Error, ErrorKind, Result};
use didcomm::secrets::resolvers::ExampleSecretsResolver;
use didcomm::secrets::{Secret, SecretMaterial, SecretsResolver};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub type Wr = Rc<RefCell<World>>;
pub type CtxR = Rc<RefCell<Ctx>>;

pub const ALL_KINDS: [ErrorKind; 9] = [
    ErrorKind::IoError,
    ErrorKind::InvalidState,
    ErrorKind::DIDNotResolved,
    ErrorKind::DIDUrlNotFound,
    ErrorKind::SecretNotFound,
    ErrorKind::Malformed,
    ErrorKind::NoCompatibleCrypto,
    ErrorKind::Unsupported,
    ErrorKind::IllegalArgument,
];

pub struct Identity {
    pub did: String,
    pub kind: Kind,
    pub doc: DocModel,
    /// Every key this identity ever had.
    pub keys: Vec<(Key, Fmt)>,
    pub devices: Vec<usize>,
    pub changed: u32,
    pub next_key: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Person,
    Mediator,
    Mallory,
}

#[derive(Clone)]
pub struct StoredSecret {
    pub key: Key,
    pub fmt: Fmt,
    pub lib: Secret,
}

#[derive(Clone)]
pub struct StoredDoc {
    pub model: Rc<DocModel>,
    pub lib: DIDDoc,
}

pub struct Device {
    pub ident: usize,
    pub name: String,
    pub view: BTreeMap<String, StoredDoc>,
    pub wallet: BTreeMap<String, StoredSecret>,
    pub wallet_epoch: u64,
    pub epoch: u64,
    pub example: bool,
    pub shuffle: bool,
    pub slow: u64,
    /// An attacker holds this device's secrets.
    pub compromised: bool,
    /// Durable state: (docs, secrets, outbox) as JSON text.
    pub disk: Disk,
}

#[derive(Default, Clone)]
pub struct Disk {
    pub docs: Option<String>,
    pub secrets: Option<String>,
    pub notes: BTreeMap<String, (String, Value)>,
}

#[derive(Clone, Debug)]
pub enum Plan {
    None,
    Fail { call: u32, kind: ErrorKind },
    /// The n-th call answers "not found" / an empty list.
    Absent { call: u32 },
    /// Secrets disappear between existence check and retrieval.
    Vanish,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Absent {
    Did(String),
    Find,
    Get,
}

pub struct Ctx {
    pub id: u64,
    pub dev: usize,
    pub what: String,
    pub plan: Plan,
    pub calls: u32,
    pub answers: Vec<(String, Option<Rc<DocModel>>)>,
    pub finds: u32,
    pub gets: u32,
    pub first_err: Option<ErrorKind>,
    pub absent: Option<Absent>,
    /// The keys the wallet denied holding.
    pub absent_kids: std::collections::BTreeSet<String>,
    pub hostile: bool,
    pub quick: bool,
    pub wallet_epoch: u64,
    pub epoch: u64,
    pub cancel_at: Option<u32>,
    /// Wallet and view when the operation began.
    pub runaway: bool,
}

impl Ctx {
    pub fn inconsistent(&self) -> bool {
        let mut seen: HashMap<&str, Option<u32>> = HashMap::new();
        for (d, a) in &self.answers {
            if a.is_none() && self.absent == Some(Absent::Did(d.clone())) {
                continue;
            }
            let v = a.as_ref().map(|a| a.ver);
            if let Some(p) = seen.insert(d, v) {
                if p != v {
                    return true;
                }
            }
        }
        false
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub props: Vec<&'static str>,
    pub msg: String,
    pub at: u64,
}

/// An honest message as its sender meant it.
#[derive(Debug)]
pub struct Origin {
    pub msg: Value,
    pub marker: String,
    pub from_did: Option<String>,
    pub to_did: String,
    pub auth: bool,
    pub hidden: bool,
    pub anon: bool,
    pub encrypted: bool,
    pub sign_kid: Option<String>,
    pub from_kid: Option<String>,
    pub desc: String,
}

#[derive(Clone, Debug)]
pub enum Prov {
    /// Undamaged output of the library.
    Honest(Rc<Origin>),
    /// Valid envelope of an independent peer.
    Peer(Rc<Origin>, &'static str),
    /// Altered on the way.
    Damaged(Rc<Origin>, String),
    /// Altered in a way that must not prevent delivery.
    Harmless(Rc<Origin>, &'static str),
    /// Made by an attacker; properties it attacks.
    Forged(&'static str, &'static [&'static str]),
    Garbage(&'static str),
}

impl Prov {
    pub fn origin(&self) -> Option<&Rc<Origin>> {
        match self {
            Prov::Honest(o) | Prov::Peer(o, _) | Prov::Damaged(o, _) | Prov::Harmless(o, _) => Some(o),
            _ => None,
        }
    }
    pub fn must_accept(&self) -> bool {
        matches!(self, Prov::Honest(_) | Prov::Peer(..) | Prov::Harmless(..))
    }
    pub fn label(&self) -> String {
        match self {
            Prov::Honest(_) => "honest".into(),
            Prov::Peer(_, s) => format!("peer:{}", s),
            Prov::Damaged(_, s) => format!("damaged:{}", s),
            Prov::Harmless(_, s) => format!("harmless:{}", s),
            Prov::Forged(s, _) => format!("forged:{}", s),
            Prov::Garbage(s) => format!("garbage:{}", s),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Config {
    pub persons: u64,
    pub mediators: u64,
    pub actions: u64,
    pub fault_pct: u64,
    pub cancel_pct: u64,
    pub corrupt_pct: u64,
    pub dup_pct: u64,
    pub loss_pct: u64,
    pub crash_pct: u64,
    pub latency: u64,
    pub wild_keys: bool,
    pub faults_on: bool,
    /// Percentages steering what kind of messages are made.
    pub hide: u64,
    pub sign: u64,
    pub route: u64,
    pub rewrap: u64,
    pub unwrap: u64,
    pub all_keys: u64,
    pub subset: u64,
    pub fmt_jwk: u64,
    pub twice: u64,
}

pub struct World {
    pub ch: Choices,
    pub rng: Prng,
    pub nonce: String,
    pub cfg: Config,
    pub idents: Vec<Identity>,
    pub devs: Vec<Device>,
    pub registry: BTreeMap<String, Vec<Rc<DocModel>>>,
    pub trace: Vec<String>,
    pub stats: BTreeMap<String, u64>,
    pub cover: BTreeSet<u64>,
    pub viols: Vec<Violation>,
    pub next_op: u64,
    pub next_msg: u64,
    pub ledger: HashSet<(String, String)>,
    pub packets: Vec<(String, Prov, usize)>,
    pub notices: Vec<(String, Value, String)>,
    pub aead_keys: HashSet<Vec<u8>>,
    pub aead_nonces: HashSet<Vec<u8>>,
    /// Everything the library drew from the random source.
    pub stream: Vec<u8>,
    pub drawn: HashSet<Vec<u8>>,
    pub wire_unique: HashSet<(&'static str, String)>,
    pub focus: Option<String>,
    /// Honest messages not delivered yet: (text, what they are, addressed to).
    pub lost: Vec<(Rc<String>, Prov, String)>,
    pub deliveries: u64,
    pub hostile_dev: usize,
    /// Signed envelopes handed out earlier, with what they mean.
    pub signed: Vec<(Rc<String>, Rc<Origin>)>,
    pub clock_skew: u64,
    pub partitioned: HashSet<usize>,
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl World {
    pub fn stat(&mut self, k: &str) {
        *self.stats.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn log(&mut self, s: String) {
        let t = exec::sim_now();
        self.trace.push(format!("[{:>9}us] {}", t, s));
    }
    pub fn cover(&mut self, s: &str) {
        self.cover.insert(fnv(s));
    }
    pub fn violation(&mut self, props: &[&'static str], msg: String) {
        let mut p: Vec<&'static str> = props.to_vec();
        p.sort();
        p.dedup();
        // enough of each kind
        if p.iter().all(|x| self.viols.iter().filter(|v| v.props.contains(x)).count() >= 8) {
            return;
        }
        self.log(format!("!! VIOLATION {:?} {}", p, msg));
        self.viols.push(Violation { props: p, msg, at: exec::sim_now() });
    }
    pub fn ident_of(&self, did: &str) -> Option<usize> {
        self.idents.iter().position(|i| i.did == did)
    }
    pub fn latest(&self, did: &str) -> Option<Rc<DocModel>> {
        self.registry.get(did).and_then(|v| v.last().cloned())
    }
    pub fn fmts_mixed(&self) -> bool {
        self.idents.iter().any(|i| i.keys.iter().any(|(k, f)| k.fmt(*f) != Fmt::Jwk))
    }
    pub fn changed(&self) -> bool {
        self.idents.iter().any(|i| i.changed > 0)
    }
    /// Absorb what one poll of the library drew; every content key and nonce must be fresh.
    pub fn absorb(&mut self, what: &str, log: (Vec<AeadUse>, Vec<Drawn>)) {
        for d in log.1 {
            if d.what == "bytes" {
                self.stream.extend(d.bytes);
                continue;
            }
            if !self.drawn.insert(d.bytes.clone()) {
                self.violation(&["C22"], format!("{}: the same {} secret was drawn twice", what, d.what));
            }
        }
        for u in log.0 {
            if !self.drawn.contains(&u.key) {
                self.violation(&["C22"], format!("{}: {} content key was not drawn from the random source", what, u.alg));
            }
            if !self.aead_keys.insert(u.key.clone()) {
                self.violation(&["C22"], format!("{}: {} content key used for two encryptions", what, u.alg));
            }
            if !self.stream.windows(u.nonce.len()).rev().any(|x| x == u.nonce) {
                self.violation(&["C22"], format!("{}: {} initialisation vector was not drawn from the random source", what, u.alg));
            }
            if !self.aead_nonces.insert(u.nonce.clone()) {
                self.violation(&["C22"], format!("{}: {} initialisation vector used for two encryptions", what, u.alg));
            }
        }
    }
}

// ---------------------------------------------------------------- reading the library's values back

pub fn material_value(m: &VerificationMaterial) -> (&'static str, Value) {
    match m {
        VerificationMaterial::JWK { public_key_jwk } => ("publicKeyJwk", public_key_jwk.clone()),
        VerificationMaterial::Multibase { public_key_multibase } => ("publicKeyMultibase", json!(public_key_multibase)),
        VerificationMaterial::Base58 { public_key_base58 } => ("publicKeyBase58", json!(public_key_base58)),
    }
}

/// Field-by-field reading of a library document, as documented JSON.
pub fn doc_value(d: &DIDDoc) -> Value {
    json!({
        "id": d.id,
        "keyAgreement": d.key_agreement,
        "authentication": d.authentication,
        "verificationMethod": d.verification_method.iter().map(|v| {
            let (n, m) = material_value(&v.verification_material);
            let mut o = json!({"id": v.id, "type": format!("{:?}", v.type_), "controller": v.controller});
            o[n] = m;
            o
        }).collect::<Vec<_>>(),
        "service": d.service.iter().map(|s| match &s.service_endpoint {
            ServiceKind::DIDCommMessaging { value } => {
                let mut e = json!({"uri": value.uri, "routingKeys": value.routing_keys});
                if let Some(a) = &value.accept { e["accept"] = json!(a); }
                json!({"id": s.id, "type": "DIDCommMessaging", "serviceEndpoint": e})
            }
            ServiceKind::Other { value } => json!({"id": s.id, "type": "Other", "serviceEndpoint": value}),
        }).collect::<Vec<_>>(),
    })
}

pub fn secret_value(s: &Secret) -> Value {
    let mut o = json!({"id": s.id, "type": format!("{:?}", s.type_)});
    match &s.secret_material {
        SecretMaterial::JWK { private_key_jwk } => o["privateKeyJwk"] = private_key_jwk.clone(),
        SecretMaterial::Multibase { private_key_multibase } => o["privateKeyMultibase"] = json!(private_key_multibase),
        SecretMaterial::Base58 { private_key_base58 } => o["privateKeyBase58"] = json!(private_key_base58),
    }
    o
}

// ---------------------------------------------------------------- stores

/// Put a document into a device's store the way an application would: directly, through the
/// library's own JSON, or from JSON written by another tool.
pub fn store_doc(w: &mut World, model: &Rc<DocModel>) -> StoredDoc {
    let direct = model.to_lib();
    let want = doc_value(&direct);
    let plain = model.vms.iter().all(|v| v.key().is_some());
    let route = w.ch.draw(3);
    let lib = match route {
        1 => match exec::lib_sync(|| serde_json::to_string(&direct).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str::<DIDDoc>(&t).map_err(|e| e.to_string()).map(|d| (t, d)))) {
            Ok(Ok((t, d))) => {
                let written: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
                if plain && written != model.to_json() {
                    w.violation(&["C19"], format!("document of {} is written as {}", model.did, crate::oracle::diff(&model.to_json(), &written)));
                }
                d
            }
            Ok(Err(e)) => {
                w.violation(&["C19"], format!("document of {} cannot be stored and reloaded: {}", model.did, e));
                direct.clone()
            }
            Err(p) => {
                w.violation(&["C12", "C19"], format!("storing a document panicked: {}", p));
                direct.clone()
            }
        },
        2 if plain => {
            let mut j = model.to_json();
            // other tools leave optional members out
            if let Some(Value::Array(s)) = j.get_mut("service") {
                for x in s.iter_mut() {
                    if x["type"] == "DIDCommMessaging" && x["serviceEndpoint"]["routingKeys"] == json!([]) {
                        x["serviceEndpoint"].as_object_mut().unwrap().remove("routingKeys");
                    }
                }
            }
            let t = j.to_string();
            match exec::lib_sync(|| serde_json::from_str::<DIDDoc>(&t)) {
                Ok(Ok(d)) => d,
                Ok(Err(e)) => {
                    w.violation(&["C19"], format!("documented JSON of {} is refused: {}", model.did, e));
                    direct.clone()
                }
                Err(p) => {
                    w.violation(&["C12", "C19"], format!("loading a document panicked: {}", p));
                    direct.clone()
                }
            }
        }
        _ => direct.clone(),
    };
    w.stat(match route { 1 => "store.doc.roundtrip", 2 => "store.doc.foreign", _ => "store.doc.direct" });
    let got = doc_value(&lib);
    if got != want {
        w.violation(&["C19"], format!("document of {} changed in storage: stored {} reloaded {}", model.did, want, got));
    }
    StoredDoc { model: model.clone(), lib }
}

pub fn store_secret(w: &mut World, key: &Key, fmt: Fmt) -> StoredSecret {
    let fmt = key.fmt(fmt);
    let direct = key.secret(fmt);
    let want = key.secret_json(fmt);
    let lib = match w.ch.draw(3) {
        1 => {
            let r = exec::lib_sync(|| serde_json::to_string(&direct).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str::<Secret>(&t).map_err(|e| e.to_string()).map(|s| (t, s))));
            r.map(|r| {
                r.map(|(t, s)| {
                    let written: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
                    if written != want {
                        w.violation(&["C19"], format!("secret {} is written with members {:?}", key.kid, written.as_object().map(|o| o.keys().collect::<Vec<_>>())));
                    }
                    s
                })
            })
        }
        2 => {
            let t = want.to_string();
            exec::lib_sync(|| serde_json::from_str::<Secret>(&t).map_err(|e| e.to_string()))
        }
        _ => Ok(Ok(direct.clone())),
    };
    let lib = match lib {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => {
            w.violation(&["C19"], format!("secret {} cannot be stored and reloaded: {}", key.kid, e));
            direct.clone()
        }
        Err(p) => {
            w.violation(&["C12", "C19"], format!("storing a secret panicked: {}", p));
            direct.clone()
        }
    };
    let got = secret_value(&lib);
    if got != want {
        w.violation(&["C19"], format!("secret {} changed in storage: stored {} reloaded {}", key.kid, want, got));
    }
    StoredSecret { key: key.clone(), fmt, lib }
}

// ---------------------------------------------------------------- resolvers given to the library

pub struct SimResolver {
    pub w: Wr,
    pub ctx: CtxR,
    /// The bundled resolver and what it was built from.
    pub example: Option<(ExampleDIDResolver, BTreeMap<String, StoredDoc>)>,
}

pub struct SimWallet {
    pub w: Wr,
    pub ctx: CtxR,
    /// The bundled resolver and what it was built from.
    pub example: Option<(ExampleSecretsResolver, BTreeMap<String, StoredSecret>)>,
}

enum Fault {
    None,
    Err(ErrorKind),
    Absent,
}

fn begin_call(w: &Wr, ctx: &CtxR, what: &str) -> (u64, Fault) {
    let mut w = w.borrow_mut();
    let mut c = ctx.borrow_mut();
    let n = c.calls;
    c.calls += 1;
    if c.quick {
        return (0, Fault::None);
    }
    if c.calls > 400 {
        if !c.runaway {
            c.runaway = true;
            let m = format!("op{} {}: more than 400 resolver calls", c.id, c.what);
            w.violation(&["C12"], m);
        }
        return (0, Fault::Err(ErrorKind::IoError));
    }
    let slow = w.devs[c.dev].slow;
    let lat = w.cfg.latency;
    let d = if lat == 0 { 0 } else { w.ch.draw(lat) * (1 + slow) };
    let fault = match &c.plan {
        Plan::Fail { call, kind } if *call == n => {
            let k = *kind;
            c.first_err.get_or_insert(k);
            Fault::Err(k)
        }
        Plan::Absent { call } if *call == n => Fault::Absent,
        _ => Fault::None,
    };
    match &fault {
        Fault::None => {}
        Fault::Err(k) => {
            w.stat(&format!("fault.{}.{:?}", what, k));
            let m = format!("op{} {} #{} -> injected {:?}", c.id, what, n, k);
            w.log(m);
        }
        Fault::Absent => {
            w.stat(&format!("fault.{}.absent", what));
            let m = format!("op{} {} #{} -> injected absence", c.id, what, n);
            w.log(m);
        }
    }
    (d, fault)
}

#[async_trait(?Send)]
impl DIDResolver for SimResolver {
    async fn resolve(&self, did: &str) -> Result<Option<DIDDoc>> {
        let (d, fault) = begin_call(&self.w, &self.ctx, "resolve");
        delay(d).await;
        match fault {
            Fault::Err(k) => return Err(Error::msg(k, "injected")),
            Fault::Absent => {
                let mut c = self.ctx.borrow_mut();
                c.absent.get_or_insert(Absent::Did(did.to_string()));
                c.answers.push((did.to_string(), None));
                return Ok(None);
            }
            Fault::None => {}
        }
        let dev = self.ctx.borrow().dev;
        let stored = match &self.example {
            Some((_, snap)) => snap.get(did).cloned(),
            None => self.w.borrow().devs[dev].view.get(did).cloned(),
        };
        self.ctx.borrow_mut().answers.push((did.to_string(), stored.as_ref().map(|s| s.model.clone())));
        if let Some((ex, _)) = &self.example {
            let got = ex.resolve(did).await?;
            let (g, s) = (got.as_ref().map(doc_value), stored.as_ref().map(|s| doc_value(&s.lib)));
            if g != s {
                let m = format!("example DID resolver asked for {} answered {:?} instead of {:?}", did, g.map(|g| g["id"].clone()), s.map(|g| g["id"].clone()));
                self.w.borrow_mut().violation(&["C19"], m);
            } else {
                return Ok(got);
            }
        }
        Ok(stored.map(|s| s.lib))
    }
}

#[async_trait(?Send)]
impl SecretsResolver for SimWallet {
    async fn get_secret(&self, secret_id: &str) -> Result<Option<Secret>> {
        let (d, fault) = begin_call(&self.w, &self.ctx, "get_secret");
        delay(d).await;
        let vanish = matches!(self.ctx.borrow().plan, Plan::Vanish) && !self.ctx.borrow().quick;
        match fault {
            Fault::Err(k) => return Err(Error::msg(k, "injected")),
            Fault::Absent => {
                let mut c = self.ctx.borrow_mut();
                c.absent.get_or_insert(Absent::Get);
                c.absent_kids.insert(secret_id.to_string());
                return Ok(None);
            }
            Fault::None if vanish => {
                {
                    let mut c = self.ctx.borrow_mut();
                    c.absent.get_or_insert(Absent::Get);
                    c.absent_kids.insert(secret_id.to_string());
                }
                self.w.borrow_mut().stat("fault.get_secret.vanished");
                return Ok(None);
            }
            Fault::None => {}
        }
        let dev = self.ctx.borrow().dev;
        self.ctx.borrow_mut().gets += 1;
        let stored = self.w.borrow().devs[dev].wallet.get(secret_id).map(|s| s.lib.clone());
        if let Some((ex, from)) = &self.example {
            let got = ex.get_secret(secret_id).await?;
            if got.as_ref().map(secret_value) != from.get(secret_id).map(|s| secret_value(&s.lib)) {
                let m = format!("example secrets resolver answered {:?} for {}", got.map(|g| g.id), secret_id);
                self.w.borrow_mut().violation(&["C19"], m);
            } else {
                return Ok(got);
            }
        }
        Ok(stored)
    }

    async fn find_secrets<'a>(&self, secret_ids: &'a [&'a str]) -> Result<Vec<&'a str>> {
        let (d, fault) = begin_call(&self.w, &self.ctx, "find_secrets");
        delay(d).await;
        match fault {
            Fault::Err(k) => return Err(Error::msg(k, "injected")),
            Fault::Absent => {
                let mut c = self.ctx.borrow_mut();
                c.absent.get_or_insert(Absent::Find);
                c.absent_kids.extend(secret_ids.iter().map(|k| k.to_string()));
                return Ok(vec![]);
            }
            Fault::None => {}
        }
        let dev = self.ctx.borrow().dev;
        self.ctx.borrow_mut().finds += 1;
        let mut found: Vec<&'a str> = {
            let w = self.w.borrow();
            secret_ids.iter().copied().filter(|k| w.devs[dev].wallet.contains_key(*k)).collect()
        };
        if let Some((ex, from)) = &self.example {
            let got = ex.find_secrets(secret_ids).await?;
            let want: Vec<&str> = secret_ids.iter().copied().filter(|k| from.contains_key(*k)).collect();
            if got != want {
                let m = format!("example secrets resolver asked for {:?} found {:?} instead of {:?}", secret_ids, got, want);
                self.w.borrow_mut().violation(&["C19"], m);
            } else {
                return Ok(got);
            }
        }
        let mut w = self.w.borrow_mut();
        if w.devs[dev].shuffle && found.len() > 1 && !self.ctx.borrow().quick {
            let n = found.len();
            for i in (1..n).rev() {
                let j = i - w.ch.draw(i as u64 + 1) as usize;
                found.swap(i, j);
            }
        }
        Ok(found)
    }
}

pub fn resolvers(w: &Wr, ctx: &CtxR) -> (SimResolver, SimWallet) {
    let dev = ctx.borrow().dev;
    let (a, b) = {
        let wb = w.borrow();
        let d = &wb.devs[dev];
        if d.example {
            (
                Some((ExampleDIDResolver::new(d.view.values().map(|s| s.lib.clone()).collect()), d.view.clone())),
                Some((ExampleSecretsResolver::new(d.wallet.values().map(|s| s.lib.clone()).collect()), d.wallet.clone())),
            )
        } else {
            (None, None)
        }
    };
    // an example resolver is a snapshot: its documents and secrets are those of the start
    (SimResolver { w: w.clone(), ctx: ctx.clone(), example: a }, SimWallet { w: w.clone(), ctx: ctx.clone(), example: b })
}

/// What an operation could see: the answers it got, otherwise the device's present view.
pub struct OpView {
    pub ordered: bool,
    pub answers: BTreeMap<String, Option<Rc<DocModel>>>,
    pub view: BTreeMap<String, Rc<DocModel>>,
    pub wallet: BTreeMap<String, Key>,
}

impl View for OpView {
    fn doc(&self, did: &str) -> Option<Rc<DocModel>> {
        match self.answers.get(did) {
            Some(a) => a.clone(),
            None => self.view.get(did).cloned(),
        }
    }
    fn secret(&self, kid: &str) -> Option<Key> {
        self.wallet.get(kid).cloned()
    }
    fn ordered(&self) -> bool {
        self.ordered
    }
}

pub fn op_view(w: &World, ctx: &Ctx) -> OpView {
    let d = &w.devs[ctx.dev];
    OpView {
        answers: ctx.answers.iter().cloned().collect(),
        view: d.view.iter().map(|(k, v)| (k.clone(), v.model.clone())).collect(),
        wallet: d.wallet.iter().map(|(k, v)| (k.clone(), v.key.clone())).collect(),
        ordered: !d.shuffle,
    }
}

/// The same without the keys the wallet denied holding.
pub fn denied_view(w: &World, ctx: &Ctx) -> OpView {
    let mut v = op_view(w, ctx);
    v.wallet.retain(|k, _| !ctx.absent_kids.contains(k));
    v
}

pub fn dev_view(w: &World, dev: usize) -> OpView {
    let d = &w.devs[dev];
    OpView {
        ordered: !d.shuffle,
        answers: BTreeMap::new(),
        view: d.view.iter().map(|(k, v)| (k.clone(), v.model.clone())).collect(),
        wallet: d.wallet.iter().map(|(k, v)| (k.clone(), v.key.clone())).collect(),
    }
}
