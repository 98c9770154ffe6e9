//! What the simulations of the two bindings share: a small deployment, operations against it, the
//! answers the host gives during one operation, and the outcome the native operation has when its
//! resolver and wallet give the same answers.
use crate::choices::Choices;
use crate::exec::{lib_sync, sim_now};
use crate::keys::*;
use crate::msgs::{from_prior_value, msg_value, Gen};
use askar_crypto::sim::Prng;
use async_trait::async_trait;
use didcomm::algorithms::{AnonCryptAlg, AuthCryptAlg, SignAlg};
use didcomm::did::{DIDDoc, DIDResolver};
use didcomm::error::{err_msg, ErrorKind, Result};
use didcomm::protocols::routing::wrap_in_forward;
use didcomm::secrets::{Secret, SecretsResolver};
use didcomm::{FromPrior, Message, MessagingServiceMetadata, PackEncryptedMetadata, PackEncryptedOptions, UnpackMetadata, UnpackOptions};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

// ---------------------------------------------------------------- the record of one run

#[derive(Clone, Debug)]
pub struct Violation {
    pub props: Vec<&'static str>,
    pub msg: String,
}

#[derive(Clone)]
pub struct RunOut {
    pub viols: Vec<Violation>,
    pub trace: Vec<String>,
    pub choices: Vec<u64>,
    pub stats: BTreeMap<String, u64>,
    pub cover: BTreeSet<u64>,
    pub order: u64,
    pub time: u64,
    pub polls: u64,
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl RunOut {
    pub fn digest(&self) -> u64 {
        let mut h = self.order ^ self.time.rotate_left(17) ^ self.polls.rotate_left(41);
        for t in &self.trace {
            h = h.rotate_left(5) ^ fnv(t);
        }
        for (k, v) in &self.stats {
            h = h.rotate_left(5) ^ fnv(k) ^ v;
        }
        h ^ self.choices.len() as u64
    }
}

/// Everything of one run that is not a task.
pub struct Book {
    pub ch: Choices,
    pub trace: Vec<String>,
    pub stats: BTreeMap<String, u64>,
    pub cover: BTreeSet<u64>,
    pub viols: Vec<Violation>,
}

impl Book {
    pub fn new(ch: Choices) -> Book {
        Book { ch, trace: vec![], stats: BTreeMap::new(), cover: BTreeSet::new(), viols: vec![] }
    }
    pub fn stat(&mut self, k: &str) {
        *self.stats.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn log(&mut self, s: String) {
        self.trace.push(format!("[{:>9}us] {}", sim_now(), s));
    }
    pub fn violation(&mut self, p: &'static str, msg: String) {
        if self.viols.len() < 12 {
            self.log(format!("!! VIOLATION [{}] {}", p, msg));
            self.viols.push(Violation { props: vec![p], msg });
        }
    }
}

// ---------------------------------------------------------------- deployment

pub struct Deploy {
    pub rng: Prng,
    pub docs: BTreeMap<String, DocModel>,
    /// What the host's wallet holds, and what exists.
    pub keys: BTreeMap<String, (Key, Fmt)>,
    pub vault: BTreeMap<String, (Key, Fmt)>,
    pub persons: Vec<String>,
    pub mediators: Vec<String>,
    /// Messages made earlier, to be unpacked.
    pub mail: Vec<String>,
    pub notices: Vec<String>,
    pub next: u64,
}

fn fmt(ch: &mut Choices) -> Fmt {
    match ch.draw(3) {
        0 => Fmt::Jwk,
        1 => Fmt::B58,
        _ => Fmt::Mb,
    }
}

impl Deploy {
    pub fn new(ch: &mut Choices, seed: u64) -> Deploy {
        let mut d = Deploy { rng: Prng::new(seed ^ 0xBEEF), docs: BTreeMap::new(), keys: BTreeMap::new(), vault: BTreeMap::new(), persons: vec![], mediators: vec![], mail: vec![], notices: vec![], next: 0 };
        let nonce = format!("{:08x}", d.rng.next_u64() as u32);
        let meds = ch.range(1, 3);
        for i in 0..meds {
            let did = format!("did:sim:{}:med{}", nonce, i);
            d.member(ch, did.clone(), &[]);
            d.mediators.push(did);
        }
        let names = ["alice", "bob", "carol"];
        let n = ch.range(2, 3);
        for name in names.iter().take(n as usize) {
            let did = format!("did:sim:{}:{}", nonce, name);
            let m = d.mediators.clone();
            d.member(ch, did.clone(), &m);
            d.persons.push(did);
        }
        d
    }
    fn member(&mut self, ch: &mut Choices, did: String, mediators: &[String]) {
        let mut doc = DocModel { did: did.clone(), ..DocModel::default() };
        let mut n = 0;
        let mut add = |d: &mut Deploy, doc: &mut DocModel, ch: &mut Choices, alg: Alg, ka: bool| {
            n += 1;
            let kid = format!("{}#key-{}", did, n);
            let k = Key::gen(&mut d.rng, &kid, alg);
            let f = fmt(ch);
            let f = k.fmt(f);
            doc.vms.push(VmModel { kid: kid.clone(), mat: Mat::Good(k.clone(), f) });
            if ka {
                doc.ka.push(kid.clone())
            } else {
                doc.auth.push(kid.clone())
            }
            let f = fmt(ch);
            if !ch.chance(1, 6) {
                d.keys.insert(kid.clone(), (k.clone(), k.fmt(f)));
            }
            d.vault.insert(kid, (k.clone(), k.fmt(f)));
        };
        for _ in 0..ch.range(1, 3) {
            let a = if ch.chance(1, 4) { Alg::P256 } else { Alg::X25519 };
            add(self, &mut doc, ch, a, true);
        }
        for _ in 0..ch.range(1, 2) {
            let a = [Alg::Ed25519, Alg::P256, Alg::K256][ch.draw(3) as usize];
            add(self, &mut doc, ch, a, false);
        }
        if !mediators.is_empty() && ch.chance(1, 2) {
            if ch.chance(1, 4) {
                doc.services.push(SvcModel { id: format!("{}#other", did), kind: Svc::Other(json!({"a": [1, "b"]})) });
            }
            let hops = ch.draw(3);
            let mut routing = vec![];
            for _ in 0..hops {
                let m = &mediators[ch.draw(mediators.len() as u64) as usize];
                let doc = &self.docs[m];
                routing.push(if ch.chance(1, 3) { m.clone() } else { doc.ka[ch.draw(doc.ka.len() as u64) as usize].clone() });
            }
            let accept = match ch.draw(4) {
                0 => None,
                2 => Some(vec!["didcomm/v2.1".to_string(), String::new(), "didcomm/v2".to_string()]),
                1 => Some(vec!["didcomm/v2".to_string()]),
                _ => Some(vec!["didcomm/aip2;env=rfc19".to_string(), "didcomm/v2".to_string()]),
            };
            doc.services.push(SvcModel { id: format!("{}#s1", did), kind: Svc::Didcomm { uri: "https://agent.example/in".into(), accept, routing } });
        }
        self.docs.insert(did, doc);
    }
    pub fn marker(&mut self) -> String {
        self.next += 1;
        format!("zq{}m{}e", self.rng.next_u64() as u32, self.next)
    }
}

// ---------------------------------------------------------------- what the host answers

#[derive(Clone, Debug)]
pub enum Answer {
    Doc(Option<DocModel>),
    Secret(Option<(Key, Fmt)>),
    Found(Vec<String>),
    Err(ErrorKind, String),
    /// The host throws the callback away.
    Dropped,
}

pub const KINDS: [ErrorKind; 9] = [
    ErrorKind::IoError,
    ErrorKind::InvalidState,
    ErrorKind::DIDNotResolved,
    ErrorKind::DIDUrlNotFound,
    ErrorKind::SecretNotFound,
    ErrorKind::Malformed,
    ErrorKind::NoCompatibleCrypto,
    ErrorKind::Unsupported,
    ErrorKind::IllegalArgument,
];

/// The answers of one operation, the same however often and in whatever order they are asked for.
pub struct Script {
    pub answers: BTreeMap<String, Answer>,
    /// Faults still to be placed.
    pub faults: u32,
    pub placed: Vec<String>,
    pub drops: bool,
    /// The wallet of this script holds every secret there is.
    pub all: bool,
}

pub struct Sim {
    pub book: Book,
    pub deploy: Deploy,
}
pub type Shared = Arc<Mutex<Sim>>;

impl Script {
    pub fn omniscient() -> Script {
        Script { all: true, ..Script::new(0, false) }
    }
    pub fn new(faults: u32, drops: bool) -> Script {
        Script { answers: BTreeMap::new(), faults, placed: vec![], drops, all: false }
    }
}

pub fn key_resolve(did: &str) -> String {
    format!("resolve {}", did)
}
pub fn key_get(kid: &str) -> String {
    format!("get {}", kid)
}
pub fn key_find(kids: &[String]) -> String {
    format!("find {}", kids.join(" "))
}

fn truth(d: &Deploy, key: &str, all: bool) -> Answer {
    let held = if all { &d.vault } else { &d.keys };
    let (what, rest) = key.split_once(' ').unwrap();
    match what {
        "resolve" => Answer::Doc(d.docs.get(rest).cloned()),
        "get" => Answer::Secret(held.get(rest).cloned()),
        _ => Answer::Found(rest.split(' ').filter(|k| held.contains_key(*k)).map(|k| k.to_string()).collect()),
    }
}

/// The answer to a request of an operation; decided the first time it is asked.
pub fn answer(sim: &mut Sim, s: &mut Script, key: &str) -> Answer {
    if let Some(a) = s.answers.get(key) {
        return a.clone();
    }
    let ch = &mut sim.book.ch;
    let mut a = truth(&sim.deploy, key, s.all);
    if s.faults > 0 && ch.chance(1, 2) {
        s.faults -= 1;
        let name = match ch.draw(if s.drops { 10 } else { 8 }) {
            0..=4 => {
                let k = KINDS[ch.draw(9) as usize];
                let text = if ch.chance(1, 4) { String::new() } else { format!("host: {:?}", k) };
                a = Answer::Err(k, text);
                format!("error {:?}", k)
            }
            5 => {
                match &mut a {
                    Answer::Doc(d) => *d = None,
                    Answer::Secret(s) => *s = None,
                    Answer::Found(f) => f.clear(),
                    _ => {}
                }
                "absent".to_string()
            }
            6 | 7 => {
                // another state of the world than the one other operations see
                let n = ch.draw(4);
                match &mut a {
                    Answer::Doc(Some(d)) => match n {
                        0 => d.services.clear(),
                        1 => {
                            d.ka.pop();
                        }
                        2 => {
                            d.auth.pop();
                        }
                        _ => {
                            d.vms.remove(0);
                        }
                    },
                    Answer::Found(f) if !f.is_empty() => {
                        f.remove(n as usize % f.len());
                    }
                    _ => {}
                }
                "another answer than usual".to_string()
            }
            _ => {
                a = Answer::Dropped;
                "callback dropped".to_string()
            }
        };
        sim.book.stat(&format!("fault.{}", name));
        s.placed.push(format!("{}: {}", key, name));
    }
    s.answers.insert(key.to_string(), a.clone());
    a
}

// ---------------------------------------------------------------- native operations

pub struct NativeHost {
    pub sim: Shared,
    pub script: Arc<Mutex<Script>>,
}

impl NativeHost {
    fn ask(&self, key: &str) -> Answer {
        answer(&mut self.sim.lock().unwrap(), &mut self.script.lock().unwrap(), key)
    }
}

fn failed<T>(a: Answer) -> Result<T> {
    match a {
        Answer::Err(k, m) => Err(err_msg(k, m)),
        Answer::Dropped => Err(err_msg(ErrorKind::InvalidState, "no answer")),
        _ => panic!("wrong kind of answer"),
    }
}

#[cfg_attr(feature = "ffi", async_trait)]
#[cfg_attr(not(feature = "ffi"), async_trait(?Send))]
impl DIDResolver for NativeHost {
    async fn resolve(&self, did: &str) -> Result<Option<DIDDoc>> {
        match self.ask(&key_resolve(did)) {
            Answer::Doc(d) => Ok(d.map(|d| d.to_lib())),
            a => failed(a),
        }
    }
}

#[cfg_attr(feature = "ffi", async_trait)]
#[cfg_attr(not(feature = "ffi"), async_trait(?Send))]
impl SecretsResolver for NativeHost {
    async fn get_secret(&self, secret_id: &str) -> Result<Option<Secret>> {
        match self.ask(&key_get(secret_id)) {
            Answer::Secret(s) => Ok(s.map(|(k, f)| k.secret(f))),
            a => failed(a),
        }
    }
    async fn find_secrets<'a>(&self, secret_ids: &'a [&'a str]) -> Result<Vec<&'a str>> {
        let ids: Vec<String> = secret_ids.iter().map(|s| s.to_string()).collect();
        match self.ask(&key_find(&ids)) {
            Answer::Found(f) => Ok(secret_ids.iter().copied().filter(|s| f.iter().any(|x| x == s)).collect()),
            a => failed(a),
        }
    }
}

struct Nop;
impl Wake for Nop {
    fn wake(self: Arc<Self>) {}
}

/// A future whose host answers at once.
pub fn now<T>(f: impl Future<Output = T>) -> Option<T> {
    let mut f: Pin<Box<dyn Future<Output = T> + '_>> = Box::pin(f);
    let w = Waker::from(Arc::new(Nop));
    for _ in 0..64 {
        match lib_sync(|| f.as_mut().poll(&mut Context::from_waker(&w))) {
            Ok(Poll::Ready(v)) => return Some(v),
            Ok(Poll::Pending) => {}
            Err(_) => return None,
        }
    }
    None
}

#[derive(Clone, Debug)]
pub enum Call {
    PackPlain { msg: Message },
    PackSigned { msg: Message, by: String },
    PackEnc { msg: Message, to: String, from: Option<String>, by: Option<String>, opts: PackEncryptedOptions },
    Unpack { text: String, opts: UnpackOptions },
    PackPrior { fp: FromPrior, kid: Option<String> },
    UnpackPrior { jwt: String },
    Wrap { text: String, headers: HashMap<String, Value>, to: String, routing: Vec<String>, alg: AnonCryptAlg },
}

/// What an operation ended with.
#[derive(Clone, Debug)]
pub enum End {
    /// Packed text, and the metadata reported with it.
    Text(String, Value),
    /// Content and metadata.
    Read(Value, Value),
    Err(ErrorKind),
}

pub fn anon_name(a: &AnonCryptAlg) -> &'static str {
    match a {
        AnonCryptAlg::A256cbcHs512EcdhEsA256kw => "A256CBC-HS512",
        AnonCryptAlg::Xc20pEcdhEsA256kw => "XC20P",
        AnonCryptAlg::A256gcmEcdhEsA256kw => "A256GCM",
    }
}
fn auth_name(a: &AuthCryptAlg) -> &'static str {
    match a {
        AuthCryptAlg::A256cbcHs512Ecdh1puA256kw => "A256CBC-HS512",
    }
}
fn sign_name(a: &SignAlg) -> &'static str {
    match a {
        SignAlg::EdDSA => "EdDSA",
        SignAlg::ES256 => "ES256",
        SignAlg::ES256K => "ES256K",
    }
}

pub fn service_value(m: &MessagingServiceMetadata) -> Value {
    json!({"id": m.id, "service_endpoint": m.service_endpoint})
}
pub fn enc_meta(m: &PackEncryptedMetadata) -> Value {
    json!({"messaging_service": m.messaging_service.as_ref().map(service_value), "from_kid": m.from_kid, "sign_by_kid": m.sign_by_kid, "to_kids": m.to_kids})
}
pub fn unpack_meta(m: &UnpackMetadata) -> Value {
    json!({
        "encrypted": m.encrypted, "authenticated": m.authenticated, "non_repudiation": m.non_repudiation, "anonymous_sender": m.anonymous_sender,
        "re_wrapped_in_forward": m.re_wrapped_in_forward, "encrypted_from_kid": m.encrypted_from_kid, "encrypted_to_kids": m.encrypted_to_kids,
        "sign_from": m.sign_from, "from_prior_issuer_kid": m.from_prior_issuer_kid,
        "enc_alg_auth": m.enc_alg_auth.as_ref().map(auth_name), "enc_alg_anon": m.enc_alg_anon.as_ref().map(anon_name), "sign_alg": m.sign_alg.as_ref().map(sign_name),
        "signed_message": m.signed_message, "from_prior": m.from_prior.as_ref().map(from_prior_value),
    })
}

pub async fn native(c: &Call, h: &NativeHost) -> Result<End> {
    Ok(match c {
        Call::PackPlain { msg } => End::Text(msg.pack_plaintext(h).await?, Value::Null),
        Call::PackSigned { msg, by } => {
            let (t, m) = msg.pack_signed(by, h, h).await?;
            End::Text(t, json!({"sign_by_kid": m.sign_by_kid}))
        }
        Call::PackEnc { msg, to, from, by, opts } => {
            let (t, m) = msg.pack_encrypted(to, from.as_deref(), by.as_deref(), h, h, opts).await?;
            End::Text(t, enc_meta(&m))
        }
        Call::Unpack { text, opts } => {
            let (m, meta) = Message::unpack(text, h, h, opts).await?;
            End::Read(msg_value(&m), unpack_meta(&meta))
        }
        Call::PackPrior { fp, kid } => {
            let (t, k) = fp.pack(kid.as_deref(), h, h).await?;
            End::Text(t, json!({ "kid": k }))
        }
        Call::UnpackPrior { jwt } => {
            let (f, k) = FromPrior::unpack(jwt, h).await?;
            End::Read(from_prior_value(&f), json!({ "kid": k }))
        }
        Call::Wrap { text, headers, to, routing, alg } => End::Text(wrap_in_forward(text, Some(headers), to, routing, alg, h).await?, Value::Null),
    })
}

/// The outcome the native operation has (`None`: it panics).
pub fn native_end(sim: &Shared, script: &Arc<Mutex<Script>>, c: &Call) -> Option<End> {
    let h = NativeHost { sim: sim.clone(), script: script.clone() };
    now(native(c, &h)).map(|r| match r {
        Ok(e) => e,
        Err(e) => End::Err(e.kind()),
    })
}

// ---------------------------------------------------------------- comparing outcomes

/// A packed message without what is random in it: layers, structure, and decoded content.
pub fn decode(sim: &Shared, text: &str, notice: bool) -> Value {
    let h = NativeHost { sim: sim.clone(), script: Arc::new(Mutex::new(Script::omniscient())) };
    if notice {
        return match now(FromPrior::unpack(text, &h)) {
            Some(Ok((f, k))) => json!({"content": from_prior_value(&f), "kid": k, "parts": text.split('.').count()}),
            _ => json!({"unreadable": text.split('.').take(2).collect::<Vec<_>>()}),
        };
    }
    let mut layers = vec![];
    let mut cur = text.to_string();
    for _ in 0..8 {
        let shape = shape(&cur);
        let opts = UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: false };
        match now(Message::unpack(&cur, &h, &h, &opts)) {
            Some(Ok((m, meta))) => {
                let mut v = msg_value(&m);
                let mut meta = unpack_meta(&meta);
                // random: the identifier of a forward; compared as values: the signed text
                let fwd = m.type_ == "https://didcomm.org/routing/2.0/forward" && meta["anonymous_sender"] == json!(true);
                if meta["signed_message"].is_string() {
                    meta["signed_message"] = json!("present");
                }
                let next = if fwd { v.pointer_mut("/attachments/0/data/json").map(|x| x.take()).unwrap_or(Value::Null) } else { Value::Null };
                if fwd {
                    v["id"] = json!("*");
                }
                layers.push(json!({"shape": shape, "content": v, "meta": meta}));
                if next.is_null() {
                    return Value::Array(layers);
                }
                cur = next.to_string();
            }
            _ => {
                layers.push(json!({ "shape": shape }));
                return Value::Array(layers);
            }
        }
    }
    Value::Array(layers)
}

fn shape(text: &str) -> Value {
    let mut v: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(_) => return json!(text),
    };
    let open = |v: &Value| v.as_str().and_then(unb64).and_then(|b| serde_json::from_slice::<Value>(&b).ok());
    if let Some(p) = open(&v["protected"]) {
        let mut p = p;
        if !p["epk"].is_null() {
            p["epk"] = json!({"kty": p["epk"]["kty"], "crv": p["epk"]["crv"]});
        }
        // order of custom members of a plaintext is free, so lengths are compared only
        let len = |x: &Value| json!(x.as_str().map(|s| s.len()));
        let rec: Vec<Value> = v["recipients"].as_array().map(|a| a.iter().map(|r| r["header"].clone()).collect()).unwrap_or_default();
        return json!({"protected": p, "recipients": rec, "ciphertext": len(&v["ciphertext"]), "iv": len(&v["iv"]), "tag": len(&v["tag"])});
    }
    if v["signatures"].is_array() {
        let s: Vec<Value> = v["signatures"].as_array().unwrap().iter().map(|s| json!({"protected": open(&s["protected"]), "header": s["header"]})).collect();
        let p = open(&v["payload"]);
        return json!({"payload": p, "signatures": s});
    }
    v.take()
}

pub fn same(sim: &Shared, want: &End, got: &End, notice: bool) -> std::result::Result<(), String> {
    match (want, got) {
        (End::Err(a), End::Err(b)) if a == b => Ok(()),
        (End::Text(t, m), End::Text(u, n)) => {
            if m != n {
                return Err(format!("metadata differs: native {} binding {}", m, n));
            }
            let (a, b) = (decode(sim, t, notice), decode(sim, u, notice));
            if a != b {
                return Err(format!("packed message differs: {}", diff(&a, &b)));
            }
            Ok(())
        }
        (End::Read(c, m), End::Read(d, n)) => {
            if c != d {
                return Err(format!("content differs: {}", diff(c, d)));
            }
            if m != n {
                return Err(format!("metadata differs: {}", diff(m, n)));
            }
            Ok(())
        }
        _ => Err(format!("outcome differs: native {} binding {}", brief(want), brief(got))),
    }
}

pub fn brief(e: &End) -> String {
    match e {
        End::Text(t, m) => format!("packed {} bytes, {}", t.len(), short(&m.to_string())),
        End::Read(c, _) => format!("read {}", short(&c.to_string())),
        End::Err(k) => format!("error {:?}", k),
    }
}

pub fn short(s: &str) -> String {
    if s.len() <= 160 {
        return s.to_string();
    }
    let mut i = 160;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}…({} bytes)", &s[..i], s.len())
}

pub fn diff(a: &Value, b: &Value) -> String {
    fn go(a: &Value, b: &Value, path: String, out: &mut Vec<String>) {
        if a == b || out.len() > 3 {
            return;
        }
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for k in x.keys().chain(y.keys().filter(|k| !x.contains_key(*k))) {
                    go(x.get(k).unwrap_or(&json!("<absent>")), y.get(k).unwrap_or(&json!("<absent>")), format!("{}/{}", path, k), out);
                }
            }
            (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    go(p, q, format!("{}/{}", path, i), out);
                }
            }
            _ => out.push(format!("{}: native {} binding {}", path, short(&a.to_string()), short(&b.to_string()))),
        }
    }
    let mut out = vec![];
    go(a, b, String::new(), &mut out);
    out.join("; ")
}

// ---------------------------------------------------------------- generated operations

fn one<'a>(ch: &mut Choices, l: &'a [String]) -> &'a String {
    &l[ch.draw(l.len() as u64) as usize]
}

fn gen_headers(ch: &mut Choices) -> HashMap<String, Value> {
    let mut h = HashMap::new();
    for i in 0..ch.draw(3) {
        let v = Gen { ch, marker: String::new() }.value(1);
        h.insert(format!("fwd-header-{}", i), v);
    }
    h
}

fn alg(ch: &mut Choices) -> AnonCryptAlg {
    match ch.draw(3) {
        0 => AnonCryptAlg::Xc20pEcdhEsA256kw,
        1 => AnonCryptAlg::A256cbcHs512EcdhEsA256kw,
        _ => AnonCryptAlg::A256gcmEcdhEsA256kw,
    }
}

fn gen_message(sim: &mut Sim, from: Option<String>, to: Option<Vec<String>>) -> Message {
    let marker = sim.deploy.marker();
    let prior = if sim.book.ch.chance(1, 6) && !sim.deploy.notices.is_empty() { Some(one(&mut sim.book.ch, &sim.deploy.notices).clone()) } else { None };
    Gen { ch: &mut sim.book.ch, marker: marker.clone() }.message(format!("id-{}", marker), from, to, prior).0
}

fn notice(sim: &mut Sim) -> (FromPrior, Option<String>) {
    let d = &sim.deploy;
    let ch = &mut sim.book.ch;
    let iss = one(ch, &d.persons).clone();
    let sub = one(ch, &d.persons).clone();
    let mut b = FromPrior::build(iss.clone(), sub);
    if ch.chance(1, 2) {
        b = b.iat(ch.draw(1 << 33));
    }
    if ch.chance(1, 3) {
        b = b.exp(ch.draw(1 << 33));
    }
    if ch.chance(1, 3) {
        b = b.nbf(u64::MAX - ch.draw(2));
    }
    if ch.chance(1, 3) {
        b = b.aud("aud \u{2603}".into());
    }
    if ch.chance(1, 3) {
        b = b.jti("".into());
    }
    let kid = if ch.chance(1, 2) { Some(one(ch, &d.docs[&iss].auth).clone()) } else { None };
    (b.finalize(), kid)
}

pub fn gen_call(sim: &mut Sim) -> Call {
    match sim.book.ch.weighted(&[6, 7, 2, 2, 2, 2, 2]) {
        0 => {
            let (mut to, mut from, did_to, did_from);
            {
                let ch = &mut sim.book.ch;
                did_from = one(ch, &sim.deploy.persons).clone();
                did_to = one(ch, &sim.deploy.persons).clone();
                to = did_to.clone();
                from = if ch.chance(2, 3) { Some(did_from.clone()) } else { None };
                if ch.chance(1, 4) {
                    to = one(ch, &sim.deploy.docs[&did_to].ka).clone();
                }
                if from.is_some() && ch.chance(1, 4) {
                    from = Some(one(ch, &sim.deploy.docs[&did_from].ka).clone());
                }
                if ch.chance(1, 12) {
                    match ch.draw(4) {
                        0 => to = "not-a-did".into(),
                        1 => to = "did:unknown:bob".into(),
                        2 => to = format!("{}#no-such-key", did_to),
                        _ => from = Some(format!("{}#no-such-key", did_from)),
                    }
                }
            }
            let hdr_to = if sim.book.ch.chance(4, 5) { Some(vec![if to.starts_with("did:unknown") { to.clone() } else { did_to }]) } else { None };
            let hdr_from = if from.is_some() || sim.book.ch.chance(1, 3) { Some(did_from.clone()) } else { None };
            let msg = gen_message(sim, hdr_from.clone(), hdr_to);
            let ch = &mut sim.book.ch;
            let by = if hdr_from.is_some() && ch.chance(1, 3) { Some(if ch.chance(1, 2) { did_from.clone() } else { one(ch, &sim.deploy.docs[&did_from].auth).clone() }) } else { None };
            let opts = PackEncryptedOptions {
                protect_sender: ch.chance(1, 3),
                forward: ch.chance(2, 3),
                forward_headers: if ch.chance(1, 2) { Some(gen_headers(ch)) } else { None },
                messaging_service: if ch.chance(1, 8) { Some(format!("{}#s1", to.split('#').next().unwrap())) } else { None },
                enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw,
                enc_alg_anon: alg(ch),
            };
            Call::PackEnc { msg, to, from, by, opts }
        }
        1 => {
            let ch = &mut sim.book.ch;
            let mut text = if sim.deploy.mail.is_empty() { "{}".to_string() } else { one(ch, &sim.deploy.mail).clone() };
            if ch.chance(1, 6) {
                match ch.draw(5) {
                    0 => text = String::new(),
                    1 => text = "[1,2".into(),
                    2 => {
                        let mut n = ch.draw(text.len() as u64 + 1) as usize;
                        while !text.is_char_boundary(n) {
                            n -= 1;
                        }
                        text.truncate(n);
                    }
                    3 => text = text.replace("tag", "gat"),
                    _ => {
                        let n = ch.draw(text.len().max(1) as u64) as usize;
                        if text.is_char_boundary(n) && text.is_char_boundary((n + 1).min(text.len())) && n < text.len() {
                            text.replace_range(n..n + 1, "A");
                        }
                    }
                }
            }
            Call::Unpack { text, opts: UnpackOptions { expect_decrypt_by_all_keys: ch.chance(1, 3), unwrap_re_wrapping_forward: ch.chance(1, 2) } }
        }
        2 => {
            let from = one(&mut sim.book.ch, &sim.deploy.persons).clone();
            let hdr = if sim.book.ch.chance(1, 2) { Some(from) } else { None };
            Call::PackPlain { msg: gen_message(sim, hdr, None) }
        }
        3 => {
            let did = one(&mut sim.book.ch, &sim.deploy.persons).clone();
            let msg = gen_message(sim, Some(did.clone()), None);
            let ch = &mut sim.book.ch;
            let by = match ch.draw(8) {
                0..=3 => did.clone(),
                4 | 5 => one(ch, &sim.deploy.docs[&did].auth).clone(),
                6 => format!("{}#no-such-key", did),
                _ => "not-a-did".into(),
            };
            Call::PackSigned { msg, by }
        }
        4 => {
            let (fp, kid) = notice(sim);
            Call::PackPrior { fp, kid }
        }
        5 => {
            let ch = &mut sim.book.ch;
            let mut jwt = if sim.deploy.notices.is_empty() { "a.b.c".to_string() } else { one(ch, &sim.deploy.notices).clone() };
            if ch.chance(1, 5) {
                jwt.pop();
            }
            Call::UnpackPrior { jwt }
        }
        _ => {
            let ch = &mut sim.book.ch;
            let text = match ch.draw(4) {
                0 if !sim.deploy.mail.is_empty() => one(ch, &sim.deploy.mail).clone(),
                3 => "not json".into(),
                _ => json!({"protected": "x", "n": [1, null]}).to_string(),
            };
            let mut routing = vec![];
            for _ in 0..ch.range(0, 2) {
                let m = one(ch, &sim.deploy.mediators);
                routing.push(if ch.chance(1, 2) { m.clone() } else { one(ch, &sim.deploy.docs[m].ka).clone() });
            }
            let to = one(ch, &sim.deploy.persons).clone();
            Call::Wrap { text, headers: gen_headers(ch), to, routing, alg: alg(ch) }
        }
    }
}

pub fn name(c: &Call) -> &'static str {
    match c {
        Call::PackPlain { .. } => "pack_plaintext",
        Call::PackSigned { .. } => "pack_signed",
        Call::PackEnc { .. } => "pack_encrypted",
        Call::Unpack { .. } => "unpack",
        Call::PackPrior { .. } => "pack_from_prior",
        Call::UnpackPrior { .. } => "unpack_from_prior",
        Call::Wrap { .. } => "wrap_in_forward",
    }
}

pub fn is_notice(c: &Call) -> bool {
    matches!(c, Call::PackPrior { .. })
}

/// Some messages and notices to work with.
pub fn stock(sim: &Shared) {
    let script = || Arc::new(Mutex::new(Script::omniscient()));
    for _ in 0..2 {
        let (fp, kid) = notice(&mut sim.lock().unwrap());
        if let Some(End::Text(t, _)) = native_end(sim, &script(), &Call::PackPrior { fp, kid }) {
            sim.lock().unwrap().deploy.notices.push(t);
        }
    }
    let n = sim.lock().unwrap().book.ch.range(2, 6);
    for _ in 0..n {
        let c = loop {
            let c = gen_call(&mut sim.lock().unwrap());
            match c {
                Call::PackEnc { .. } | Call::PackSigned { .. } | Call::PackPlain { .. } => break c,
                _ => {
                    // the plain case ends this loop
                    let mut s = sim.lock().unwrap();
                    let did = s.deploy.persons[0].clone();
                    let msg = gen_message(&mut s, Some(did.clone()), None);
                    break Call::PackEnc { msg, to: s.deploy.persons[1].clone(), from: Some(did), by: None, opts: PackEncryptedOptions::default() };
                }
            }
        };
        if let Some(End::Text(t, _)) = native_end(sim, &script(), &c) {
            let mut s = sim.lock().unwrap();
            // what the mediators pass on, too
            let mut cur = t;
            drop(s);
            for _ in 0..4 {
                let h = NativeHost { sim: sim.clone(), script: script() };
                let opts = UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: false };
                let next = match now(Message::unpack(&cur, &h, &h, &opts)) {
                    Some(Ok((m, _))) => didcomm::protocols::routing::try_parse_forward(&m).map(|f| f.forwarded_msg.to_string()),
                    _ => None,
                };
                s = sim.lock().unwrap();
                s.deploy.mail.push(cur);
                drop(s);
                match next {
                    Some(n) => cur = n,
                    None => break,
                }
            }
        }
    }
}
