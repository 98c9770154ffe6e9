//! The generated deployment: identities, documents, key histories, services, devices.
use crate::byz::pick;
use crate::choices::Choices;
use crate::exec::{self, delay};
use crate::keys::*;
use crate::world::*;
use askar_crypto::sim::Prng;
use didcomm::did::{VerificationMaterial, VerificationMethodType};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

pub fn config(ch: &mut Choices, focus: &str) -> Config {
    let mut c = Config {
        persons: ch.range(2, 4),
        mediators: ch.range(1, 3),
        actions: ch.range(6, 22),
        fault_pct: [0, 5, 20][ch.draw(3) as usize],
        cancel_pct: [0, 5, 15][ch.draw(3) as usize],
        corrupt_pct: [0, 10, 30][ch.draw(3) as usize],
        dup_pct: [0, 10, 40][ch.draw(3) as usize],
        loss_pct: [0, 10, 30][ch.draw(3) as usize],
        crash_pct: 0,
        latency: [0, 500, 4000][ch.draw(3) as usize],
        wild_keys: ch.chance(1, 3),
        faults_on: true,
        hide: 40,
        sign: 30,
        route: 40,
        rewrap: 25,
        unwrap: 50,
        all_keys: 25,
        subset: 25,
        fmt_jwk: [100, 33, 10][ch.draw(3) as usize],
        twice: 10,
    };
    match focus {
        "C02" => c.corrupt_pct = 50,
        "C12" => c.corrupt_pct = 30,
        "C03" => c.sign = 50,
        "C05" => c.wild_keys = ch.chance(1, 2),
        "C07" => {
            c.hide = 85;
            c.route = 60;
        }
        "C08" => {
            c.route = 90;
            c.mediators = ch.range(1, 3);
        }
        "C09" => {
            c.rewrap = 80;
            c.route = 70;
        }
        "C10" => c.fault_pct = 55,
        "C11" => {
            c.fault_pct = 25;
            c.cancel_pct = 25;
            c.latency = 4000;
        }
        "C14" => {
            c.all_keys = 60;
            c.subset = 50;
            c.corrupt_pct = 20;
        }
        "C16" => c.sign = 85,
        "C17" => c.wild_keys = true,
        "C20" => c.fmt_jwk = 10,
        "C22" => c.twice = 50,
        _ => {}
    }
    c
}

pub fn new_world(mut ch: Choices, seed: u64, focus: &str) -> World {
    let mut rng = Prng::new(seed ^ 0x5eed);
    let nonce = {
        let mut b = [0u8; 4];
        rng.fill(&mut b);
        b.iter().map(|x| format!("{:02x}", x)).collect::<String>()
    };
    let cfg = config(&mut ch, focus);
    World {
        ch,
        rng,
        nonce,
        cfg,
        idents: vec![],
        devs: vec![],
        registry: BTreeMap::new(),
        trace: vec![],
        stats: BTreeMap::new(),
        cover: BTreeSet::new(),
        viols: vec![],
        next_op: 0,
        next_msg: 0,
        ledger: HashSet::new(),
        packets: vec![],
        notices: vec![],
        aead_keys: HashSet::new(),
        aead_nonces: HashSet::new(),
        stream: vec![],
        drawn: HashSet::new(),
        wire_unique: HashSet::new(),
        focus: Some(focus.to_string()),
        lost: vec![],
        deliveries: 0,
        hostile_dev: 0,
        signed: vec![],
        clock_skew: 0,
        partitioned: HashSet::new(),
    }
}

const FRAGS: [&str; 8] = ["key-1", "key-10", "key-2", "k.3", "Key-4", "key_5", "key-11", "k"];

/// Profiles that are not DIDComm v2.
const FOREIGN: [&str; 8] = ["didcomm/aip1", "didcomm/aip2;env=rfc587", "didcomm/v2.1", "didcomm/v22", "DIDComm/v2", " didcomm/v2", "application/didcomm-encrypted+json", ""];

pub fn rand_fmt(w: &mut World) -> Fmt {
    if w.cfg.fmt_jwk >= 100 || w.ch.chance(w.cfg.fmt_jwk, 100) {
        Fmt::Jwk
    } else {
        [Fmt::B58, Fmt::Mb][w.ch.draw(2) as usize]
    }
}

pub fn new_key(w: &mut World, i: usize, alg: Alg) -> (Key, Fmt) {
    w.idents[i].next_key += 1;
    let n = w.idents[i].next_key as usize;
    let frag = if n <= FRAGS.len() { FRAGS[n - 1].to_string() } else { format!("key-{}", n * 7) };
    let mut kid = format!("{}#{}", w.idents[i].did, frag);
    // a name much like the last one
    if w.ch.chance(1, 6) {
        if let Some(last) = w.idents[i].keys.last().map(|k| k.0.kid.clone()) {
            let (d, f) = last.split_at(last.find('#').unwrap() + 1);
            let near: String = match w.ch.draw(7) {
                0 => format!("my-{}", f),
                1 => f.chars().skip(1).collect(),
                2 => format!("{}0", f),
                3 => f.replace('-', "%2D"),
                4 => format!("keys/{}?v={}", f, n),
                _ => f.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
            };
            let near = if near.is_empty() { format!("{}x", f) } else { near };
            let twin = format!("{}{}", d, near);
            if w.idents[i].keys.iter().all(|k| k.0.kid != twin) {
                kid = twin;
            }
        }
    }
    let fmt = rand_fmt(w);
    let mut key = Key::gen(&mut w.rng, &kid, alg);
    // one key under two names
    if w.ch.chance(1, 16) {
        if let Some(old) = w.idents[i].keys.iter().map(|k| k.0.clone()).rev().find(|k| k.alg == alg) {
            key = Key { kid: kid.clone(), ..old };
        }
    }
    w.idents[i].keys.push((key.clone(), fmt));
    (key, fmt)
}

pub fn add_key(w: &mut World, i: usize, alg: Alg, ka: bool, auth: bool) -> Key {
    let (key, fmt) = new_key(w, i, alg);
    let front = w.ch.chance(1, 2);
    let d = &mut w.idents[i].doc;
    d.vms.push(VmModel { kid: key.kid.clone(), mat: Mat::Good(key.clone(), fmt) });
    let put = |l: &mut Vec<String>| {
        if front {
            l.insert(0, key.kid.clone())
        } else {
            l.push(key.kid.clone())
        }
    };
    if ka {
        put(&mut d.ka);
    }
    if auth {
        put(&mut d.auth);
    }
    key
}

/// A key agreement method the library does not support, but another implementation may.
pub fn add_unsupported(w: &mut World, i: usize) {
    match w.ch.draw(3) {
        0 => {
            add_key(w, i, Alg::K256, true, false);
        }
        1 => {
            add_key(w, i, Alg::Ed25519, true, false);
        }
        _ => {
            w.idents[i].next_key += 1;
            let kid = format!("{}#p384-{}", w.idents[i].did, w.idents[i].next_key);
            let mut x = [0u8; 48];
            w.rng.fill(&mut x);
            let mat = Mat::Weird {
                type_: [VerificationMethodType::JsonWebKey2020, VerificationMethodType::Other][w.ch.draw(2) as usize].clone(),
                material: VerificationMaterial::JWK { public_key_jwk: json!({"kty": "EC", "crv": "P-384", "x": b64(x), "y": b64(x)}) },
                looks: None,
            };
            let front = w.ch.chance(1, 2);
            let d = &mut w.idents[i].doc;
            d.vms.push(VmModel { kid: kid.clone(), mat });
            if front {
                d.ka.insert(0, kid)
            } else {
                d.ka.push(kid)
            }
        }
    }
}

fn identity(w: &mut World, did: String, kind: Kind) -> usize {
    let doc = DocModel { did: did.clone(), ..Default::default() };
    w.idents.push(Identity { did, kind, doc, keys: vec![], devices: vec![], changed: 0, next_key: 0 });
    w.idents.len() - 1
}

fn ka_alg(w: &mut World) -> Alg {
    [Alg::X25519, Alg::P256][w.ch.draw(2) as usize]
}
fn auth_alg(w: &mut World) -> Alg {
    [Alg::Ed25519, Alg::P256, Alg::K256][w.ch.draw(3) as usize]
}

fn device(w: &mut World, ident: usize, name: String, full: bool, extra: &[usize]) -> usize {
    let shuffle = w.ch.chance(1, 3);
    let example = w.ch.chance(1, 4);
    let slow = if w.ch.chance(1, 6) { 5 } else { 0 };
    let mut wallet = BTreeMap::new();
    let mut all: Vec<(Key, Fmt)> = w.idents[ident].keys.clone();
    for e in extra {
        all.extend(w.idents[*e].keys.clone());
    }
    for (k, _) in all {
        if full || w.ch.chance(3, 5) {
            let f = rand_fmt(w);
            let s = store_secret(w, &k, f);
            wallet.insert(k.kid.clone(), s);
        }
    }
    w.devs.push(Device {
        ident,
        name,
        view: BTreeMap::new(),
        wallet,
        wallet_epoch: 0,
        epoch: 0,
        example: example && !shuffle,
        shuffle,
        slow,
        compromised: false,
        disk: Disk::default(),
    });
    let d = w.devs.len() - 1;
    w.idents[ident].devices.push(d);
    d
}

pub fn mediators(w: &World) -> Vec<usize> {
    (0..w.idents.len()).filter(|i| w.idents[*i].kind == Kind::Mediator).collect()
}

/// A routing entry: a mediator's DID or one of its keys.
pub fn hop(w: &mut World) -> String {
    let m = mediators(w);
    let i = pick(w, &m).unwrap();
    let mut c = vec![w.idents[i].did.clone()];
    let d = &w.idents[i].doc;
    c.extend(d.ka.iter().filter(|k| d.vm(k).map(|v| matches!(v.looks(), Some(Alg::X25519) | Some(Alg::P256))).unwrap_or(false)).cloned());
    if w.ch.chance(1, 40) {
        return format!("{}#nokey", w.idents[i].did);
    }
    pick(w, &c).unwrap()
}

/// An endpoint that is no DID, however it looks.
fn web(w: &mut World, usual: String) -> String {
    if !w.ch.chance(1, 8) {
        return usual;
    }
    let odd = ["", "wss://relay.example", "didcomm:transport/queue", "urn:uuid:0", "https://did.example/did:sim:x", "https://h.example/a?b=c#d", "mailto:did@example.org", " "];
    pick(w, &odd).unwrap().to_string()
}

pub fn person_services(w: &mut World, i: usize) -> Vec<SvcModel> {
    let did = w.idents[i].did.clone();
    let mut out = vec![];
    let accepted = |w: &mut World| match w.ch.draw(4) {
        0 => None,
        1 => Some(vec!["didcomm/v2".to_string()]),
        2 => Some(vec![]),
        _ => Some(vec![FOREIGN[w.ch.draw(8) as usize].to_string(), "didcomm/v2".to_string()]),
    };
    if !w.ch.chance(w.cfg.route, 100) {
        if w.ch.chance(1, 2) {
            let accept = accepted(w);
            out.push(SvcModel { id: format!("{}#direct", did), kind: Svc::Didcomm { uri: "https://direct.example/".into(), accept, routing: vec![] } });
        }
        return out;
    }
    if w.ch.chance(1, 4) {
        out.push(SvcModel { id: format!("{}#other", did), kind: Svc::Other(json!({"uri": "https://other.example", "routingKeys": ["x"]})) });
    }
    if w.ch.chance(1, 4) {
        let h = hop(w);
        out.push(SvcModel { id: format!("{}#old", did), kind: Svc::Didcomm { uri: "https://old.example/".into(), accept: Some(vec![FOREIGN[w.ch.draw(8) as usize].into()]), routing: vec![h] } });
    }
    let n = if w.ch.chance(1, 20) { w.ch.range(3, 9) } else { w.ch.range(1, 2) };
    for s in 0..n {
        let nh = w.ch.weighted(&[2, 3, 2, 1]);
        let nh = if w.ch.chance(1, 20) { w.ch.range(4, 8) as usize } else { nh };
        let routing: Vec<String> = (0..nh).map(|_| hop(w)).collect();
        let uri = if w.ch.chance(2, 5) {
            let m = mediators(w);
            let i = pick(w, &m).unwrap();
            w.idents[i].did.clone()
        } else if w.ch.chance(1, 40) {
            format!("did:sim:{}:missing", w.nonce)
        } else {
            web(w, format!("https://svc{}.example/in", s))
        };
        let accept = accepted(w);
        out.push(SvcModel { id: format!("{}#svc-{}", did, s), kind: Svc::Didcomm { uri, accept, routing } });
    }
    out
}

pub fn mediator_services(w: &mut World, i: usize) -> Vec<SvcModel> {
    let did = w.idents[i].did.clone();
    let mut out = vec![];
    if w.ch.chance(1, 5) {
        out.push(SvcModel { id: format!("{}#other", did), kind: Svc::Other(json!("x")) });
    }
    match w.ch.draw(14) {
        0..=11 => {
            let routing = if w.ch.chance(1, 4) { vec!["did:sim:ignored#k".to_string()] } else { vec![] };
            out.push(SvcModel { id: format!("{}#m", did), kind: Svc::Didcomm { uri: web(w, format!("https://mediator{}.example/", i)), accept: None, routing } })
        }
        12 => {}
        _ => {
            let m = mediators(w);
            let j = pick(w, &m).unwrap();
            let uri = w.idents[j].did.clone();
            out.push(SvcModel { id: format!("{}#m", did), kind: Svc::Didcomm { uri, accept: None, routing: vec![] } })
        }
    }
    out
}

pub fn setup(w: &mut World) {
    let n = w.nonce.clone();
    let mut sep = ":";
    let n = match w.ch.draw(10) {
        // no part beyond the method's own
        4 | 5 => {
            sep = "-";
            format!("did:example:{}", n)
        }
        6 => format!("did:web:{}.example.org%3A8443:u_", n),
        7 => {
            sep = "";
            format!("did:peer:2.Ez6LSbysY2xFMRpGMhb7tFTLMpeuPRaqaWM1yECx2AtzE3KCc.Vz6MkqRYqQiSgvZQdnBytw86Qbs2ZWUkGv22od935YF4s8M7V.SeyJ0IjoiZG0ifQ{}", n)
        }
        8 => format!("did:sim:{}:{}", n, "long-name.".repeat(30)),
        _ => format!("did:sim:{}", n),
    };
    let names = [format!("{}{}alice", n, sep), format!("{}{}alice2", n, sep), format!("{}.b{}bob", n, sep), format!("{}{}al", n, sep)];
    for p in 0..w.cfg.persons as usize {
        let i = identity(w, names[p].clone(), Kind::Person);
        let mut nka = w.ch.weighted(&[3, 4, 2, 1]) + 1;
        let many = matches!(w.focus.as_deref(), Some("C05") | Some("C14") | Some("C15"));
        if w.ch.chance(1, if many { 6 } else { 24 }) {
            nka = w.ch.range(5, 20) as usize;
        }
        let same = w.ch.chance(1, 3);
        let first = ka_alg(w);
        for j in 0..nka {
            let a = if same || j == 0 { first } else { ka_alg(w) };
            add_key(w, i, a, true, false);
        }
        let mut na = w.ch.weighted(&[3, 2, 1]) + 1;
        if w.ch.chance(1, 24) {
            na = w.ch.range(5, 12) as usize;
        }
        for _ in 0..na {
            let a = auth_alg(w);
            add_key(w, i, a, false, true);
        }
        if w.ch.chance(1, 10) {
            add_key(w, i, Alg::P256, true, true);
        }
        if w.cfg.wild_keys {
            for _ in 0..w.ch.range(0, 2) {
                add_unsupported(w, i);
            }
        }
        // a DID used earlier by the same person
        let prior = if w.ch.chance(1, 2) {
            let did = format!("{}{}old{}", n, sep, p);
            let k = identity(w, did, Kind::Person);
            let n = if w.ch.chance(1, 12) { w.ch.range(5, 12) } else { w.ch.range(1, 2) };
            for _ in 0..n {
                let a = auth_alg(w);
                add_key(w, k, a, false, true);
            }
            let a = ka_alg(w);
            add_key(w, k, a, true, false);
            vec![k]
        } else {
            vec![]
        };
        let nd = w.ch.range(1, 2);
        for d in 0..nd {
            let full = !w.ch.chance(w.cfg.subset, 100);
            device(w, i, format!("p{}.{}", p, d), full, &prior);
        }
    }
    for m in 0..w.cfg.mediators as usize {
        let did = format!("{}{}med{}", n, sep, m);
        let i = identity(w, did, Kind::Mediator);
        for _ in 0..w.ch.range(1, 3) {
            let a = ka_alg(w);
            add_key(w, i, a, true, false);
        }
        if w.cfg.wild_keys && w.ch.chance(1, 3) {
            add_unsupported(w, i);
        }
        device(w, i, format!("m{}", m), true, &[]);
    }
    let did = format!("{}{}mallory", n, sep);
    let i = identity(w, did, Kind::Mallory);
    for a in [Alg::X25519, Alg::P256] {
        add_key(w, i, a, true, false);
    }
    for a in [Alg::Ed25519, Alg::P256, Alg::K256] {
        add_key(w, i, a, false, true);
    }
    let d = device(w, i, "mallory".into(), true, &[]);
    w.devs[d].compromised = true;
    w.devs[d].example = false;
    // a device whose stores were filled by an enemy
    w.hostile_dev = device(w, i, "victim".into(), false, &[]);
    let h = w.hostile_dev;
    w.devs[h].example = false;
    w.devs[h].shuffle = false;
    w.idents[i].devices.retain(|d| *d != h);
    for i in 0..w.idents.len() {
        let s = match w.idents[i].kind {
            Kind::Person if !w.idents[i].devices.is_empty() => person_services(w, i),
            Kind::Mediator => mediator_services(w, i),
            _ => vec![],
        };
        w.idents[i].doc.services = s;
        let m = Rc::new(w.idents[i].doc.clone());
        w.registry.insert(w.idents[i].did.clone(), vec![m.clone()]);
        for d in 0..w.devs.len() {
            if w.devs[d].ident != i && w.ch.chance(1, 40) {
                continue;
            }
            let s = store_doc(w, &m);
            w.devs[d].view.insert(m.did.clone(), s);
        }
    }
}

/// A new version of an identity's document; devices learn of it one after another.
pub fn publish(wr: &Wr, i: usize) {
    let mut w = wr.borrow_mut();
    w.idents[i].doc.ver += 1;
    w.idents[i].changed += 1;
    let m = Rc::new(w.idents[i].doc.clone());
    let did = m.did.clone();
    w.registry.get_mut(&did).unwrap().push(m.clone());
    let t = format!("{} publishes version {}: ka {:?} auth {:?}", did, m.ver, m.ka, m.auth);
    w.log(t);
    for d in 0..w.devs.len() {
        let slow = if w.partitioned.contains(&d) { 50_000 } else { 0 };
        let at = w.ch.draw(6) * 3_000 + slow;
        let (w2, m2) = (wr.clone(), m.clone());
        exec::spawn(format!("propagate {}", did), async move {
            delay(at).await;
            let mut w = w2.borrow_mut();
            learn(&mut w, d, &m2);
        });
    }
}

pub fn learn(w: &mut World, d: usize, m: &Rc<DocModel>) {
    let newer = w.devs[d].view.get(&m.did).map(|s| s.model.ver < m.ver).unwrap_or(true);
    if newer {
        let s = store_doc(w, m);
        w.devs[d].view.insert(m.did.clone(), s);
    }
}
