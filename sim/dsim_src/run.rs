//! One simulated execution: a deployment, a schedule of application actions, network and faults,
//! then a healing phase in which everything honest has to arrive.
use crate::byz::*;
use crate::choices::Choices;
use crate::exec::{self, delay, Ended, Exec};
use crate::keys::*;
use crate::msgs::*;
use crate::ops::*;
use crate::oracle::*;
use crate::peer::*;
use crate::setup::*;
use crate::world::*;
use didcomm::algorithms::{AnonCryptAlg, AuthCryptAlg, SignAlg};
use didcomm::did::DIDDoc;
use didcomm::error::ErrorKind;
use didcomm::protocols::routing::{try_parse_forward, wrap_in_forward};
use didcomm::secrets::Secret;
use didcomm::{FromPrior, Message, PackEncryptedOptions, UnpackOptions};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct RunOut {
    pub viols: Vec<Violation>,
    pub trace: Vec<String>,
    pub choices: Vec<u64>,
    pub stats: BTreeMap<String, u64>,
    pub cover: BTreeSet<u64>,
    pub order: u64,
    pub time: u64,
    pub polls: u64,
}

impl RunOut {
    /// Digest of everything that happened.
    pub fn digest(&self) -> u64 {
        let mut h = self.order ^ self.time.rotate_left(17) ^ self.polls.rotate_left(41);
        for t in &self.trace {
            h = h.rotate_left(5) ^ fnv(t);
        }
        for (k, v) in &self.stats {
            h = h.rotate_left(5) ^ fnv(k) ^ v;
        }
        h ^ self.choices.len() as u64
    }
}

pub const ACTIONS: [&str; 15] = [
    "exchange", "peer", "byzantine", "rotate", "crash", "wrong-recipient", "garbage", "storage", "bad-arguments", "hostile", "from-prior", "replay", "reformat", "rewrap", "withdraw",
];

fn weights(focus: &str) -> Vec<u64> {
    let mut w = vec![12, 4, 6, 3, 2, 2, 1, 1, 1, 2, 2, 2, 1, 2, 2];
    let mut boost = |l: &[(usize, u64)]| l.iter().for_each(|(i, f)| w[*i] *= f);
    match focus {
        "C01" => boost(&[(0, 3), (11, 3)]),
        "C02" => boost(&[(0, 3), (2, 2)]),
        "C03" => boost(&[(2, 6), (3, 2)]),
        "C04" => boost(&[(0, 2), (5, 8)]),
        "C05" => boost(&[(0, 3), (3, 2)]),
        "C06" => boost(&[(0, 2), (1, 4), (2, 2)]),
        "C07" | "C08" => boost(&[(0, 3), (13, 2)]),
        "C09" => boost(&[(0, 2), (1, 3), (2, 4), (13, 3)]),
        "C10" => boost(&[(0, 2), (1, 2), (10, 2), (13, 2)]),
        "C11" => boost(&[(0, 2), (3, 4), (4, 2), (12, 3), (11, 2), (14, 6)]),
        "C12" => boost(&[(2, 2), (6, 12), (9, 12)]),
        "C13" => boost(&[(10, 12), (3, 2), (2, 2), (14, 4)]),
        "C14" => boost(&[(0, 2), (1, 2), (2, 4)]),
        "C15" => boost(&[(2, 6), (1, 2)]),
        "C16" => boost(&[(0, 2), (3, 2), (11, 2)]),
        "C17" => boost(&[(0, 4), (3, 2)]),
        "C19" => boost(&[(7, 16), (4, 8)]),
        "C20" => boost(&[(0, 2), (12, 8), (1, 2)]),
        "C21" => boost(&[(1, 6), (0, 2)]),
        "C22" => boost(&[(0, 4)]),
        "C23" => boost(&[(8, 30)]),
        _ => {}
    }
    w
}

/// Forgeries that attack a given guarantee.
fn forgeries(focus: &str) -> &'static [u64] {
    match focus {
        "C02" => &[1, 31, 33, 18, 30, 34, 35],
        "C03" => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 18, 20, 21, 22, 33, 34, 34, 37, 37, 38],
        "C06" => &[23, 24, 20, 25],
        "C09" => &[24, 25],
        "C12" => &[29, 32, 19, 17],
        "C13" => &[26, 27, 28],
        "C14" => &[30, 31],
        "C15" => &[10, 11, 12, 13, 14, 15, 16, 17],
        "C16" => &[2, 3, 4, 5, 6, 9, 33, 35, 37],
        _ => &[],
    }
}

// ---------------------------------------------------------------- requests

fn person_dev(w: &mut World) -> Option<(usize, usize)> {
    let c: Vec<(usize, usize)> = w
        .idents
        .iter()
        .enumerate()
        .filter(|(_, i)| i.kind == Kind::Person)
        .flat_map(|(n, i)| i.devices.iter().map(move |d| (n, *d)))
        .collect();
    pick(w, &c)
}

fn other_person(w: &mut World, a: usize) -> usize {
    let mut c: Vec<usize> = (0..w.idents.len()).filter(|i| w.idents[*i].kind == Kind::Person && !w.idents[*i].devices.is_empty() && *i != a).collect();
    if c.is_empty() || w.ch.chance(1, 15) {
        c.push(a);
        return a;
    }
    pick(w, &c).unwrap()
}

fn anon_alg(w: &mut World) -> AnonCryptAlg {
    match w.ch.draw(3) {
        0 => AnonCryptAlg::Xc20pEcdhEsA256kw,
        1 => AnonCryptAlg::A256cbcHs512EcdhEsA256kw,
        _ => AnonCryptAlg::A256gcmEcdhEsA256kw,
    }
}

fn headers(w: &mut World) -> Option<HashMap<String, Value>> {
    if !w.ch.chance(1, 2) {
        return None;
    }
    let mut h = HashMap::new();
    let n = if w.ch.chance(1, 12) { w.ch.range(6, 30) } else { w.ch.draw(3) };
    for i in 0..n {
        let marker = String::new();
        let v = Gen { ch: &mut w.ch, marker }.value(1);
        let n = ["fwd-header-", "fwd-header-", "did", "Type", "", "json", "next ", "~timing", "attachment"][w.ch.draw(9) as usize];
        h.insert(format!("{}{}", n, i), v);
    }
    // headers the specification defines for every message
    if w.ch.chance(1, 3) {
        let t = [0u64, 1_700_000_000, 4_102_444_800, 1 << 53][w.ch.draw(4) as usize];
        match w.ch.draw(4) {
            0 => h.insert("expires_time".into(), json!(t)),
            1 => h.insert("created_time".into(), json!(t)),
            2 => h.insert("thid".into(), json!(format!("thread-{}", t))),
            _ => h.insert("please_ack".into(), json!(["", t.to_string()])),
        };
    }
    Some(h)
}

fn id_or_key(w: &mut World, did: &str, keys: Vec<String>) -> String {
    let mut c = keys;
    if c.is_empty() || w.ch.chance(3, 5) {
        return did.to_string();
    }
    if w.ch.chance(1, 30) {
        c.push(format!("{}#unknown", did));
    }
    if w.ch.chance(1, 30) {
        let k = pick(w, &c).unwrap();
        let n = crate::byz::almost(w, k.split_once('#').map(|k| k.1).unwrap_or("x"));
        return format!("{}#{}", did, n);
    }
    pick(w, &c).unwrap()
}

/// What an application on device `dev` of identity `a` may ask for, to reach `b`.
fn request(w: &mut World, a: usize, dev: usize, b: usize) -> PackReq {
    let (adid, bdid) = (w.idents[a].did.clone(), w.idents[b].did.clone());
    let mode = [Mode::Encrypted, Mode::Encrypted, Mode::Encrypted, Mode::Encrypted, Mode::Encrypted, Mode::Encrypted, Mode::Encrypted, Mode::Signed, Mode::Signed, Mode::Plain][w.ch.draw(10) as usize];
    // what this device believes about the two parties
    let view = dev_view(w, dev);
    let (av, bv) = (view.doc(&adid), view.doc(&bdid));
    let bka = bv.map(|d| d.ka.clone()).unwrap_or_default();
    let (aka, aauth) = av.map(|d| (d.ka.clone(), d.auth.clone())).unwrap_or_default();
    let to = id_or_key(w, &bdid, bka);
    let from = if mode == Mode::Encrypted && !w.ch.chance(w.cfg.hide / 2, 100) { Some(id_or_key(w, &adid, aka)) } else { None };
    let signed = mode == Mode::Signed || (mode == Mode::Encrypted && w.ch.chance(w.cfg.sign, 100));
    let sign_by = if signed { Some(id_or_key(w, &adid, aauth)) } else { None };
    let mfrom = match w.ch.draw(3) {
        0 | 1 => Some(adid.clone()),
        _ => None,
    };
    let mto = match w.ch.draw(4) {
        0 => None,
        1 => Some(vec![bdid.clone()]),
        2 => {
            let mut v: Vec<String> = w.idents.iter().map(|i| i.did.clone()).filter(|d| *d != bdid).take(2).collect();
            let at = w.ch.draw(v.len() as u64 + 1) as usize;
            v.insert(at, bdid.clone());
            Some(v)
        }
        // a long list, some of it much like the recipient
        3 if w.ch.chance(1, 2) => {
            let n = w.ch.range(3, 40);
            let mut v: Vec<String> = vec![];
            for i in 0..n {
                v.push(if w.ch.chance(1, 3) { crate::byz::almost(w, &bdid) } else { format!("did:sim:many:{}", i) });
            }
            let at = w.ch.draw(v.len() as u64 + 1) as usize;
            v.insert(at, bdid.clone());
            Some(v)
        }
        _ => Some(vec![bdid.clone(), bdid.clone()]),
    };
    let mto = if mode == Mode::Encrypted { mto } else { mto.or(Some(vec![])) };
    let fp = if w.ch.chance(if w.focus.as_deref() == Some("C13") { 40 } else { 8 }, 100) {
        let own: Vec<String> = w.notices.iter().filter(|n| n.1["sub"] == json!(adid) || w.focus.as_deref() == Some("C13")).map(|n| n.0.clone()).collect();
        pick(w, &own)
    } else {
        None
    };
    let (lib, exp, marker) = plaintext(w, mfrom, mto, fp);
    let svc: Vec<String> = dev_view(w, dev).doc(&bdid).map(|d| d.services.iter().map(|s| s.id.clone()).collect()).unwrap_or_default();
    let messaging_service = if w.ch.chance(1, 4) {
        if w.ch.chance(1, 10) {
            Some(format!("{}#nosvc", bdid))
        } else {
            pick(w, &svc)
        }
    } else {
        None
    };
    let opts = PackEncryptedOptions {
        protect_sender: w.ch.chance(w.cfg.hide, 100),
        forward: !w.ch.chance(1, 5),
        forward_headers: headers(w),
        messaging_service,
        enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw,
        enc_alg_anon: anon_alg(w),
    };
    PackReq { mode, lib, exp, marker, to, from, sign_by, opts }
}

// ---------------------------------------------------------------- the network

/// Hand a message to the network, addressed to a DID or key ID.
pub fn send(wr: &Wr, text: Rc<String>, prov: Prov, to: String, hops: u32) {
    let mut w = wr.borrow_mut();
    let i = match w.ident_of(split_id(&to).0) {
        Some(i) if !w.idents[i].devices.is_empty() => i,
        _ => return,
    };
    if w.deliveries > 250 || hops > 12 {
        w.stat("net.budget");
        return;
    }
    if w.packets.len() < 60 {
        w.packets.push(((*text).clone(), prov.clone(), i));
    }
    let mut copies = 1;
    let (loss, dup) = (w.cfg.loss_pct, w.cfg.dup_pct);
    if w.cfg.faults_on {
        if w.ch.chance(loss, 100) {
            w.stat("fault.net.loss");
            w.log(format!("lost on the way to {}", to));
            w.lost.push((text.clone(), prov.clone(), to.clone()));
            copies = 0;
        } else if w.ch.chance(dup, 100) {
            w.stat("fault.net.duplicate");
            copies = 1 + w.ch.range(1, 2);
        }
    }
    for _ in 0..copies {
        let all = w.ch.chance(1, 4);
        let devs: Vec<usize> = w.idents[i].devices.clone();
        let devs = if all { devs } else { vec![pick(&mut w, &devs).unwrap()] };
        for d in devs {
            w.deliveries += 1;
            let mut at = 100 + w.ch.draw(8) * 1_500;
            if w.cfg.faults_on && w.ch.chance(1, 12) {
                at += 40_000;
                w.stat("fault.net.delay");
            }
            let (wr2, text, prov, to) = (wr.clone(), text.clone(), prov.clone(), to.clone());
            exec::spawn(format!("deliver to {}", d), async move {
                delay(at).await;
                let mut item = (text, prov);
                {
                    let mut w = wr2.borrow_mut();
                    if w.partitioned.contains(&d) {
                        w.stat("fault.net.partition");
                        w.log(format!("partition drops a message to {}", to));
                        w.lost.push((item.0, item.1, to));
                        return;
                    }
                    let corrupt = w.cfg.corrupt_pct;
                    if w.cfg.faults_on && w.ch.chance(corrupt, 100) {
                        let o = match &item.1 {
                            Prov::Honest(o) | Prov::Peer(o, _) => Some(o.clone()),
                            _ => None,
                        };
                        if let Some(o) = o {
                            // only protected messages resist alteration
                            if o.encrypted || o.sign_kid.is_some() {
                                if let Some((t, p)) = damage(&mut w, &item.0, &o, d) {
                                    w.stat("fault.net.corrupt");
                                    let l = p.label();
                                    w.log(format!("altered on the way to {}: {}", to, l));
                                    w.lost.push((item.0.clone(), item.1.clone(), to.clone()));
                                    item = (Rc::new(t), p);
                                }
                            }
                        }
                    }
                }
                receive(wr2, d, item.0, item.1, to, hops).await;
            });
        }
    }
}

fn ropts(w: &mut World) -> RefOpts {
    RefOpts { all_keys: w.ch.chance(w.cfg.all_keys, 100), unwrap: w.ch.chance(w.cfg.unwrap, 100) }
}

async fn receive(wr: Wr, dev: usize, text: Rc<String>, prov: Prov, to: String, hops: u32) {
    let o = ropts(&mut wr.borrow_mut());
    let spec = Spec::faulty(&wr, dev, "unpack");
    let (mut out, ours) = unpack(&wr, spec, &text, &prov, o).await;
    if ours && matches!(out, Out::Err(..)) || matches!(out, Out::Gone) {
        delay(2_000).await;
        let (out2, _) = unpack(&wr, Spec::calm(dev, "retry unpack"), &text, &prov, o).await;
        out = out2;
    }
    match out {
        Out::Ok(g) => {
            handle(&wr, dev, &g, &prov, hops);
        }
        _ => {
            if prov.must_accept() {
                wr.borrow_mut().lost.push((text, prov, to));
            }
        }
    }
}

/// What an application does with an unpacked message.
fn handle(wr: &Wr, dev: usize, g: &Got, prov: &Prov, hops: u32) {
    let fwd = as_forward(&g.value);
    let parsed = exec::lib_sync(|| try_parse_forward(&g.msg).map(|p| (p.next.clone(), p.forwarded_msg.clone(), p.msg == &g.msg)));
    match parsed {
        Err(p) => wr.borrow_mut().violation(&["C12"], format!("parsing a forward panicked: {}", p)),
        Ok(p) => {
            let want = fwd.clone().map(|(n, v)| (n, v, true));
            if p != want {
                wr.borrow_mut().violation(&["C08", "C09"], format!("forward parsed as {:?} instead of {:?}", p.map(|x| x.0), want.map(|x| x.0)));
            }
        }
    }
    if let Some((next, inner)) = fwd {
        relay(wr, dev, next, inner, prov.clone(), hops + 1);
        return;
    }
    let mut w = wr.borrow_mut();
    if prov.must_accept() {
        let o = prov.origin().unwrap().clone();
        w.stat("delivered");
        if g.value != o.msg {
            let mut p = vec!["C01"];
            if hops > 0 {
                p.push("C08");
            }
            let m = format!("delivered message differs from the one sent ({}): {}", o.desc, diff(&o.msg, &g.value));
            w.violation(&p, m);
        }
        if o.hidden && !o.anon && g.meta.encrypted_from_kid.is_none() {
            w.violation(&["C07"], "recipient does not learn the protected sender".into());
        }
        if o.sign_kid.is_some() {
            match &g.meta.signed_message {
                None => {
                    w.violation(&["C16"], "no signed message is handed out for a signed message".into());
                }
                Some(s) => {
                    let o2 = Rc::new(Origin {
                        msg: o.msg.clone(),
                        marker: o.marker.clone(),
                        from_did: o.from_did.clone(),
                        to_did: o.to_did.clone(),
                        auth: false,
                        hidden: false,
                        anon: false,
                        encrypted: false,
                        sign_kid: o.sign_kid.clone(),
                        from_kid: None,
                        desc: format!("signed part of: {}", o.desc),
                    });
                    let s = Rc::new(s.clone());
                    if w.signed.len() < 30 {
                        w.signed.push((s.clone(), o2.clone()));
                    }
                    if w.ch.chance(1, 2) {
                        third_party(&mut w, wr, s, o2);
                    }
                }
            }
        }
    }
}

/// Somebody who was never addressed verifies a signed envelope.
fn third_party(w: &mut World, wr: &Wr, s: Rc<String>, o: Rc<Origin>) {
    let n = w.devs.len() as u64;
    let d = w.ch.draw(n) as usize;
    if d == w.hostile_dev {
        return;
    }
    let at = w.ch.draw(4) * 5_000;
    let opts = ropts(w);
    let damaged = if w.ch.chance(1, 4) { damage(w, &s, &o, d) } else { None };
    let wr = wr.clone();
    exec::spawn("third party".into(), async move {
        delay(at).await;
        let (t, p) = match damaged {
            Some((t, p)) => (Rc::new(t), p),
            None => (s, Prov::Honest(o)),
        };
        let spec = Spec::faulty(&wr, d, "third-party verification");
        unpack(&wr, spec, &t, &p, opts).await;
    });
}

fn relay(wr: &Wr, dev: usize, next: String, inner: Value, prov: Prov, hops: u32) {
    let (wrap, known) = {
        let mut w = wr.borrow_mut();
        let k = w.ident_of(split_id(&next).0).map(|i| w.idents[i].kind == Kind::Person && !w.idents[i].devices.is_empty()).unwrap_or(false);
        let jwe = inner.get("ciphertext").is_some();
        let rewrap = w.cfg.rewrap;
        (k && jwe && prov.must_accept() && hops < 4 && w.ch.chance(rewrap, 100), k)
    };
    let text = inner.to_string();
    if !wrap {
        if known || hops < 10 {
            send(wr, Rc::new(text), prov, next, hops);
        }
        return;
    }
    let wr = wr.clone();
    exec::spawn("rewrap".into(), async move {
        let mut text = text;
        let n = 1 + wr.borrow_mut().ch.weighted(&[4, 2, 1]);
        for _ in 0..n {
            let r = {
                let mut w = wr.borrow_mut();
                let did = split_id(&next).0.to_string();
                let keys: Vec<String> = dev_view(&w, dev).doc(&did).map(|d| d.ka.clone()).unwrap_or_default();
                // all keys of the recipient, or one of them
                if w.ch.chance(1, 2) {
                    did
                } else {
                    pick(&mut w, &keys).unwrap_or(did)
                }
            };
            let foreign = {
                let mut w = wr.borrow_mut();
                if w.ch.chance(1, 3) {
                    foreign_rewrap(&mut w, &text, &next)
                } else {
                    None
                }
            };
            if let Some(t) = foreign {
                wr.borrow_mut().stat("sent.rewrapped.peer");
                text = t;
                continue;
            }
            let spec = Spec::faulty(&wr, dev, "wrap for recipient");
            match wrap_op(&wr, spec, &text, &next, vec![r]).await {
                Some(t) => text = t,
                None => break,
            }
        }
        send(&wr, Rc::new(text), prov, next, hops);
    });
}

/// `wrap_in_forward` called directly, judged layer by layer.
async fn wrap_op(wr: &Wr, spec: Spec, msg: &str, to: &str, routing: Vec<String>) -> Option<String> {
    let (hs, alg) = {
        let mut w = wr.borrow_mut();
        (headers(&mut w), anon_alg(&mut w))
    };
    let (m, t, r, h, a) = (msg.to_string(), to.to_string(), routing.clone(), hs.clone(), alg.clone());
    let (out, ctx) = run_op(wr, spec, move |dr, _sr| Box::pin(async move { wrap_in_forward(&m, h.as_ref(), &t, &r, &a, &dr).await })).await;
    let mut w = wr.borrow_mut();
    let c = ctx.borrow();
    let view = op_view(&w, &c);
    let mut n = Need::default();
    let hops: Vec<(String, Vec<Key>)> = routing.iter().map(|h| (h.clone(), need_anon(&mut n, &view, h, &["C08"]))).collect();
    let inner: Option<Value> = serde_json::from_str(msg).ok();
    let gray = !n.gray.is_empty() || !clean(&w, &c);
    match out {
        Out::Gone => None,
        Out::Err(k, m) => {
            if c.first_err.is_none() && c.absent.is_none() && !gray && (inner.is_some() || routing.is_empty()) {
                let kinds: Vec<ErrorKind> = n.bad.iter().flat_map(|b| b.kinds.clone().unwrap_or(ALL_KINDS.to_vec())).collect();
                if !kinds.contains(&k) {
                    let m = format!("wrap_in_forward to {} through {:?} failed: {} (expected {:?})", to, routing, m, kinds);
                    w.violation(if kinds.is_empty() { &["C08", "C09"] } else { &["C10", "C08"] }, m);
                }
            }
            let other = n.bad.iter().any(|b| b.kinds.as_ref().map(|x| x.contains(&k)).unwrap_or(true));
            if let (Some(Absent::Did(_)), false) = (&c.absent, k == ErrorKind::DIDNotResolved || other) {
                w.violation(&["C10"], format!("wrap_in_forward: DID absent, but failed with {:?}", k));
            }
            None
        }
        Out::Ok(text) => {
            if c.absent.is_some() || gray {
                return Some(text);
            }
            if let Some(b) = n.bad.first() {
                let (p, m) = (b.props.clone(), format!("wrap_in_forward succeeded although {}", b.why));
                w.violation(&p, m);
                return Some(text);
            }
            let mut ins = new_inspection();
            ins.visible.push(text.clone());
            let v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
            let got = onion(&mut ins, v, &hops, hs.as_ref(), to, anon_name(&alg));
            if ins.found.is_empty() && got != inner && !routing.is_empty() {
                ins.found.push((vec!["C08", "C09"], "wrapped message is not the one given".into()));
            }
            if routing.is_empty() && text != msg {
                ins.found.push((vec!["C08"], "without routing keys the message was changed".into()));
            }
            for f in &ins.fresh {
                if !w.wire_unique.insert((f.0, f.1.clone())) {
                    ins.found.push((vec!["C22"], format!("{} {} is used a second time", f.0, f.1)));
                }
            }
            for (mut p, m) in ins.found {
                p.push("C09");
                w.violation(&p, format!("wrap_in_forward: {}", m));
            }
            Some(text)
        }
    }
}

// ---------------------------------------------------------------- actions

async fn exchange(wr: Wr) {
    let (req, dev, twice) = {
        let mut w = wr.borrow_mut();
        let (a, dev) = match person_dev(&mut w) {
            Some(x) => x,
            None => return,
        };
        let b = other_person(&mut w, a);
        let r = request(&mut w, a, dev, b);
        let twice = w.cfg.twice;
        let twice = w.ch.chance(twice, 100);
        (Rc::new(r), dev, twice)
    };
    if twice {
        // the same message packed again, at the same time
        let (wr2, r2) = (wr.clone(), req.clone());
        exec::spawn("exchange again".into(), async move { pack_and_send(wr2, dev, r2).await });
    }
    pack_and_send(wr, dev, req).await;
}

async fn pack_and_send(wr: Wr, dev: usize, req: Rc<PackReq>) {
    let spec = Spec::faulty(&wr, dev, "pack");
    let planned = !matches!(spec.plan, Plan::None) || spec.cancel_at.is_some();
    let (mut out, _) = pack(&wr, spec, &req).await;
    if planned && !matches!(out, Out::Ok(_)) {
        delay(1_000).await;
        let (o2, _) = pack(&wr, Spec::calm(dev, "retry pack"), &req).await;
        out = o2;
    }
    if let Out::Ok(p) = out {
        let mode = match req.mode {
            Mode::Plain => "plain",
            Mode::Signed => "signed",
            _ if req.from.is_none() => "anon",
            _ if req.opts.protect_sender => "protected",
            _ => "auth",
        };
        {
            let mut w = wr.borrow_mut();
            w.stat(&format!("sent.{}", mode));
            let k = format!("sent|{}|{}|{:?}|{}|{}", mode, req.sign_by.is_some(), anon_name(&req.opts.enc_alg_anon), p.hops.len(), req.exp.get("from_prior").is_some());
            w.cover(&k);
        }
        let prov = Prov::Honest(p.origin.clone());
        send(&wr, Rc::new(p.text), prov, p.first, 0);
    }
}

async fn peer_action(wr: Wr) {
    let (t, p, to) = {
        let mut w = wr.borrow_mut();
        let ps = persons(&w);
        let (a, b) = (pick(&mut w, &ps).unwrap(), pick(&mut w, &ps).unwrap());
        let often = matches!(w.focus.as_deref(), Some("C13") | Some("C21"));
        let n = if w.ch.chance(1, if often { 3 } else { 8 }) { any_notice(&mut w, &a) } else { None };
        match peer_message(&mut w, &a, &b, n) {
            Some((t, p)) => (t, p, b),
            None => return,
        }
    };
    send(&wr, Rc::new(t), p, to, 0);
}

async fn byzantine(wr: Wr) {
    let (t, p, to) = {
        let mut w = wr.borrow_mut();
        let ps = persons(&w);
        let (b, v) = (pick(&mut w, &ps).unwrap(), pick(&mut w, &ps).unwrap());
        let f = forgeries(w.focus.as_deref().unwrap_or(""));
        let which = if !f.is_empty() && !w.ch.chance(1, 3) { f[w.ch.draw(f.len() as u64) as usize] } else { w.ch.draw(N_FORGERIES) };
        match forge(&mut w, which, &b, &v) {
            Some((t, p)) => {
                let l = p.label();
                w.stat(&format!("fault.byzantine.{}", l));
                w.log(format!("attacker makes {} for {} as {}", l, b, v));
                (t, p, b)
            }
            None => return,
        }
    };
    send(&wr, Rc::new(t), p, to, 0);
}

fn drop_secret(w: &mut World, i: usize, kid: &str) {
    for d in w.idents[i].devices.clone() {
        w.devs[d].wallet.remove(kid);
        w.devs[d].wallet_epoch += 1;
    }
}
fn give_secret(w: &mut World, i: usize, k: &Key) {
    for d in w.idents[i].devices.clone() {
        if w.ch.chance(1, 6) {
            continue;
        }
        let f = rand_fmt(w);
        let s = store_secret(w, k, f);
        w.devs[d].wallet.insert(k.kid.clone(), s);
        w.devs[d].wallet_epoch += 1;
    }
}

/// A prior identity's keys live on the devices of the person it became.
fn holders(w: &World, i: usize) -> usize {
    if !w.idents[i].devices.is_empty() {
        return i;
    }
    let n = w.idents[i].did.chars().last().unwrap_or('0').to_digit(10).unwrap_or(0);
    (0..w.idents.len()).find(|j| w.idents[*j].devices.first().map(|d| w.devs[*d].name.starts_with(&format!("p{}.", n))).unwrap_or(false)).unwrap_or(i)
}

async fn rotate(wr: Wr) {
    let i = {
        let mut w = wr.borrow_mut();
        let c: Vec<usize> = (0..w.idents.len()).filter(|i| w.idents[*i].kind != Kind::Mallory).collect();
        let i = pick(&mut w, &c).unwrap();
        let h = holders(&w, i);
        let what = w.ch.draw(9);
        w.stat("rotate");
        match what {
            0 => {
                let a = [Alg::X25519, Alg::P256][w.ch.draw(2) as usize];
                let k = add_key(&mut w, i, a, true, false);
                give_secret(&mut w, h, &k);
            }
            // a key is withdrawn; its method may stay in the document
            1 | 2 => {
                let auth = what == 2;
                let l = if auth { w.idents[i].doc.auth.clone() } else { w.idents[i].doc.ka.clone() };
                if let Some(kid) = pick(&mut w, &l) {
                    if l.len() == 1 || w.ch.chance(1, 2) {
                        let a = if auth { [Alg::Ed25519, Alg::P256, Alg::K256][w.ch.draw(3) as usize] } else { [Alg::X25519, Alg::P256][w.ch.draw(2) as usize] };
                        let k = add_key(&mut w, i, a, !auth, auth);
                        give_secret(&mut w, h, &k);
                    }
                    let d = &mut w.idents[i].doc;
                    if auth {
                        d.auth.retain(|k| *k != kid)
                    } else {
                        d.ka.retain(|k| *k != kid)
                    }
                    if w.ch.chance(1, 2) {
                        w.idents[i].doc.vms.retain(|v| v.kid != kid);
                        w.idents[i].doc.ka.retain(|k| *k != kid);
                        w.idents[i].doc.auth.retain(|k| *k != kid);
                    }
                    if w.ch.chance(1, 3) {
                        drop_secret(&mut w, h, &kid);
                    }
                }
            }
            3 => {
                let a = [Alg::Ed25519, Alg::P256, Alg::K256][w.ch.draw(3) as usize];
                let k = add_key(&mut w, i, a, false, true);
                give_secret(&mut w, h, &k);
            }
            // new material under an old name
            4 => {
                let kids: Vec<String> = w.idents[i].doc.vms.iter().filter(|v| v.key().is_some()).map(|v| v.kid.clone()).collect();
                if let Some(kid) = pick(&mut w, &kids) {
                    let old = w.idents[i].doc.vm(&kid).unwrap().key().unwrap().alg;
                    let alg = match (old, w.ch.chance(1, 3)) {
                        (Alg::X25519, true) => Alg::P256,
                        (Alg::Ed25519, true) => Alg::K256,
                        (a, _) => a,
                    };
                    let k = Key::gen(&mut w.rng, &kid, alg);
                    let f = rand_fmt(&mut w);
                    for v in w.idents[i].doc.vms.iter_mut().filter(|v| v.kid == kid) {
                        v.mat = Mat::Good(k.clone(), f);
                    }
                    w.idents[i].keys.push((k.clone(), f));
                    give_secret(&mut w, h, &k);
                }
            }
            5 => {
                w.idents[i].doc.ka.reverse();
                w.idents[i].doc.auth.reverse();
                w.idents[i].doc.vms.reverse();
            }
            6 => {
                let s = match w.idents[i].kind {
                    Kind::Mediator => mediator_services(&mut w, i),
                    _ => person_services(&mut w, i),
                };
                w.idents[i].doc.services = s;
            }
            7 => add_unsupported(&mut w, i),
            // a key moves from one purpose to another
            _ => {
                let l = w.idents[i].doc.auth.clone();
                if let Some(kid) = pick(&mut w, &l) {
                    let p256 = w.idents[i].doc.vm(&kid).and_then(|v| v.key()).map(|k| k.alg == Alg::P256).unwrap_or(false);
                    if l.len() > 1 {
                        w.idents[i].doc.auth.retain(|k| *k != kid);
                    }
                    if p256 && !w.idents[i].doc.ka.contains(&kid) {
                        w.idents[i].doc.ka.push(kid);
                    }
                }
            }
        }
        i
    };
    publish(&wr, i);
    let sig = {
        let mut w = wr.borrow_mut();
        let s = w.signed.clone();
        if w.ch.chance(1, 2) {
            pick(&mut w, &s)
        } else {
            None
        }
    };
    if let Some((s, o)) = sig {
        // verified again after the document changed
        delay(20_000).await;
        let mut w = wr.borrow_mut();
        third_party(&mut w, &wr, s, o);
    }
}

/// A message is read before and after a key it depends on is withdrawn, and after that key is back.
async fn withdraw(wr: Wr) {
    let (t, p, dev, kids) = {
        let mut w = wr.borrow_mut();
        let c: Vec<usize> = (0..w.packets.len()).filter(|i| w.packets[*i].1.must_accept() && w.idents[w.packets[*i].2].kind == Kind::Person).collect();
        let i = match pick(&mut w, &c) {
            Some(i) if w.ch.chance(1, 2) => Some(i),
            _ => None,
        };
        let (t, p, ident) = match i {
            Some(i) => w.packets[i].clone(),
            None => {
                // an independent peer announces its new DID
                let ps = persons(&w);
                let (a, b) = (pick(&mut w, &ps).unwrap(), pick(&mut w, &ps).unwrap());
                let jwt = match any_notice(&mut w, &a) {
                    Some(j) => j,
                    None => return,
                };
                match peer_message(&mut w, &a, &b, Some(jwt)) {
                    Some((t, p)) => (t, p, w.ident_of(&b).unwrap()),
                    None => return,
                }
            }
        };
        let devs = w.idents[ident].devices.clone();
        let dev = pick(&mut w, &devs).unwrap();
        let o = p.origin().unwrap();
        let mut kids: Vec<String> = [&o.from_kid, &o.sign_kid].iter().copied().flatten().cloned().collect();
        if let Some(k) = o.msg["from_prior"].as_str().and_then(|j| j.split('.').next()).and_then(unb64).and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
            kids.extend(k["kid"].as_str().map(|s| s.to_string()));
        }
        w.stat("withdraw");
        (Rc::new(t), p, dev, kids)
    };
    let o = ropts(&mut wr.borrow_mut());
    let times = wr.borrow_mut().ch.range(1, 2);
    for _ in 0..times {
        unpack(&wr, Spec::calm(dev, "unpack before withdrawal"), &t, &p, o).await;
    }
    let done = {
        let mut w = wr.borrow_mut();
        let kid = match pick(&mut w, &kids) {
            Some(k) => k,
            None => return,
        };
        let i = match w.ident_of(split_id(&kid).0) {
            Some(i) => i,
            None => return,
        };
        let d = w.idents[i].doc.clone();
        let vm = match d.vm(&kid) {
            Some(v) => v.clone(),
            None => return,
        };
        let (ka, auth) = (d.ka.contains(&kid), d.auth.contains(&kid));
        let how = w.ch.draw(3);
        let other = Key::gen(&mut w.rng, &kid, vm.key().map(|k| k.alg).unwrap_or(Alg::X25519));
        let doc = &mut w.idents[i].doc;
        match how {
            // other material under the same name
            0 => doc.vms.iter_mut().filter(|v| v.kid == kid).for_each(|v| v.mat = Mat::Good(other.clone(), Fmt::Jwk)),
            _ => {
                doc.ka.retain(|k| *k != kid);
                doc.auth.retain(|k| *k != kid);
                if how == 1 {
                    doc.vms.retain(|v| v.kid != kid);
                }
            }
        }
        w.log(format!("{} is withdrawn ({})", kid, how));
        (i, kid, vm, ka, auth)
    };
    let (i, kid, vm, ka, auth) = done;
    let know = |wr: &Wr| {
        publish(wr, i);
        let mut w = wr.borrow_mut();
        let m = w.registry[&w.idents[i].did].last().unwrap().clone();
        learn(&mut w, dev, &m);
    };
    know(&wr);
    unpack(&wr, Spec::calm(dev, "unpack after withdrawal"), &t, &p, o).await;
    {
        let mut w = wr.borrow_mut();
        let doc = &mut w.idents[i].doc;
        match doc.vms.iter_mut().find(|v| v.kid == kid) {
            Some(v) => v.mat = vm.mat,
            None => doc.vms.push(vm),
        }
        if ka && !doc.ka.contains(&kid) {
            doc.ka.push(kid.clone());
        }
        if auth && !doc.auth.contains(&kid) {
            doc.auth.push(kid.clone());
        }
        w.log(format!("{} is back", kid));
    }
    know(&wr);
    unpack(&wr, Spec::calm(dev, "unpack after return"), &t, &p, o).await;
}

async fn reformat(wr: Wr) {
    let i = {
        let mut w = wr.borrow_mut();
        let n = w.idents.len() as u64;
        let i = w.ch.draw(n) as usize;
        w.stat("reformat");
        let h = holders(&w, i);
        if w.ch.chance(2, 3) {
            for v in 0..w.idents[i].doc.vms.len() {
                let f = [Fmt::Jwk, Fmt::B58, Fmt::Mb][w.ch.draw(3) as usize];
                if let Mat::Good(_, x) = &mut w.idents[i].doc.vms[v].mat {
                    *x = f;
                }
            }
        }
        for d in w.idents[h].devices.clone() {
            if w.ch.chance(1, 2) {
                continue;
            }
            let kids: Vec<String> = w.devs[d].wallet.keys().cloned().collect();
            for k in kids {
                let f = [Fmt::Jwk, Fmt::B58, Fmt::Mb][w.ch.draw(3) as usize];
                let key = w.devs[d].wallet[&k].key.clone();
                let s = store_secret(&mut w, &key, f);
                w.devs[d].wallet.insert(k, s);
            }
            // the same keys: nothing may change, so the wallet's epoch stays
            let name = w.devs[d].name.clone();
            w.log(format!("wallet of {} changes representation", name));
        }
        i
    };
    publish(&wr, i);
}

/// A JSON record cut anywhere has to be refused; a complete one has to be what was written.
fn stored<T: serde::de::DeserializeOwned>(w: &mut World, what: &str, text: &str, want: &Value, read: impl Fn(&T) -> Value, torn: bool) -> Option<T> {
    if torn {
        let mut n = w.ch.draw(text.len() as u64) as usize;
        while !text.is_char_boundary(n) {
            n -= 1;
        }
        w.stat("fault.disk.torn");
        match exec::lib_sync(|| serde_json::from_str::<T>(&text[..n]).map_err(|e| e.to_string())) {
            Ok(Ok(v)) => {
                let m = format!("torn record of {} loaded as {}", what, short(&read(&v).to_string()));
                w.violation(&["C19"], m);
            }
            Ok(Err(_)) => {}
            Err(p) => w.violation(&["C12", "C19"], format!("loading a torn {} panicked: {}", what, p)),
        }
        return None;
    }
    match exec::lib_sync(|| serde_json::from_str::<T>(text).map_err(|e| e.to_string())) {
        Ok(Ok(v)) => {
            let got = read(&v);
            if got != *want {
                let m = format!("{} reloaded differently: {}", what, diff(want, &got));
                w.violation(&["C19"], m);
            }
            Some(v)
        }
        Ok(Err(e)) => {
            w.violation(&["C19"], format!("stored {} cannot be loaded: {}", what, e));
            None
        }
        Err(p) => {
            w.violation(&["C12", "C19"], format!("loading {} panicked: {}", what, p));
            None
        }
    }
}

fn to_json<T: serde::Serialize>(w: &mut World, what: &str, v: &T) -> Option<String> {
    match exec::lib_sync(|| serde_json::to_string(v).map_err(|e| e.to_string())) {
        Ok(Ok(s)) => Some(s),
        Ok(Err(e)) => {
            w.violation(&["C19"], format!("{} cannot be stored: {}", what, e));
            None
        }
        Err(p) => {
            w.violation(&["C12", "C19"], format!("storing {} panicked: {}", what, p));
            None
        }
    }
}

/// Power loss: operations in flight are gone, only what was written survives.
async fn crash(wr: Wr) {
    let mut w = wr.borrow_mut();
    let n = w.devs.len() as u64;
    let d = w.ch.draw(n) as usize;
    if d == w.hostile_dev {
        return;
    }
    w.stat("fault.crash");
    w.devs[d].epoch += 1;
    w.devs[d].wallet_epoch += 1;
    let name = w.devs[d].name.clone();
    w.log(format!("{} crashes and restarts", name));
    let dids: Vec<String> = w.devs[d].view.keys().cloned().collect();
    for did in dids {
        let s = w.devs[d].view[&did].clone();
        let want = doc_value(&s.lib);
        if let Some(t) = to_json(&mut w, "document", &s.lib) {
            let torn = w.ch.chance(1, 8);
            match stored::<DIDDoc>(&mut w, "document", &t, &want, doc_value, torn) {
                Some(lib) => {
                    w.devs[d].view.insert(did, StoredDoc { model: s.model, lib });
                }
                None if torn => {
                    // fetched again from its publisher
                    if let Some(m) = w.latest(&did) {
                        let s = store_doc(&mut w, &m);
                        w.devs[d].view.insert(did, s);
                    }
                }
                None => {}
            }
        }
    }
    let kids: Vec<String> = w.devs[d].wallet.keys().cloned().collect();
    for k in kids {
        let s = w.devs[d].wallet[&k].clone();
        let want = s.key.secret_json(s.fmt);
        if let Some(t) = to_json(&mut w, "secret", &s.lib) {
            let torn = w.ch.chance(1, 8);
            match stored::<Secret>(&mut w, "secret", &t, &want, secret_value, torn) {
                Some(lib) => {
                    w.devs[d].wallet.insert(k, StoredSecret { lib, ..s });
                }
                // restored from the backup
                None => {
                    let n = store_secret(&mut w, &s.key, s.fmt);
                    w.devs[d].wallet.insert(k, n);
                }
            }
        }
    }
}

/// The bundled resolvers over what a device has stored, asked for names it stored and for ones like them.
async fn bundled(wr: &Wr) {
    use didcomm::did::DIDResolver;
    use didcomm::secrets::SecretsResolver;
    let (docs, secrets, ids, kids) = {
        let mut w = wr.borrow_mut();
        let n = w.devs.len() as u64;
        let d = w.ch.draw(n) as usize;
        if d == w.hostile_dev {
            return;
        }
        w.stat("bundled resolvers");
        let docs: BTreeMap<String, DIDDoc> = w.devs[d].view.iter().map(|(k, v)| (k.clone(), v.lib.clone())).collect();
        let secrets: BTreeMap<String, Secret> = w.devs[d].wallet.iter().map(|(k, v)| (k.clone(), v.lib.clone())).collect();
        let mut ask = |w: &mut World, stored: Vec<String>| -> Vec<String> {
            let mut out = vec![];
            for _ in 0..w.ch.range(1, 6) {
                if let Some(x) = pick(w, &stored) {
                    out.push(if w.ch.chance(1, 2) { x } else { crate::byz::almost(w, &x) });
                }
            }
            out
        };
        let ids = ask(&mut w, docs.keys().cloned().collect());
        let kids = ask(&mut w, secrets.keys().cloned().collect());
        (docs, secrets, ids, kids)
    };
    let mut bad = vec![];
    let r = didcomm::did::resolvers::ExampleDIDResolver::new(docs.values().cloned().collect());
    for id in &ids {
        let got = r.resolve(id).await;
        if got.as_ref().ok().map(|g| g.as_ref().map(doc_value)) != Some(docs.get(id).map(doc_value)) {
            bad.push(format!("example DID resolver asked for {} answers {:?}", id, got.map(|g| g.map(|d| d.id))));
        }
    }
    let r = didcomm::secrets::resolvers::ExampleSecretsResolver::new(secrets.values().cloned().collect());
    for id in &kids {
        let got = r.get_secret(id).await;
        if got.as_ref().ok().map(|g| g.as_ref().map(secret_value)) != Some(secrets.get(id).map(secret_value)) {
            bad.push(format!("example secrets resolver asked for {} answers {:?}", id, got.map(|g| g.map(|s| s.id))));
        }
    }
    let asked: Vec<&str> = kids.iter().map(|k| k.as_str()).collect();
    let want: Vec<&str> = asked.iter().copied().filter(|k| secrets.contains_key(*k)).collect();
    let got = r.find_secrets(&asked).await;
    if got.as_ref().ok() != Some(&want) {
        bad.push(format!("example secrets resolver asked for {:?} finds {:?}", asked, got));
    }
    let mut w = wr.borrow_mut();
    for b in bad {
        w.violation(&["C19"], b);
    }
}

async fn storage(wr: Wr) {
    let near = wr.borrow_mut().ch.chance(1, 4);
    if near {
        return bundled(&wr).await;
    }
    let mut w = wr.borrow_mut();
    w.stat("storage");
    let ps = persons(&w);
    let a = pick(&mut w, &ps);
    let torn = w.ch.chance(1, 3);
    match w.ch.draw(4) {
        0 | 1 => {
            let (m, v, _) = plaintext(&mut w, a, None, None);
            if let Some(t) = to_json(&mut w, "message", &m) {
                // the stored form is the plaintext form
                let j: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
                if j != v {
                    w.violation(&["C19", "C21"], format!("message is written as {}", diff(&v, &j)));
                }
                stored::<Message>(&mut w, "message", &t, &v, msg_value, torn);
            }
            // written by another tool, members in another order
            let o: Vec<(String, String)> = v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
            let t = obj(o, w.ch.chance(1, 2), w.ch.chance(1, 2));
            stored::<Message>(&mut w, "message", &t, &v, msg_value, false);
        }
        2 => {
            let (f, v) = notice(&mut w, "did:sim:a".into(), "did:sim:b".into());
            if let Some(t) = to_json(&mut w, "rotation notice", &f) {
                let j: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
                if j != v {
                    w.violation(&["C19", "C13"], format!("rotation notice is written as {}", diff(&v, &j)));
                }
                stored::<FromPrior>(&mut w, "rotation notice", &t, &v, from_prior_value, torn);
            }
            let o: Vec<(String, String)> = v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
            let t = obj(o, w.ch.chance(1, 2), w.ch.chance(1, 2));
            stored::<FromPrior>(&mut w, "rotation notice", &t, &v, from_prior_value, false);
        }
        _ => options(&mut w),
    }
}

fn options_value(o: &PackEncryptedOptions) -> Value {
    json!({
        "protect_sender": o.protect_sender, "forward": o.forward,
        "forward_headers": o.forward_headers.as_ref().map(|h| json!(h)), "messaging_service": o.messaging_service,
        "enc_alg_auth": format!("{:?}", o.enc_alg_auth), "enc_alg_anon": format!("{:?}", o.enc_alg_anon),
    })
}

/// Options stored as JSON, with any subset of their members present.
fn options(w: &mut World) {
    let mut j = json!({});
    let mut want = PackEncryptedOptions { protect_sender: false, forward: true, forward_headers: None, messaging_service: None, enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, enc_alg_anon: AnonCryptAlg::Xc20pEcdhEsA256kw };
    if options_value(&PackEncryptedOptions::default()) != options_value(&want) {
        w.violation(&["C19"], format!("default packing options are {:?}", PackEncryptedOptions::default()));
    }
    let ud = UnpackOptions::default();
    if (ud.expect_decrypt_by_all_keys, ud.unwrap_re_wrapping_forward) != (false, true) {
        w.violation(&["C19"], format!("default unpacking options are {:?}", ud));
    }
    if w.ch.chance(1, 2) {
        want.protect_sender = w.ch.chance(1, 2);
        j["protect_sender"] = json!(want.protect_sender);
    }
    if w.ch.chance(1, 2) {
        want.forward = w.ch.chance(1, 2);
        j["forward"] = json!(want.forward);
    }
    if w.ch.chance(1, 2) {
        want.forward_headers = headers(w);
        j["forward_headers"] = json!(want.forward_headers);
    }
    if w.ch.chance(1, 2) {
        want.messaging_service = Some("did:sim:x#s".into());
        j["messaging_service"] = json!("did:sim:x#s");
    }
    if w.ch.chance(1, 2) {
        j["enc_alg_auth"] = json!("A256cbcHs512Ecdh1puA256kw");
    }
    if w.ch.chance(1, 2) {
        want.enc_alg_anon = anon_alg(w);
        j["enc_alg_anon"] = json!(match want.enc_alg_anon {
            AnonCryptAlg::A256cbcHs512EcdhEsA256kw => "A256cbcHs512EcdhEsA256kw",
            AnonCryptAlg::Xc20pEcdhEsA256kw => "Xc20pEcdhEsA256kw",
            AnonCryptAlg::A256gcmEcdhEsA256kw => "A256gcmEcdhEsA256kw",
        });
    }
    let t = j.to_string();
    stored::<PackEncryptedOptions>(w, "packing options", &t, &options_value(&want), options_value, false);
    let (mut j, mut a, mut b) = (json!({}), false, false);
    if w.ch.chance(1, 2) {
        a = w.ch.chance(1, 2);
        j["expect_decrypt_by_all_keys"] = json!(a);
    }
    if w.ch.chance(1, 2) {
        b = w.ch.chance(1, 2);
        j["unwrap_re_wrapping_forward"] = json!(b);
    }
    let t = j.to_string();
    stored::<UnpackOptions>(w, "unpacking options", &t, &json!([a, b]), |o| json!([o.expect_decrypt_by_all_keys, o.unwrap_re_wrapping_forward]), false);
    for (a, n) in [(SignAlg::EdDSA, "EdDSA"), (SignAlg::ES256, "ES256"), (SignAlg::ES256K, "ES256K")] {
        if let Some(t) = to_json(w, "algorithm", &a) {
            if t != format!("\"{}\"", n) {
                w.violation(&["C19"], format!("algorithm {} is written as {}", n, t));
            }
        }
    }
}

fn notice(w: &mut World, iss: String, sub: String) -> (FromPrior, Value) {
    let mut v = json!({"iss": iss, "sub": sub});
    let mut b = FromPrior::build(iss, sub);
    if w.ch.chance(1, 2) {
        let n = w.ch.draw(1 << 34);
        v["exp"] = json!(n);
        b = b.exp(n);
    }
    if w.ch.chance(1, 2) {
        let n = if w.ch.chance(1, 4) { u64::MAX } else { 0 };
        v["nbf"] = json!(n);
        b = b.nbf(n);
    }
    if w.ch.chance(1, 2) {
        let n = w.ch.draw(1 << 40);
        v["iat"] = json!(n);
        b = b.iat(n);
    }
    if w.ch.chance(1, 2) {
        v["aud"] = json!("did:sim:aud \"x\"");
        b = b.aud("did:sim:aud \"x\"".into());
    }
    if w.ch.chance(1, 2) {
        v["jti"] = json!("jti\u{2603}");
        b = b.jti("jti\u{2603}".into());
    }
    (b.finalize(), v)
}

async fn from_prior(wr: Wr) {
    let (fp, kid, dev) = {
        let mut w = wr.borrow_mut();
        let (a, dev) = match person_dev(&mut w) {
            Some(x) => x,
            None => return,
        };
        let new = w.idents[a].did.clone();
        // normally a prior DID of this very person
        let olds: Vec<usize> = (0..w.idents.len()).filter(|i| w.idents[*i].kind == Kind::Person && w.idents[*i].devices.is_empty() && holders(&w, *i) == a).collect();
        let i = match pick(&mut w, &olds) {
            Some(i) if !w.ch.chance(1, 8) => i,
            _ => a,
        };
        let iss = w.idents[i].did.clone();
        let iss = if w.ch.chance(1, 20) { w.idents[i].doc.auth.first().cloned().unwrap_or(iss) } else { iss };
        let sub = match w.ch.draw(12) {
            0 => iss.clone(),
            1 => "nodid".to_string(),
            2 => mallory(&w),
            3 => format!("{}#{}", new, ["key-1", ""][w.ch.draw(2) as usize]),
            _ => {
                if iss == new {
                    let ps = persons(&w);
                    pick(&mut w, &ps).unwrap()
                } else {
                    new
                }
            }
        };
        let (fp, _) = notice(&mut w, iss.clone(), sub);
        let auth = dev_view(&w, dev).doc(&iss).map(|d| d.auth.clone()).unwrap_or_default();
        let kid = match w.ch.draw(8) {
            0..=3 => None,
            4..=6 => pick(&mut w, &auth),
            _ => match w.ch.draw(4) {
                0 => Some(iss.clone()),
                1 => {
                    let l = w.idents[i].doc.auth.clone();
                    let k = pick(&mut w, &l).unwrap_or(format!("{}#nokey", iss));
                    let n = crate::byz::almost(&mut w, crate::byz::split_frag(&k));
                    Some(format!("{}#{}", iss, n))
                }
                2 => {
                    let m = mallory(&w);
                    auth_keys(&w, &m).first().map(|k| k.kid.clone())
                }
                _ => w.idents[i].doc.ka.first().cloned(),
            },
        };
        (fp, kid, dev)
    };
    let spec = Spec::faulty(&wr, dev, "pack rotation notice");
    let planned = !matches!(spec.plan, Plan::None) || spec.cancel_at.is_some();
    let mut out = pack_from_prior(&wr, spec, &fp, kid.clone()).await;
    if planned && !matches!(out, Out::Ok(_)) {
        out = pack_from_prior(&wr, Spec::calm(dev, "retry pack rotation notice"), &fp, kid).await;
    }
    let mut jwts: Vec<(String, &'static str)> = vec![];
    {
        let mut w = wr.borrow_mut();
        if let Out::Ok((jwt, kid)) = out {
            w.stat("notice.issued");
            let v = from_prior_value(&fp);
            w.notices.push((jwt.clone(), v, kid));
            if w.ch.chance(1, 2) {
                // altered on the way
                let mut s: Vec<String> = jwt.split('.').map(|s| s.to_string()).collect();
                let name = match w.ch.draw(6) {
                    0 => {
                        let mut b: Value = serde_json::from_slice(&unb64(&s[1]).unwrap()).unwrap();
                        b["sub"] = json!(mallory(&w));
                        s[1] = b64(b.to_string());
                        "payload"
                    }
                    1 => {
                        let i = w.ch.draw(s.len() as u64) as usize;
                        if let Some(mut b) = unb64(&s[i]).filter(|b| !b.is_empty()) {
                            let k = w.ch.draw(b.len() as u64) as usize;
                            b[k] ^= 1 << w.ch.draw(8);
                            s[i] = b64(b);
                        }
                        "bit"
                    }
                    2 => {
                        s.pop();
                        "no signature"
                    }
                    3 => {
                        s.push("AA".into());
                        "extra part"
                    }
                    4 => {
                        let n = w.ch.draw(jwt.len() as u64) as usize;
                        s = vec![jwt[..n].to_string()];
                        "cut"
                    }
                    _ => {
                        let k = w.notices.len() as u64;
                        let j = w.ch.draw(k) as usize;
                        let o = w.notices[j].0.clone();
                        let i = w.ch.draw(3) as usize;
                        s[i] = o.split('.').nth(i).unwrap().to_string();
                        "part of another"
                    }
                };
                jwts.push((s.join("."), name));
            }
            jwts.push((jwt, "issued"));
        }
        let ps = persons(&w);
        let m = mallory(&w);
        let v = pick(&mut w, &ps).unwrap();
        let v = if w.ch.chance(1, 2) { fp.iss.clone() } else { v };
        let which = w.ch.draw(9);
        if let Some(j) = forged_notice(&mut w, &m, &v, which) {
            w.stat("fault.byzantine.notice");
            jwts.push((j, "forged"));
        }
        if let Some(j) = any_notice(&mut w, &v) {
            jwts.push((j, "peer"));
        }
        if let Some(n) = w.notices.clone().first() {
            jwts.push((n.0.clone(), "earlier"));
        }
    }
    for (j, label) in jwts {
        let (d, at) = {
            let mut w = wr.borrow_mut();
            let n = w.devs.len() as u64;
            (w.ch.draw(n) as usize, w.ch.draw(5) * 2_000)
        };
        if d == wr.borrow().hostile_dev {
            continue;
        }
        delay(at).await;
        let spec = Spec::faulty(&wr, d, "unpack rotation notice");
        unpack_from_prior(&wr, spec, &j, label).await;
    }
}

async fn wrong_recipient(wr: Wr) {
    let (t, p, d, o) = {
        let mut w = wr.borrow_mut();
        let c: Vec<usize> = (0..w.packets.len()).filter(|i| w.packets[*i].1.must_accept()).collect();
        let i = match pick(&mut w, &c) {
            Some(i) => i,
            None => return,
        };
        let (t, p, ident) = w.packets[i].clone();
        let ds: Vec<usize> = (0..w.devs.len()).filter(|d| w.devs[*d].ident != ident && *d != w.hostile_dev).collect();
        let d = pick(&mut w, &ds).unwrap();
        w.stat("wrong-recipient");
        (t, p, d, ropts(&mut w))
    };
    let spec = Spec::faulty(&wr, d, "unpack as outsider");
    let (out, _) = unpack(&wr, spec, &Rc::new(t), &p, o).await;
    if let Out::Ok(g) = out {
        let mut w = wr.borrow_mut();
        let or = p.origin().unwrap();
        if or.encrypted && g.meta.encrypted {
            w.violation(&["C04"], format!("an outsider read a message meant for {}", or.to_did));
        }
    }
}

async fn garbage_action(wr: Wr) {
    let (t, p, d, o) = {
        let mut w = wr.borrow_mut();
        let (t, p) = garbage(&mut w);
        w.stat("fault.garbage");
        let d = person_dev(&mut w).unwrap().1;
        (t, p, d, ropts(&mut w))
    };
    let spec = Spec::faulty(&wr, d, "unpack garbage");
    unpack(&wr, spec, &Rc::new(t), &p, o).await;
}

async fn replay(wr: Wr) {
    let (t, p, to) = {
        let mut w = wr.borrow_mut();
        let n = w.packets.len() as u64;
        if n == 0 {
            return;
        }
        let i = w.ch.draw(n) as usize;
        let (t, p, ident) = w.packets[i].clone();
        w.stat("fault.net.replay");
        (t, p, w.idents[ident].did.clone())
    };
    send(&wr, Rc::new(t), p, to, 6);
}

async fn bad_arguments(wr: Wr) {
    let (req, dev) = {
        let mut w = wr.borrow_mut();
        let (a, dev) = person_dev(&mut w).unwrap();
        let b = other_person(&mut w, a);
        let mut r = request(&mut w, a, dev, b);
        if r.mode == Mode::Plain {
            r.mode = Mode::Encrypted;
        }
        const NOT: [&str; 10] = ["", "x", "did", "did:x", "did:", "x:did:y", "DID:sim:x", "http://did:sim:x", " did:sim:x", "urn:did:sim"];
        for _ in 0..w.ch.range(1, 2) {
            match w.ch.draw(7) {
                0 => r.to = NOT[w.ch.draw(10) as usize].into(),
                1 => r.from = Some(NOT[w.ch.draw(10) as usize].into()),
                2 => r.sign_by = Some(NOT[w.ch.draw(10) as usize].into()),
                3 => {
                    // somebody else in `to`
                    let l: Vec<String> = match w.ch.draw(6) {
                        0 => vec![],
                        4 | 5 => {
                            let d = split_id(&r.to).0.to_string();
                            (0..w.ch.range(1, 4)).map(|_| crate::byz::almost(&mut w, &d)).filter(|x| *x != d).collect()
                        }
                        1 => vec![format!("{}x", split_id(&r.to).0)],
                        2 => vec![r.to.clone() + "#key-1"],
                        _ => w.idents.iter().map(|i| i.did.clone()).filter(|d| d != split_id(&r.to).0).collect(),
                    };
                    r.lib.to = Some(l.clone());
                    r.exp["to"] = json!(l);
                }
                4 => {
                    let f = match w.ch.draw(5) {
                        0 => format!("{}2", w.idents[a].did),
                        3 | 4 => {
                            let d = w.idents[a].did.clone();
                            crate::byz::almost(&mut w, &d)
                        }
                        1 => w.idents[a].doc.ka.first().cloned().unwrap_or_default(),
                        _ => String::new(),
                    };
                    r.lib.from = Some(f.clone());
                    r.exp["from"] = json!(f);
                }
                5 => r.from = Some(w.idents[b].did.clone() + "#key-1"),
                6 if w.ch.chance(1, 2) => {
                    // names much like the right ones
                    let (d, k) = (split_id(&r.to).0.to_string(), split_id(&r.to).1);
                    let n = crate::byz::almost(&mut w, &d);
                    r.to = if k { format!("{}{}", n, &r.to[d.len()..]) } else { n };
                }
                _ => {
                    // a near miss of the recipient
                    r.to = format!("{}:x", split_id(&r.to).0);
                }
            }
        }
        (Rc::new(r), dev)
    };
    wr.borrow_mut().stat("bad-arguments");
    let spec = Spec::faulty(&wr, dev, "pack with odd arguments");
    pack(&wr, spec, &req).await;
}

async fn hostile(wr: Wr) {
    let d = wr.borrow().hostile_dev;
    let (did, model, ps) = {
        let mut w = wr.borrow_mut();
        w.stat("hostile");
        w.next_msg += 1;
        let did = format!("did:evil:{}:{}", w.nonce, w.next_msg);
        let mut ps = persons(&w);
        ps.push(did.clone());
        let friends = vec![ps[0].clone()];
        let m = Rc::new(hostile_doc(&mut w, &did, &friends));
        let lib = match exec::lib_sync(|| m.to_lib()) {
            Ok(l) => l,
            Err(_) => return,
        };
        w.devs[d].view.insert(did.clone(), StoredDoc { model: m.clone(), lib });
        let kids: Vec<String> = m.vms.iter().map(|v| v.kid.clone()).collect();
        for k in kids {
            if w.ch.chance(1, 5) {
                continue;
            }
            let key = match m.vm(&k).and_then(|v| v.key()) {
                Some(k) => k.clone(),
                None => Key::gen(&mut w.rng, &k, [Alg::X25519, Alg::P256, Alg::Ed25519][(k.len() % 3) as usize]),
            };
            let lib = if w.ch.chance(1, 5) { key.secret(Fmt::Jwk) } else { hostile_secret(&mut w, &k) };
            w.devs[d].wallet.insert(k, StoredSecret { key, fmt: Fmt::Jwk, lib });
        }
        (did, m, ps)
    };
    let spec = |what: &str| {
        let mut s = Spec::faulty(&wr, d, what);
        s.hostile = true;
        s
    };
    let n = wr.borrow_mut().ch.range(1, 4);
    for _ in 0..n {
        let what = wr.borrow_mut().ch.draw(5);
        match what {
            // packing to, from and signed by it
            0 | 1 => {
                let r = {
                    let mut w = wr.borrow_mut();
                    let (lib, exp, marker) = plaintext(&mut w, None, None, None);
                    let mut ids: Vec<String> = model.vms.iter().map(|v| v.kid.clone()).collect();
                    ids.push(did.clone());
                    ids.push(did.clone());
                    let to = if w.ch.chance(2, 3) { pick(&mut w, &ids) } else { pick(&mut w, &ps) }.unwrap();
                    let from = if w.ch.chance(1, 2) { pick(&mut w, &ids) } else { None };
                    let sign_by = if w.ch.chance(1, 3) { pick(&mut w, &ids) } else { None };
                    let mode = if sign_by.is_some() && w.ch.chance(1, 3) { Mode::Signed } else { Mode::Encrypted };
                    let opts = PackEncryptedOptions { protect_sender: w.ch.chance(1, 2), forward: w.ch.chance(1, 2), ..Default::default() };
                    Rc::new(PackReq { mode, lib, exp, marker, to, from, sign_by, opts })
                };
                pack(&wr, spec("pack hostile"), &r).await;
            }
            // messages naming its keys
            2 => {
                let (t, o) = {
                    let mut w = wr.borrow_mut();
                    let (_, v, _) = plaintext(&mut w, None, None, None);
                    let mut rng = w.rng.clone();
                    let good = Key::gen(&mut rng, "k", [Alg::X25519, Alg::P256][w.ch.draw(2) as usize]);
                    let kids: Vec<String> = model.vms.iter().map(|v| v.kid.clone()).collect();
                    let kid = pick(&mut w, &kids).unwrap();
                    let me = {
                        let c: Vec<Key> = w.devs[d].wallet.values().map(|s| s.key.clone()).filter(|k| k.alg == good.alg).collect();
                        pick(&mut w, &c).unwrap_or(good.clone())
                    };
                    let sig = Key::gen(&mut rng, "k", [Alg::Ed25519, Alg::P256, Alg::K256][w.ch.draw(3) as usize]);
                    let mut inner = v.to_string();
                    let mode = w.ch.draw(4);
                    if mode == 0 || mode == 3 {
                        let mut s = SigSpec::honest(&sig);
                        s.kid = kid.clone();
                        inner = jws_encode(&[s], inner.as_bytes(), false, false);
                    }
                    if mode == 1 || mode == 3 {
                        let mut k = good.clone();
                        k.kid = kid.clone();
                        inner = jwe_encode(&mut rng, &JweSpec::auth(k, vec![me.clone()]), inner.as_bytes()).text;
                    }
                    if mode == 2 {
                        let mut k = good;
                        k.kid = kid;
                        inner = jwe_encode(&mut rng, &JweSpec::anon(XC, vec![k]), inner.as_bytes()).text;
                    }
                    w.rng = rng;
                    (inner, ropts(&mut w))
                };
                unpack(&wr, spec("unpack hostile"), &Rc::new(t), &Prov::Garbage("hostile keys"), o).await;
            }
            3 => {
                let (j, fp) = {
                    let mut w = wr.borrow_mut();
                    let kids: Vec<String> = model.vms.iter().map(|v| v.kid.clone()).collect();
                    let kid = pick(&mut w, &kids).unwrap();
                    let k = Key::gen(&mut w.rng, &kid, [Alg::Ed25519, Alg::P256, Alg::K256][(kid.len() % 3) as usize]);
                    let (fp, v) = notice(&mut w, did.clone(), ps[0].clone());
                    (jwt_encode(&k, &kid, sig_alg(k.alg).unwrap().0, "JWT", &v, false), fp)
                };
                unpack_from_prior(&wr, spec("unpack hostile notice"), &j, "hostile").await;
                pack_from_prior(&wr, spec("pack hostile notice"), &fp, None).await;
            }
            _ => {
                let r = {
                    let mut w = wr.borrow_mut();
                    let ids = [did.clone(), String::new(), "#".into(), format!("{}#", did), "did:sim:none".into()];
                    let n = w.ch.draw(3);
                    (0..n).map(|_| ids[w.ch.draw(5) as usize].clone()).collect::<Vec<_>>()
                };
                let t = if r.len() % 2 == 0 { "{}" } else { "{" };
                wrap_op(&wr, spec("wrap hostile"), t, &did, r).await;
            }
        }
    }
    let mut w = wr.borrow_mut();
    w.devs[d].view.remove(&did);
}

async fn rewrap(wr: Wr) {
    let (t, p, to, routing, dev) = {
        let mut w = wr.borrow_mut();
        let c: Vec<usize> = (0..w.packets.len())
            .filter(|i| w.packets[*i].1.must_accept() && w.packets[*i].1.origin().map(|o| o.encrypted).unwrap_or(false) && w.idents[w.packets[*i].2].kind == Kind::Person)
            .collect();
        let i = match pick(&mut w, &c) {
            Some(i) => i,
            None => return,
        };
        let (t, p, ident) = w.packets[i].clone();
        let did = w.idents[ident].did.clone();
        let keys = w.idents[ident].doc.ka.clone();
        let to = if w.ch.chance(1, 2) { did.clone() } else { pick(&mut w, &keys).unwrap_or(did.clone()) };
        let mut routing: Vec<String> = (0..w.ch.weighted(&[1, 3, 2, 1])).map(|_| hop(&mut w)).collect();
        if w.ch.chance(1, 3) {
            routing.push(did);
        }
        let dev = person_dev(&mut w).unwrap().1;
        (t, p, to, routing, dev)
    };
    let first = routing.first().cloned().unwrap_or(to.clone());
    let spec = Spec::faulty(&wr, dev, "wrap_in_forward");
    if let Some(t) = wrap_op(&wr, spec, &t, &to, routing).await {
        wr.borrow_mut().stat("sent.rewrapped");
        send(&wr, Rc::new(t), p, first, 1);
    }
}

fn act(wr: &Wr, kind: usize, at: u64) {
    let w = wr.clone();
    exec::spawn(ACTIONS[kind].into(), async move {
        delay(at).await;
        match kind {
            0 => exchange(w).await,
            1 => peer_action(w).await,
            2 => byzantine(w).await,
            3 => rotate(w).await,
            4 => crash(w).await,
            5 => wrong_recipient(w).await,
            6 => garbage_action(w).await,
            7 => storage(w).await,
            8 => bad_arguments(w).await,
            9 => hostile(w).await,
            10 => from_prior(w).await,
            11 => replay(w).await,
            12 => reformat(w).await,
            13 => rewrap(w).await,
            _ => withdraw(w).await,
        }
    });
}

fn ended(wr: &Wr, e: Ended) {
    match e {
        Ended::Finished => {}
        Ended::Stalled(v) => wr.borrow_mut().violation(&["C12"], format!("operations wait for ever: {:?}", v)),
        Ended::StepLimit => wr.borrow_mut().violation(&["C12"], "step limit exceeded".into()),
    }
}

/// A number with all the digits a double can have.
fn digits(w: &mut World) {
    struct Nobody;
    #[async_trait::async_trait(?Send)]
    impl didcomm::did::DIDResolver for Nobody {
        async fn resolve(&self, _: &str) -> didcomm::error::Result<Option<DIDDoc>> {
            Ok(None)
        }
    }
    let wallet = didcomm::secrets::resolvers::ExampleSecretsResolver::new(vec![]);
    let opts = UnpackOptions::default();
    let trip = |m: &Message| {
        let mut t = Box::pin(async {
            let t = m.pack_plaintext(&Nobody).await?;
            Message::unpack(&t, &Nobody, &wallet, &opts).await
        });
        std::future::Future::poll(t.as_mut(), &mut std::task::Context::from_waker(std::task::Waker::noop()))
    };
    let m = Message::build("digits".into(), "https://example.org/t".into(), json!({ "n": DIGITS })).finalize();
    if let std::task::Poll::Ready(Ok((u, _))) = trip(&m) {
        if u != m {
            w.violation(&["C01"], format!("C01 digits of a number in the body change: {} arrives as {}", DIGITS, u.body["n"]));
        }
    }
    // the parser reads 128 levels
    for n in [100, 200] {
        let body = (0..n).fold(json!(1), |b, _| json!([b]));
        let m = Message::build("deep".into(), "https://example.org/t".into(), json!({ "n": body })).finalize();
        match trip(&m) {
            std::task::Poll::Ready(Ok((u, _))) if u == m => {}
            std::task::Poll::Ready(Err(e)) => w.violation(&["C01"], format!("C01 body nested deeply: {} arrays within each other are packed, but refused as {:?} when unpacked", n, e.kind())),
            _ => w.violation(&["C01"], format!("C01 body nested deeply: {} arrays arrive as something else", n)),
        }
    }
}

/// Messages of a peer whose serializer escapes slashes, for keys with a slash in their names (known_findings.txt).
fn escaped_names(w: &mut World) {
    struct Docs(Vec<DIDDoc>);
    #[async_trait::async_trait(?Send)]
    impl didcomm::did::DIDResolver for Docs {
        async fn resolve(&self, did: &str) -> didcomm::error::Result<Option<DIDDoc>> {
            Ok(self.0.iter().find(|d| d.id == did).cloned())
        }
    }
    let mut rng = w.rng.clone();
    let mut docs = vec![];
    let mut key = |did: &str, frag: &str, alg: Alg| {
        let k = Key::gen(&mut rng, &format!("{}#{}", did, frag), alg);
        let mut d = DocModel { did: did.into(), ..DocModel::default() };
        d.vms.push(VmModel { kid: k.kid.clone(), mat: Mat::Good(k.clone(), Fmt::Jwk) });
        if alg == Alg::X25519 {
            d.ka.push(k.kid.clone());
        } else {
            d.auth.push(k.kid.clone());
        }
        docs.push(d.to_lib());
        k
    };
    let reader = key("did:sim:reader", "keys/1", Alg::X25519);
    let plain = key("did:sim:plain", "keys-1", Alg::X25519);
    let sender = key("did:sim:sender", "keys/2", Alg::X25519);
    let signer = key("did:sim:signer", "keys/3", Alg::Ed25519);
    let wallet = didcomm::secrets::resolvers::ExampleSecretsResolver::new(vec![reader.secret(Fmt::Jwk), plain.secret(Fmt::Jwk)]);
    let dr = Docs(docs);
    let opts = UnpackOptions::default();
    let body = json!({"id": "1", "typ": TYP_PLAIN, "type": "https://example.org/t", "body": {"a": 1}});
    let pick = w.ch.draw(3);
    for style in 0..2 {
        let (what, text) = match pick {
            0 => {
                let mut s = JweSpec::anon(XC, vec![reader.clone()]);
                s.escape = style;
                ("recipient did:sim:reader#keys/1", jwe_encode(&mut rng, &s, body.to_string().as_bytes()).text)
            }
            1 => {
                let mut s = JweSpec::auth(sender.clone(), vec![plain.clone()]);
                s.escape = style;
                ("sender did:sim:sender#keys/2", jwe_encode(&mut rng, &s, body.to_string().as_bytes()).text)
            }
            _ => {
                let mut s = SigSpec::honest(&signer);
                s.escape = style;
                ("signer did:sim:signer#keys/3", jws_encode(&[s], body.to_string().as_bytes(), false, false))
            }
        };
        let mut op = Box::pin(Message::unpack(&text, &dr, &wallet, &opts));
        let r = std::future::Future::poll(op.as_mut(), &mut std::task::Context::from_waker(std::task::Waker::noop()));
        let how = ["written as it is", "with its slash escaped"][style as usize];
        match r {
            std::task::Poll::Ready(Ok((m, _))) if m.body == body["body"] => {}
            std::task::Poll::Ready(Err(e)) => w.violation(&["C21"], format!("C21 key name with slash: {}, {}, is refused as {:?}", what, how, e.kind())),
            _ => w.violation(&["C21"], format!("C21 key name with slash: {}, {}, gives something else", what, how)),
        }
    }
    w.rng = rng;
}

pub fn run(ch: Choices, seed: u64, focus: &str) -> RunOut {
    askar_crypto::sim::seed(seed);
    askar_crypto::sim::record(true);
    let ex = Exec::new();
    let mut world = new_world(ch, seed, focus);
    // where the clocks stand; they may also jump
    let base = [1_700_000_000u64, 0, 4_102_444_800, 1][world.ch.draw(4) as usize];
    exec::set_wall(base);
    setup(&mut world);
    if focus == "C01" && world.ch.chance(1, 16) {
        digits(&mut world);
    }
    if focus == "C21" && world.ch.chance(1, 16) {
        escaped_names(&mut world);
    }
    let wr: Wr = Rc::new(RefCell::new(world));
    {
        let mut w = wr.borrow_mut();
        let table = weights(focus);
        let n = w.cfg.actions;
        let mut plan = vec![];
        for i in 0..n {
            // the plain case first: an exchange
            let k = if i < 2 { 0 } else { w.ch.weighted(&table) };
            let at = w.ch.draw(40) * 2_000;
            plan.push((k, at));
        }
        let t = format!("{} persons, {} mediators, {} actions, faults {}% cancel {}% corrupt {}% loss {}% dup {}%", w.cfg.persons, w.cfg.mediators, n, w.cfg.fault_pct, w.cfg.cancel_pct, w.cfg.corrupt_pct, w.cfg.loss_pct, w.cfg.dup_pct);
        w.log(t);
        let parts = w.ch.weighted(&[3, 1, 1]);
        let mut cuts = vec![];
        for _ in 0..parts {
            let nd = w.devs.len() as u64;
            cuts.push((w.ch.draw(nd) as usize, w.ch.draw(20) * 4_000, w.ch.range(1, 10) * 4_000));
        }
        let jump = if w.ch.chance(1, 4) { Some((w.ch.draw(20) * 4_000, [86_400u64, 3_153_600_000, 0][w.ch.draw(3) as usize])) } else { None };
        drop(w);
        for (k, at) in plan {
            act(&wr, k, at);
        }
        for (d, at, len) in cuts {
            let w = wr.clone();
            exec::spawn("partition".into(), async move {
                delay(at).await;
                w.borrow_mut().partitioned.insert(d);
                delay(len).await;
                w.borrow_mut().partitioned.remove(&d);
            });
        }
        if let Some((at, to)) = jump {
            let w = wr.clone();
            exec::spawn("clock".into(), async move {
                delay(at).await;
                w.borrow_mut().stat("fault.clock.jump");
                exec::set_wall(to);
            });
        }
    }
    let wp = wr.clone();
    let mut pick_task = move |n: u64| wp.borrow_mut().ch.draw(n);
    let e = ex.run(&mut pick_task);
    ended(&wr, e);
    // faults stop: everything honest arrives, judged by what can be known now
    let heal = {
        let mut w = wr.borrow_mut();
        w.cfg.faults_on = false;
        w.partitioned.clear();
        w.log("faults stop".into());
        let docs: Vec<Rc<DocModel>> = w.registry.values().filter_map(|v| v.last().cloned()).collect();
        for d in 0..w.devs.len() {
            for m in &docs {
                learn(&mut w, d, m);
            }
        }
        w.deliveries = w.deliveries.min(150);
        std::mem::take(&mut w.lost)
    };
    for (t, p, to) in heal.into_iter().take(30) {
        wr.borrow_mut().stat("redelivered");
        send(&wr, t, p, to, 0);
    }
    let e = ex.run(&mut pick_task);
    ended(&wr, e);
    let out = {
        let w = wr.borrow();
        RunOut {
            viols: w.viols.clone(),
            trace: w.trace.clone(),
            choices: w.ch.rec.clone(),
            stats: w.stats.clone(),
            cover: w.cover.clone(),
            order: ex.order.get(),
            time: ex.now.get(),
            polls: ex.polls.get(),
        }
    };
    drop(pick_task);
    ex.clear();
    askar_crypto::sim::record(false);
    out
}
