//! Attackers, independent peers, transit damage and hostile data.
use crate::keys::*;
use crate::msgs::Gen;
use crate::oracle::select_service;
use crate::peer::*;
use crate::world::*;
use didcomm::did::{VerificationMaterial, VerificationMethodType};
use didcomm::secrets::{Secret, SecretMaterial, SecretType};
use serde_json::{json, Map, Value};
use std::rc::Rc;

pub fn pick<T: Clone>(w: &mut World, v: &[T]) -> Option<T> {
    if v.is_empty() {
        return None;
    }
    let i = w.ch.draw(v.len() as u64) as usize;
    Some(v[i].clone())
}

pub fn ka_keys(w: &World, did: &str) -> Vec<Key> {
    match w.latest(did) {
        None => vec![],
        Some(d) => d.ka.iter().filter_map(|k| d.vm(k)).filter_map(|v| v.key().cloned()).collect(),
    }
}
pub fn auth_keys(w: &World, did: &str) -> Vec<Key> {
    match w.latest(did) {
        None => vec![],
        Some(d) => d.auth.iter().filter_map(|k| d.vm(k)).filter_map(|v| v.key().cloned()).filter(|k| sig_alg(k.alg).is_some()).collect(),
    }
}
pub fn of_curve(k: &[Key], a: Alg) -> Vec<Key> {
    k.iter().filter(|k| k.alg == a).cloned().collect()
}

pub fn mallory(w: &World) -> String {
    w.idents.iter().find(|i| i.kind == Kind::Mallory).unwrap().did.clone()
}

pub fn persons(w: &World) -> Vec<String> {
    w.idents.iter().filter(|i| i.kind == Kind::Person && !i.devices.is_empty()).map(|i| i.did.clone()).collect()
}

/// A plaintext message with its meaning and marker.
pub fn plaintext(w: &mut World, from: Option<String>, to: Option<Vec<String>>, from_prior: Option<String>) -> (didcomm::Message, Value, String) {
    w.next_msg += 1;
    let marker = format!("zq{}m{}e", w.nonce, w.next_msg);
    let id = match w.ch.draw(4) {
        0 => format!("id-{}", marker),
        1 => format!("{}", w.next_msg),
        2 => String::new(),
        _ => format!("\u{2603} {}", marker),
    };
    let mut g = Gen { ch: &mut w.ch, marker: marker.clone() };
    let (m, v) = g.message(id, from, to, from_prior);
    (m, v, marker)
}

fn common(w: &mut World, a: &str, b: &str) -> Option<(Key, Vec<Key>)> {
    let (x, y) = (ka_keys(w, a), ka_keys(w, b));
    let mut opts = vec![];
    for c in [Alg::X25519, Alg::P256] {
        if !of_curve(&y, c).is_empty() {
            for k in of_curve(&x, c) {
                opts.push((k, of_curve(&y, c)));
            }
        }
    }
    let (k, mut ys) = pick(w, &opts)?;
    // any order, sometimes a subset
    for i in (1..ys.len()).rev() {
        let j = w.ch.draw(i as u64 + 1) as usize;
        ys.swap(i, j);
    }
    if ys.len() > 1 && w.ch.chance(1, 4) {
        ys.truncate(1);
    }
    Some((k, ys))
}

fn anon_keys(w: &mut World, did: &str) -> Option<Vec<Key>> {
    let k = ka_keys(w, did);
    let mut opts = vec![];
    for c in [Alg::X25519, Alg::P256] {
        let v = of_curve(&k, c);
        if !v.is_empty() {
            opts.push(v);
        }
    }
    let mut v = pick(w, &opts)?;
    for i in (1..v.len()).rev() {
        let j = w.ch.draw(i as u64 + 1) as usize;
        v.swap(i, j);
    }
    Some(v)
}

fn any_enc(w: &mut World) -> &'static str {
    [XC, CBC, GCM][w.ch.draw(3) as usize]
}

/// How a serializer escapes strings.
fn escaping(w: &mut World) -> u64 {
    if w.ch.chance(1, 3) {
        // escaped slashes in key names are refused (known_findings.txt)
        if w.idents.iter().any(|i| i.keys.iter().any(|k| k.0.kid.contains('/'))) {
            return 2;
        }
        w.ch.range(1, 4)
    } else {
        0
    }
}

/// Variations a correct peer is free to choose.
fn vary(w: &mut World, s: &mut JweSpec) {
    s.reversed = w.ch.chance(1, 3);
    s.spaced = w.ch.chance(1, 4);
    s.escape = escaping(w);
    if w.ch.chance(1, 4) {
        s.extra_top.push(("unprotected".into(), json!({"note": 1})));
    }
    if w.ch.chance(1, 4) {
        s.extra_protected.push(("zz".into(), json!(["later", 1])));
    }
    s.extra_recipient = w.ch.chance(1, 4);
    if w.ch.chance(1, 4) {
        for (n, v) in [("kid", "e1"), ("use", "enc"), ("alg", "ECDH-ES+A256KW"), ("x-made-by", "peer")] {
            if w.ch.chance(1, 2) {
                s.epk_extra.push((n.into(), json!(v)));
            }
        }
    }
    if w.ch.chance(1, 5) {
        s.typ = None;
    }
    if s.sender.is_some() && w.ch.chance(1, 3) {
        s.skid = None;
    }
}

/// A rotation notice as an independent peer may write it.
pub fn peer_notice(w: &mut World, key: &Key, iss: &str, sub: &str) -> String {
    let mut h: Vec<(String, Value)> = vec![("typ".into(), json!("JWT")), ("alg".into(), json!(sig_alg(key.alg).map(|a| a.0))), ("kid".into(), json!(key.kid))];
    let mut p: Vec<(String, Value)> = vec![("iss".into(), json!(iss)), ("sub".into(), json!(sub))];
    if w.ch.chance(1, 3) {
        h.push(("cty".into(), json!("x/y+z")));
    }
    for n in ["exp", "nbf", "iat"] {
        if w.ch.chance(1, 4) {
            p.push((n.into(), [json!(0), json!(1_700_000_000u64), json!(1u64 << 60), Value::Null][w.ch.draw(4) as usize].clone()));
        }
    }
    for n in ["aud", "jti", "x+note"] {
        if w.ch.chance(1, 4) {
            p.push((n.into(), [json!(""), json!("a/b+c \u{e9}\u{1f511}"), json!(sub)][w.ch.draw(3) as usize].clone()));
        }
    }
    let mut seg = |w: &mut World, m: Vec<(String, Value)>| {
        let m = m.into_iter().map(|(k, v)| (k, v.to_string())).collect();
        let t = obj(m, w.ch.chance(1, 3), w.ch.chance(1, 4));
        b64(restyle(&t, escaping(w)))
    };
    let (a, b) = (seg(w, h), seg(w, p));
    let s = sign_raw(key, format!("{}.{}", a, b).as_bytes());
    format!("{}.{}.{}", a, b, b64(s))
}

/// A notice that identity `a` used to be somebody else.
pub fn any_notice(w: &mut World, a: &str) -> Option<String> {
    let iss: Vec<String> = w.idents.iter().filter(|i| i.kind == Kind::Person && i.did != a).map(|i| i.did.clone()).collect();
    let i = pick(w, &iss)?;
    let keys = auth_keys(w, &i);
    let k = pick(w, &keys)?;
    Some(peer_notice(w, &k, &i, a))
}

/// The text form an independent peer gives a message.
fn foreign_text(w: &mut World, v: &Value) -> String {
    let o = v.as_object().unwrap();
    let mut m: Vec<(String, String)> = o
        .iter()
        .filter(|(k, _)| !(k.as_str() == "typ"))
        .map(|(k, v)| (k.clone(), v.to_string()))
        .collect();
    if !w.ch.chance(1, 4) {
        m.insert(0, ("typ".into(), format!("\"{}\"", TYP_PLAIN)));
    }
    if w.ch.chance(1, 5) {
        if !o.contains_key("thid") {
            m.push(("thid".into(), "null".into()));
        }
        if !o.contains_key("attachments") {
            m.push(("attachments".into(), "null".into()));
        }
    }
    let t = obj(m, w.ch.chance(1, 2), w.ch.chance(1, 3));
    restyle(&t, escaping(w))
}

/// A message from a correct independent implementation acting for identity `a`, to identity `b`.
pub fn peer_message(w: &mut World, a: &str, b: &str, from_prior: Option<String>) -> Option<(String, Prov)> {
    let to = if w.ch.chance(1, 2) { Some(vec![b.to_string()]) } else { None };
    let from = if w.ch.chance(2, 3) { Some(a.to_string()) } else { None };
    let (_, v, marker) = plaintext(w, from, to, from_prior);
    let text = foreign_text(w, &v);
    let mode = w.ch.draw(6);
    let mut sign_kid = None;
    let mut inner = text.clone();
    let mut rng = w.rng.clone();
    if mode >= 3 || mode == 1 {
        let keys = auth_keys(w, a);
        if let Some(k) = pick(w, &keys) {
            let mut s = SigSpec::honest(&k);
            s.extra = w.ch.chance(1, 4);
            s.escape = escaping(w);
            if w.ch.chance(1, 6) {
                s.typ = None;
            }
            inner = jws_encode(&[s], inner.as_bytes(), w.ch.chance(1, 2), w.ch.chance(1, 3));
            sign_kid = Some(k.kid);
        }
    }
    let mut from_kid = None;
    let mut enc = false;
    let mut hidden = false;
    let label: &'static str;
    match mode {
        0 => label = "plain",
        1 => label = "signed",
        2 | 3 => {
            let keys = anon_keys(w, b)?;
            let e = any_enc(w);
            let mut s = JweSpec::anon(e, keys);
            vary(w, &mut s);
            inner = jwe_encode(&mut rng, &s, inner.as_bytes()).text;
            enc = true;
            hidden = true;
            label = "anon";
        }
        _ => {
            let (k, to) = common(w, a, b)?;
            let mut s = JweSpec::auth(k.clone(), to.clone());
            vary(w, &mut s);
            inner = jwe_encode(&mut rng, &s, inner.as_bytes()).text;
            from_kid = Some(k.kid);
            enc = true;
            if w.ch.chance(1, 3) {
                let e = any_enc(w);
                let mut s = JweSpec::anon(e, to);
                vary(w, &mut s);
                inner = jwe_encode(&mut rng, &s, inner.as_bytes()).text;
                hidden = true;
                label = "protected";
            } else {
                label = "auth";
            }
        }
    }
    w.rng = rng;
    let content = v.to_string();
    for k in [&from_kid, &sign_kid].iter().copied().flatten() {
        w.ledger.insert((k.clone(), content.clone()));
    }
    let o = Origin {
        msg: v,
        marker,
        from_did: Some(a.to_string()),
        to_did: b.to_string(),
        auth: from_kid.is_some(),
        hidden,
        anon: enc && from_kid.is_none(),
        encrypted: enc,
        sign_kid,
        from_kid,
        desc: format!("peer {} to {}", a, b),
    };
    // sometimes forwarded to the receiver's own key, as a mediator may re-wrap
    if enc && w.ch.chance(1, 5) {
        let n = if inner.len() < 4_000 && w.ch.chance(1, 8) { w.ch.range(4, 14) } else { w.ch.range(1, 3) };
        for _ in 0..n {
            let keys = anon_keys(w, b)?;
            let next = if w.ch.chance(1, 2) { keys[0].kid.clone() } else { b.to_string() };
            inner = rewrap(w, &inner, &next, keys);
        }
        return Some((inner, Prov::Peer(Rc::new(o), "rewrapped")));
    }
    Some((inner, Prov::Peer(Rc::new(o), label)))
}

/// A forward as an independent mediator may write it.
pub fn rewrap(w: &mut World, inner: &str, next: &str, keys: Vec<Key>) -> String {
    rewrap_as(w, inner, next, keys, false)
}

/// With `almost`, something that only looks like a forward.
fn rewrap_as(w: &mut World, inner: &str, next: &str, keys: Vec<Key>, almost: bool) -> String {
    w.next_msg += 1;
    let inner: Value = serde_json::from_str(inner).unwrap();
    let mut f = json!({
        "id": format!("fw{}", w.next_msg), "typ": TYP_PLAIN, "type": FORWARD, "body": {"next": next},
        "attachments": [{"data": {"json": inner}}],
    });
    if w.ch.chance(1, 2) {
        for _ in 0..w.ch.range(1, 3) {
            match w.ch.draw(12) {
                8 => f["from"] = json!(["did:sim:relay", split_id(next).0, "relay"][w.ch.draw(3) as usize]),
                9 => f["thid"] = json!("relay-1"),
                10 => f["created_time"] = json!(1_600_000_000u64),
                11 => f["attachments"][0]["format"] = json!("dif/x"),
                0 => f["attachments"][0]["id"] = json!("a-1"),
                1 => f["attachments"][0]["media_type"] = json!("application/didcomm-encrypted+json"),
                2 => f["attachments"][0]["byte_count"] = json!(inner.to_string().len()),
                3 => f["expires_time"] = json!(1_900_000_000u64),
                4 => f["to"] = json!([split_id(next).0]),
                5 => f["body"]["please_ack"] = json!([]),
                6 => f["delay_milli"] = json!(1200),
                _ => {
                    let more = [json!({"data": {"base64": "aGk"}}), json!({"data": {"json": {"seen": true}}, "description": "relay log"}), json!({"data": {"links": ["https://relay.example/log"], "hash": "zQ"}})];
                    let m = pick(w, &more).unwrap();
                    f["attachments"].as_array_mut().unwrap().push(m);
                }
            }
        }
    }
    if almost {
        match w.ch.draw(16) {
            14 | 15 => f["body"]["next"] = json!(["", " ", "#", "did:", "nobody", "https://relay.example"][w.ch.draw(6) as usize]),
            12 | 13 => {
                let odd = [json!(inner.to_string()), json!([inner.clone()]), json!(""), json!(7), json!(true), Value::Null, json!({}), json!([])];
                f["attachments"][0]["data"]["json"] = pick(w, &odd).unwrap();
            }
            0 => f["type"] = json!("https://didcomm.org/routing/2.0/Forward"),
            1 => f["type"] = json!("https://didcomm.org/routing/2.0/forward/"),
            2 => f["type"] = json!("http://didcomm.org/routing/2.0/forward"),
            3 => f["type"] = json!("https://didcomm.org/routing/1.0/forward"),
            4 => f["type"] = json!("https://example.com/routing/2.0/forward"),
            5 => f["type"] = json!("backup/1.0/store"),
            6 => f["body"] = json!({"to": next}),
            7 => f["body"]["next"] = json!([next]),
            8 => f["body"] = json!(next),
            9 => {
                f.as_object_mut().unwrap().remove("attachments");
            }
            10 => f["attachments"] = json!([]),
            _ => f["attachments"].as_array_mut().unwrap().insert(0, json!({"data": {"base64": b64(inner.to_string())}})),
        }
    }
    let text = foreign_text(w, &f);
    let e = any_enc(w);
    let mut s = JweSpec::anon(e, keys);
    vary(w, &mut s);
    let mut rng = w.rng.clone();
    let t = jwe_encode(&mut rng, &s, text.as_bytes()).text;
    w.rng = rng;
    t
}

/// A re-wrap by a mediator that runs an independent implementation.
pub fn foreign_rewrap(w: &mut World, inner: &str, next: &str) -> Option<String> {
    let keys = anon_keys(w, split_id(next).0)?;
    Some(rewrap(w, inner, next, keys))
}

fn other(kid: &str) -> String {
    let (d, _) = split_id(kid);
    format!("{}#key-none", d)
}

pub fn split_frag(kid: &str) -> &str {
    kid.split('#').nth(1).unwrap_or("")
}

pub const N_FORGERIES: u64 = 39;

/// A message made by an attacker for identity `b`, impersonating `v` where that makes sense.
pub fn forge(w: &mut World, which: u64, b: &str, v: &str) -> Option<(String, Prov)> {
    let m = mallory(w);
    let (_, pv, _) = plaintext(w, Some(v.to_string()), None, None);
    let pt = pv.to_string();
    let mut rng = w.rng.clone();
    let bkeys = anon_keys(w, b)?;
    let r = (|| -> Option<(String, Prov)> {
        let f = |n: &'static str, p: &'static [&'static str]| Prov::Forged(n, p);
        Some(match which {
            // the sender's key ID of somebody else over one's own key
            0 => {
                let (mk, to) = common(w, &m, b)?;
                let vk = ka_keys(w, v).into_iter().find(|k| k.alg == mk.alg)?;
                let mut s = JweSpec::auth(mk, to);
                s.apu = Some(vk.kid.clone().into_bytes());
                s.skid = if w.ch.chance(1, 2) { Some(vk.kid) } else { None };
                (jwe_encode(&mut rng, &s, pt.as_bytes()).text, f("foreign sender key", &["C03"]))
            }
            // a co-recipient re-encrypts with the content key it learned
            1 => {
                let (vk, to) = common(w, v, b)?;
                let (_, hv, _) = plaintext(w, Some(v.to_string()), None, None);
                let s = JweSpec::auth(vk.clone(), to);
                let e = jwe_encode(&mut rng, &s, hv.to_string().as_bytes());
                w.ledger.insert((vk.kid.clone(), hv.to_string()));
                let mut j: Value = serde_json::from_str(&e.text).unwrap();
                let (iv, ct, tag) = seal(&mut rng, CBC, &e.cek, e.protected.as_bytes(), pt.as_bytes());
                if w.ch.chance(1, 2) {
                    j["iv"] = json!(iv);
                    j["ciphertext"] = json!(ct);
                    j["tag"] = json!(tag);
                } else {
                    // keep the old tag: the key wrapping still matches, the content does not
                    j["iv"] = json!(iv);
                    j["ciphertext"] = json!(ct);
                }
                (j.to_string(), f("content key reuse", &["C03", "C02"]))
            }
            2 => {
                let vk = pick(w, &auth_keys(w, v))?;
                let mk = auth_keys(w, &m).into_iter().find(|k| k.alg == vk.alg)?;
                let mut s = SigSpec::honest(&mk);
                s.kid = vk.kid;
                (wrap_maybe(w, b, &mut rng, jws_encode(&[s], pt.as_bytes(), false, false), &bkeys), f("foreign signature", &["C03", "C16"]))
            }
            // algorithm confusion
            3 => {
                let vk = pick(w, &auth_keys(w, v))?;
                let mk = auth_keys(w, &m).into_iter().find(|k| k.alg != vk.alg)?;
                let mut s = SigSpec::honest(&mk);
                s.kid = vk.kid;
                if w.ch.chance(1, 3) {
                    s.alg = "none".into();
                    s.sig = Some(vec![]);
                }
                (wrap_maybe(w, b, &mut rng, jws_encode(&[s], pt.as_bytes(), false, false), &bkeys), f("signature algorithm confusion", &["C03", "C16"]))
            }
            // two signatures of which one is good
            4 => {
                let mk = pick(w, &auth_keys(w, &m))?;
                let vk = pick(w, &auth_keys(w, v))?;
                let good = SigSpec::honest(&mk);
                let mut bad = SigSpec::honest(&mk);
                bad.kid = vk.kid;
                let v = if w.ch.chance(1, 2) { vec![good, bad] } else if w.ch.chance(1, 2) { vec![bad, good] } else { vec![good.clone(), good] };
                (wrap_maybe(w, b, &mut rng, jws_encode(&v, pt.as_bytes(), false, false), &bkeys), f("two signatures", &["C16", "C03"]))
            }
            5 => (wrap_maybe(w, b, &mut rng, jws_encode(&[], pt.as_bytes(), false, false), &bkeys), f("no signature", &["C16", "C03"])),
            // a key listed for agreement only
            6 => {
                let k = ka_keys(w, &m).into_iter().find(|k| k.alg == Alg::P256)?;
                (wrap_maybe(w, b, &mut rng, jws_encode(&[SigSpec::honest(&k)], pt.as_bytes(), false, false), &bkeys), f("signature by agreement key", &["C03", "C16"]))
            }
            // a key listed for authentication only
            7 => {
                let to = of_curve(&ka_keys(w, b), Alg::P256);
                let k = auth_keys(w, &m).into_iter().find(|k| k.alg == Alg::P256)?;
                if to.is_empty() {
                    return None;
                }
                (jwe_encode(&mut rng, &JweSpec::auth(k, to), pt.as_bytes()).text, f("sender uses authentication key", &["C03"]))
            }
            // a withdrawn key that leaked
            8 | 9 => {
                let i = w.ident_of(v)?;
                let doc = w.latest(v)?;
                let old: Vec<Key> = w.idents[i]
                    .keys
                    .iter()
                    .map(|k| k.0.clone())
                    .filter(|k| doc.vm(&k.kid).and_then(|x| x.key()).map(|x| x.x != k.x).unwrap_or(true) || !(doc.ka.contains(&k.kid) || doc.auth.contains(&k.kid)))
                    .collect();
                // who has not heard of the withdrawal yet is deceived
                for k in &old {
                    let c = pt.clone();
                    w.ledger.insert((k.kid.clone(), c));
                }
                if which == 8 {
                    let k = pick(w, &old.iter().filter(|k| !of_curve(&ka_keys(w, b), k.alg).is_empty()).cloned().collect::<Vec<_>>())?;
                    let to = of_curve(&ka_keys(w, b), k.alg);
                    (jwe_encode(&mut rng, &JweSpec::auth(k, to), pt.as_bytes()).text, f("withdrawn sender key", &["C03", "C11"]))
                } else {
                    let k = pick(w, &old.iter().filter(|k| sig_alg(k.alg).is_some()).cloned().collect::<Vec<_>>())?;
                    (wrap_maybe(w, b, &mut rng, jws_encode(&[SigSpec::honest(&k)], pt.as_bytes(), false, false), &bkeys), f("withdrawn signing key", &["C03", "C16", "C11"]))
                }
            }
            // contradictory headers by a legitimate key holder
            10..=17 => {
                let auth = w.ch.chance(1, 2);
                let mut s = if auth {
                    let (k, to) = common(w, &m, b)?;
                    JweSpec::auth(k, to)
                } else {
                    let e = any_enc(w);
                    JweSpec::anon(e, bkeys.clone())
                };
                if w.ch.chance(1, 3) {
                    s.typ = None;
                }
                let kids: Vec<String> = s.recips.iter().map(|k| k.kid.clone()).collect();
                let name: &'static str;
                match which {
                    10 => {
                        let good = apv_of(&kids);
                        let mut sorted = kids.clone();
                        sorted.sort();
                        let mut rev = sorted.clone();
                        rev.reverse();
                        let sha = |s: &str| -> Vec<u8> {
                            use sha2::Digest;
                            sha2::Sha256::digest(s.as_bytes()).to_vec()
                        };
                        let c = match w.ch.draw(9) {
                            0 => vec![],
                            1 => good[..16].to_vec(),
                            2 => [good.clone(), vec![0]].concat(),
                            3 => sha(&sorted.join(",")),
                            4 => sha(&rev.join(".")),
                            5 => sha(&sorted[0]),
                            6 => sorted.join(".").into_bytes(),
                            7 => sha(&sorted.concat()),
                            _ => {
                                let mut g = good.clone();
                                let i = w.ch.draw(32) as usize;
                                g[i] ^= 1 << w.ch.draw(8);
                                g
                            }
                        };
                        if c == good {
                            return None;
                        }
                        s.apv = Some(c);
                        name = "recipients digest";
                    }
                    // digest of another recipient set
                    11 => {
                        let mut k = kids.clone();
                        match w.ch.draw(3) {
                            0 => k.push(other(&kids[0])),
                            1 if k.len() > 1 => {
                                k.pop();
                            }
                            _ => k = ka_keys(w, v).iter().map(|k| k.kid.clone()).collect(),
                        }
                        if apv_of(&k) == apv_of(&kids) {
                            return None;
                        }
                        s.apv = Some(apv_of(&k));
                        name = "digest of other recipients";
                    }
                    12 => {
                        let vk = pick(w, &ka_keys(w, v))?;
                        match w.ch.draw(11) {
                            0 | 1 => s.skid = Some(vk.kid),
                            2 => s.skid = Some(s.recips[0].kid.clone()),
                            3 => s.skid = Some(String::new()),
                            // the two agree in part
                            4 if auth => s.apu = Some(vk.kid.split('#').next().unwrap().into()),
                            5 if auth => s.skid = Some(vk.kid.split('#').next().unwrap().into()),
                            6 if auth && vk.kid.to_uppercase() != vk.kid => {
                                s.skid = Some(vk.kid.clone());
                                s.apu = Some(vk.kid.to_uppercase().into_bytes());
                            }
                            7 if auth => {
                                s.skid = Some(vk.kid.clone());
                                s.apu = Some((vk.kid + "\n").into_bytes());
                            }
                            8..=10 if auth => {
                                let own = s.skid.clone()?;
                                s.skid = Some(match w.ch.draw(4) {
                                    0 => format!("{}{}", [" ", "\t", "\n", "\u{0}"][w.ch.draw(4) as usize], own),
                                    1 => format!("{}{}", own, [" ", "\t", "\n", "\u{0}"][w.ch.draw(4) as usize]),
                                    _ => almost(w, &own),
                                });
                            }
                            8 | 9 if !auth => {
                                let n = match w.ch.draw(3) {
                                    0 => format!("{} ", vk.kid),
                                    1 => format!(" {}", vk.kid),
                                    _ => almost(w, &vk.kid),
                                };
                                let (a, k) = if w.ch.chance(1, 2) { (n, vk.kid) } else { (vk.kid, n) };
                                s.apu = Some(a.into_bytes());
                                s.skid = Some(k);
                            }
                            _ => s.skid = Some(s.skid.clone().unwrap_or(vk.kid) + "x"),
                        }
                        if s.apu.is_none() && !auth {
                            name = "sender key without sender party";
                        } else {
                            name = "sender key differs from sender party";
                        }
                    }
                    13 => {
                        if !auth {
                            return None;
                        }
                        s.apu = None;
                        name = "sender key without sender party";
                    }
                    14 => {
                        s.recips = vec![];
                        s.epk = Some(Key::gen(&mut rng, "e", Alg::X25519));
                        name = "no recipients";
                    }
                    15 => {
                        // somebody else's key of the same curve joins
                        let x = ka_keys(w, v).into_iter().find(|k| k.alg == s.recips[0].alg)?;
                        if v == b {
                            return None;
                        }
                        if w.ch.chance(1, 2) {
                            s.recips.push(x);
                        } else {
                            s.recips.insert(0, x);
                        }
                        name = "recipients of two DIDs";
                    }
                    16 => {
                        let mut k = kids.clone();
                        let i = w.ch.draw(k.len() as u64) as usize;
                        if w.ch.chance(1, 2) {
                            // an entry under a name much like the recipient's
                            let n = format!("{}{}", almost(w, b), &kids[i][split_id(&kids[i]).0.len()..]);
                            if k.len() == 1 || w.ch.chance(1, 2) {
                                s.recips.push(s.recips[i].clone());
                                k.push(n);
                            } else {
                                k[i] = n;
                            }
                        } else if k.len() == 1 {
                            // an extra entry naming just the DID
                            s.recips.push(s.recips[0].clone());
                            k.push(b.to_string());
                        } else {
                            k[i] = b.to_string();
                        }
                        s.kids = Some(k);
                        name = "recipient without key or of another DID";
                    }
                    _ => {
                        // bytes that are no text
                        s.apu = Some(vec![0xff, 0xfe, 0x41]);
                        if w.ch.chance(1, 2) {
                            s.skid = None;
                        }
                        name = "sender party is no text";
                        if !auth {
                            return Some((jwe_encode(&mut rng, &s, pt.as_bytes()).text, f(name, &["C12"])));
                        }
                    }
                }
                if s.recips.is_empty() && auth {
                    s.sender = None;
                }
                (jwe_encode(&mut rng, &s, pt.as_bytes()).text, f(name, &["C15"]))
            }
            // names exchanged among the recipients
            18 => {
                let (vk, to) = common(w, v, b)?;
                if to.len() < 2 {
                    return None;
                }
                let mut s = JweSpec::auth(vk.clone(), to.clone());
                s.kids = Some(to.iter().rev().map(|k| k.kid.clone()).collect());
                w.ledger.insert((vk.kid.clone(), pt.clone()));
                (jwe_encode(&mut rng, &s, pt.as_bytes()).text, f("names of recipients exchanged", &["C02", "C04"]))
            }
            // unusual algorithm combinations
            19 => {
                let (k, to) = common(w, &m, b)?;
                let mut s = JweSpec::auth(k, to);
                match w.ch.draw(3) {
                    0 => s.enc = GCM,
                    1 => s.enc = XC,
                    _ => s.alg = "ECDH-ES".into(),
                }
                (jwe_encode(&mut rng, &s, pt.as_bytes()).text, f("unusual algorithms", &["C12", "C02"]))
            }
            // sender authenticated by name only: anonymous algorithm with a sender header
            20 => {
                let vk = pick(w, &ka_keys(w, v))?;
                let e = any_enc(w);
                let mut s = JweSpec::anon(e, bkeys.clone());
                s.skid = Some(vk.kid.clone());
                s.apu = Some(vk.kid.into_bytes());
                (jwe_encode(&mut rng, &s, pt.as_bytes()).text, f("anonymous with sender header", &["C03", "C06"]))
            }
            // derivation downgraded to the anonymous one under the authenticated name
            21 => {
                let vk = ka_keys(w, v).into_iter().find(|k| k.alg == bkeys[0].alg)?;
                let mut s = JweSpec::anon(CBC, bkeys.clone());
                s.alg = PU.into();
                s.skid = Some(vk.kid.clone());
                s.apu = Some(vk.kid.into_bytes());
                (jwe_encode(&mut rng, &s, pt.as_bytes()).text, f("downgraded derivation", &["C03"]))
            }
            // the sender key replaced by the recipient's own or the ephemeral one
            22 => {
                let (mk, to) = common(w, &m, b)?;
                let vk = ka_keys(w, v).into_iter().find(|k| k.alg == mk.alg)?;
                let mut s = JweSpec::auth(vk, to);
                let e = Key::gen(&mut rng, "e", mk.alg);
                s.epk = Some(e.clone());
                s.sender = Some(if w.ch.chance(1, 2) { e } else { mk });
                (jwe_encode(&mut rng, &s, pt.as_bytes()).text, f("sender key is the ephemeral one", &["C03"]))
            }
            // layers in unusual order
            23 => {
                let (k, to) = common(w, &m, b)?;
                let e = any_enc(w);
                let mut t = pt.clone();
                let n = w.ch.range(2, 4);
                for _ in 0..n {
                    t = match w.ch.draw(3) {
                        0 => jwe_encode(&mut rng, &JweSpec::anon(e, bkeys.clone()), t.as_bytes()).text,
                        1 => jwe_encode(&mut rng, &JweSpec::auth(k.clone(), to.clone()), t.as_bytes()).text,
                        _ => {
                            let sk = pick(w, &auth_keys(w, &m))?;
                            jws_encode(&[SigSpec::honest(&sk)], t.as_bytes(), false, false)
                        }
                    };
                }
                (t, f("layers in unusual order", &["C06", "C03"]))
            }
            // a forward to the receiver itself carrying something unprotected
            24 => {
                let next = if w.ch.chance(1, 2) { bkeys[0].kid.clone() } else { b.to_string() };
                let inner = match w.ch.draw(4) {
                    0 => pt.clone(),
                    1 => {
                        let sk = pick(w, &auth_keys(w, &m))?;
                        jws_encode(&[SigSpec::honest(&sk)], pt.as_bytes(), false, false)
                    }
                    2 => {
                        let (k, to) = common(w, &m, b)?;
                        jwe_encode(&mut rng, &JweSpec::auth(k, to), pt.as_bytes()).text
                    }
                    _ => {
                        let e = any_enc(w);
                        jwe_encode(&mut rng, &JweSpec::anon(e, bkeys.clone()), pt.as_bytes()).text
                    }
                };
                let keys = anon_keys(w, b)?;
                if w.ch.chance(1, 3) {
                    (rewrap_as(w, &inner, &next, keys, true), f("almost a forward", &["C09", "C06"]))
                } else {
                    (rewrap(w, &inner, &next, keys), f("forward to oneself", &["C06", "C09"]))
                }
            }
            // a forward to somebody else: must be handed out as it is
            25 => {
                let next = match w.ch.draw(5) {
                    0 => v.to_string(),
                    1 => pick(w, &ka_keys(w, v))?.kid,
                    2 => other(&bkeys[0].kid),
                    3 => auth_keys(w, b).first()?.kid.clone(),
                    _ => "did:sim:nowhere".to_string(),
                };
                let inner = jwe_encode(&mut rng, &JweSpec::anon(XC, bkeys.clone()), pt.as_bytes()).text;
                let keys = anon_keys(w, b)?;
                (rewrap(w, &inner, &next, keys), f("forward to another", &["C09", "C06"]))
            }
            // rotation notices
            26..=28 => {
                let jwt = forged_notice(w, &m, v, w.ch.rec.len() as u64 % 3 + 3 * (which - 26))?;
                let (_, x, _) = plaintext(w, Some(m.clone()), None, Some(jwt));
                let t = x.to_string();
                let t = match w.ch.draw(3) {
                    0 => t,
                    1 => jwe_encode(&mut rng, &JweSpec::anon(XC, bkeys.clone()), t.as_bytes()).text,
                    _ => {
                        let (k, to) = common(w, &m, b)?;
                        jwe_encode(&mut rng, &JweSpec::auth(k, to), t.as_bytes()).text
                    }
                };
                (t, f("rotation notice", &["C13"]))
            }
            // bad ephemeral keys
            29 => {
                let e = any_enc(w);
                let mut s = JweSpec::anon(e, bkeys.clone());
                let bad = match w.ch.draw(8) {
                    0 => json!(null),
                    1 => json!({}),
                    2 => json!({"kty": "OKP", "crv": "X25519", "x": ""}),
                    3 => json!({"kty": "OKP", "crv": "X25519", "x": "AAAA"}),
                    4 => json!({"kty": "EC", "crv": "P-256", "x": b64([1u8; 32]), "y": b64([1u8; 32])}),
                    5 => json!({"kty": "EC", "crv": "secp256k1", "x": b64([1u8; 32]), "y": b64([1u8; 32])}),
                    6 => Key::gen(&mut rng, "o", if bkeys[0].alg == Alg::P256 { Alg::X25519 } else { Alg::P256 }).public_jwk(),
                    _ => json!("no key"),
                };
                s.epk_json = Some(bad);
                (jwe_encode(&mut rng, &s, pt.as_bytes()).text, f("bad ephemeral key", &["C12"]))
            }
            // one entry of a multi-key message is damaged by the sender
            30 => {
                let e = any_enc(w);
                let s = match common(w, &m, b) {
                    Some((k, to)) if w.ch.chance(1, 2) => JweSpec::auth(k, to),
                    _ => JweSpec::anon(e, bkeys.clone()),
                };
                let mut j: Value = serde_json::from_str(&jwe_encode(&mut rng, &s, pt.as_bytes()).text).unwrap();
                let i = w.ch.draw(s.recips.len() as u64) as usize;
                let mut b = unb64(j["recipients"][i]["encrypted_key"].as_str().unwrap()).unwrap();
                let p = w.ch.draw(b.len() as u64) as usize;
                b[p] ^= 1 << w.ch.draw(8);
                j["recipients"][i]["encrypted_key"] = json!(b64(b));
                (j.to_string(), f("damaged entry", &["C14"]))
            }
            // two valid entries but for different content keys: only possible for a malicious sender
            31 => {
                if bkeys.len() < 2 {
                    return None;
                }
                let e = any_enc(w);
                let s = JweSpec::anon(e, bkeys.clone());
                let one: Value = serde_json::from_str(&jwe_encode(&mut rng, &s, pt.as_bytes()).text).unwrap();
                let two: Value = serde_json::from_str(&jwe_encode(&mut rng, &s, pt.as_bytes()).text).unwrap();
                let mut j = one.clone();
                j["recipients"][0] = two["recipients"][0].clone();
                (j.to_string(), f("entry of another message", &["C14", "C02"]))
            }
            // plaintext of a wrong kind, inside valid protection
            32 if w.ch.chance(1, 5) => {
                // not even text
                let mut t = pt.clone().into_bytes();
                match w.ch.draw(3) {
                    0 => t = vec![0xff, 0xfe, 0x00],
                    1 => {
                        let i = w.ch.draw(t.len() as u64) as usize;
                        t[i] = 0xc0;
                    }
                    _ => t.push(0xe2),
                }
                let k = w.ch.draw(3);
                let text = match (common(w, &m, b), pick(w, &auth_keys(w, &m))) {
                    (Some((k, to)), _) if w.ch.chance(1, 2) => jwe_encode(&mut rng, &JweSpec::auth(k, to), &t).text,
                    (_, Some(sk)) if k == 0 => {
                        let j = jws_encode(&[SigSpec::honest(&sk)], &t, false, false);
                        wrap_maybe(w, b, &mut rng, j, &bkeys)
                    }
                    _ => {
                        let e = any_enc(w);
                        jwe_encode(&mut rng, &JweSpec::anon(e, bkeys.clone()), &t).text
                    }
                };
                (text, f("no text inside", &["C12"]))
            }
            32 => {
                let mut x = pv.clone();
                match w.ch.draw(9) {
                    0 => x["typ"] = json!("application/didcomm-encrypted+json"),
                    1 => x["typ"] = json!(""),
                    2 => {
                        x.as_object_mut().unwrap().remove("body");
                    }
                    3 => {
                        x.as_object_mut().unwrap().remove("id");
                    }
                    4 => x["to"] = json!("did:sim:one"),
                    5 => x["created_time"] = json!("yesterday"),
                    6 => x["attachments"] = json!([{}]),
                    7 => x["typ"] = json!("application/didcomm-plain+json "),
                    _ => {
                        x.as_object_mut().unwrap().remove("type");
                    }
                }
                let t = x.to_string();
                (wrap_maybe(w, b, &mut rng, t, &bkeys), f("no valid message inside", &["C12", "C21"]))
            }
            // a co-recipient abuses a genuine message of the victim
            34 => {
                let t = co_recipient(w, &mut rng, b, &pt)?;
                let t = if w.ch.chance(1, 4) {
                    let e = any_enc(w);
                    jwe_encode(&mut rng, &JweSpec::anon(e, bkeys.clone()), t.as_bytes()).text
                } else {
                    t
                };
                (t, f("co-recipient reuses keys", &["C03", "C02"]))
            }
            // a broken signature by the very sender of the encrypted message
            35 | 36 => {
                let sk = pick(w, &auth_keys(w, &m))?;
                let (_, own, _) = plaintext(w, Some(m.clone()), None, None);
                let mut s = SigSpec::honest(&sk);
                let good = sign_raw(&sk, own.to_string().as_bytes());
                s.sig = match w.ch.draw(6) {
                    0 => Some(vec![]),
                    1 => Some(vec![0; good.len()]),
                    2 => Some(good),
                    3 => Some(good[..good.len() - 1].to_vec()),
                    _ => None,
                };
                let mut j: Value = serde_json::from_str(&jws_encode(&[s.clone()], own.to_string().as_bytes(), false, false)).unwrap();
                if s.sig.is_none() {
                    let x = j["signatures"][0]["signature"].as_str()?.to_string();
                    j["signatures"][0]["signature"] = json!(flip_b64(w, &x));
                }
                let (k, to) = common(w, &m, b)?;
                let mut t = jwe_encode(&mut rng, &JweSpec::auth(k, to), j.to_string().as_bytes()).text;
                if w.ch.chance(1, 3) {
                    let e = any_enc(w);
                    t = jwe_encode(&mut rng, &JweSpec::anon(e, bkeys.clone()), t.as_bytes()).text;
                }
                (t, f("broken signature by the sender", &["C16", "C02"]))
            }
            // the holder of one of the victim's keys (withdrawn, or meant for something else) uses another's name
            37 | 38 => {
                let i = w.ident_of(v)?;
                let doc = w.latest(v)?;
                let kept: Vec<Key> = w.idents[i].keys.iter().map(|k| k.0.clone()).collect();
                let listed = if which == 37 { auth_keys(w, v) } else { common(w, v, b).map(|c| vec![c.0])? };
                let mut pairs = vec![];
                for l in &listed {
                    for k in kept.iter().filter(|k| k.alg == l.alg && k.kid != l.kid && k.x != l.x) {
                        pairs.push((l.clone(), k.clone()));
                        // likelier with a method that is still published, and a name much like the other
                        if doc.vm(&k.kid).is_some() {
                            pairs.push((l.clone(), k.clone()));
                        }
                        let (x, y) = (split_frag(&l.kid), split_frag(&k.kid));
                        if x.ends_with(y) || y.ends_with(x) || x.starts_with(y) || y.starts_with(x) {
                            for _ in 0..4 {
                                pairs.push((l.clone(), k.clone()));
                            }
                        }
                    }
                }
                let (l, k) = pick(w, &pairs)?;
                if which == 37 {
                    let mut s = SigSpec::honest(&k);
                    s.kid = l.kid;
                    (wrap_maybe(w, b, &mut rng, jws_encode(&[s], pt.as_bytes(), false, false), &bkeys), f("signature by another key of the signer", &["C03", "C16"]))
                } else {
                    let to = of_curve(&ka_keys(w, b), k.alg);
                    let mut s = JweSpec::auth(k, to);
                    s.apu = Some(l.kid.clone().into_bytes());
                    s.skid = if w.ch.chance(1, 2) { Some(l.kid) } else { None };
                    (jwe_encode(&mut rng, &s, pt.as_bytes()).text, f("another key of the sender", &["C03"]))
                }
            }
            // a genuine signature moved to another payload or another protected header
            _ => {
                let vk = pick(w, &auth_keys(w, v))?;
                let (_, hv, _) = plaintext(w, Some(v.to_string()), None, None);
                let t = jws_encode(&[SigSpec::honest(&vk)], hv.to_string().as_bytes(), false, false);
                w.ledger.insert((vk.kid.clone(), hv.to_string()));
                let mut j: Value = serde_json::from_str(&t).unwrap();
                match w.ch.draw(3) {
                    0 => j["payload"] = json!(b64(&pt)),
                    1 => {
                        let p = b64(format!("{{\"typ\":\"{}\",\"alg\":\"{}\",\"x\":1}}", TYP_SIGNED, sig_alg(vk.alg).unwrap().0));
                        j["signatures"][0]["protected"] = json!(p);
                    }
                    _ => {
                        let mk = pick(w, &auth_keys(w, &m))?;
                        j["signatures"][0]["header"]["kid"] = json!(mk.kid);
                    }
                }
                let t = j.to_string();
                (wrap_maybe(w, b, &mut rng, t, &bkeys), f("signature moved", &["C02", "C03", "C16"]))
            }
        })
    })();
    w.rng = rng;
    // what the attacker signs with its own keys is its own message
    r
}

/// Bare, or inside anonymous or the attacker's own authenticated encryption.
fn wrap_maybe(w: &mut World, b: &str, rng: &mut askar_crypto::sim::Prng, t: String, keys: &[Key]) -> String {
    let kind = w.ch.draw(6);
    let m = mallory(w);
    let mut t = t;
    if kind >= 4 {
        if let Some((k, to)) = common(w, &m, b) {
            t = jwe_encode(rng, &JweSpec::auth(k, to), t.as_bytes()).text;
        }
    }
    if kind == 2 || kind == 3 || kind == 5 {
        let e = any_enc(w);
        t = jwe_encode(rng, &JweSpec::anon(e, keys.to_vec()), t.as_bytes()).text;
    }
    t
}

/// Everything `did` ever had, held by the devices that are its own.
fn ever(w: &World, kid: &str) -> Vec<Key> {
    match w.ident_of(split_id(kid).0) {
        Some(i) => w.idents[i].keys.iter().map(|k| k.0.clone()).filter(|k| k.kid == kid).collect(),
        None => vec![],
    }
}

/// A recipient of an authenticated message puts other content under the keys it was sent with.
fn co_recipient(w: &mut World, rng: &mut askar_crypto::sim::Prng, b: &str, pt: &str) -> Option<String> {
    let c: Vec<String> = w.packets.iter().filter(|p| p.1.must_accept() && p.1.origin().map(|o| o.auth && o.to_did == b).unwrap_or(false)).map(|p| p.0.clone()).collect();
    let text = pick(w, &c)?;
    let mut v: Value = serde_json::from_str(&text).ok()?;
    for _ in 0..3 {
        let j = parse_jwe(&v)?.ok()?;
        let kids = j.kids();
        let at = w.ch.draw(kids.len() as u64) as usize;
        let kid = kids.get(at)?.clone();
        if j.alg == PU {
            let skid = String::from_utf8(j.apu.clone()?).ok()?;
            for k in ever(w, &kid) {
                for s in ever(w, &skid) {
                    if let Some(cek) = j.cek(&kid, &k, Some(&s)) {
                        let mut out: Value = v.clone();
                        let (iv, ct, tag) = seal(rng, enc_known(&j.enc)?, &cek, j.protected_raw.as_bytes(), pt.as_bytes());
                        out["iv"] = json!(iv);
                        out["ciphertext"] = json!(ct);
                        if !w.ch.chance(1, 4) {
                            out["tag"] = json!(tag);
                        }
                        return Some(out.to_string());
                    }
                }
            }
            return None;
        }
        let inner = ever(w, &kid).iter().find_map(|k| j.open(&kid, k, None))?;
        v = serde_json::from_slice(&inner).ok()?;
    }
    None
}

/// Rotation notices nobody may accept (and a few that are fine).
pub fn forged_notice(w: &mut World, attacker: &str, victim: &str, which: u64) -> Option<String> {
    let payload = json!({"iss": victim, "sub": attacker, "iat": 1});
    let mk = pick(w, &auth_keys(w, attacker))?;
    let alg = sig_alg(mk.alg)?.0;
    Some(match which {
        // signed by another DID's valid key
        0 => jwt_encode(&mk, &mk.kid, alg, "JWT", &payload, false),
        // the victim's key ID over the attacker's signature
        1 => {
            let vk = pick(w, &auth_keys(w, victim))?;
            jwt_encode(&mk, &vk.kid, sig_alg(vk.alg)?.0, "JWT", &payload, w.ch.chance(1, 2))
        }
        // a key of the victim not listed for authentication
        2 => {
            let k = ka_keys(w, victim).into_iter().find(|k| k.alg == Alg::P256)?;
            jwt_encode(&k, &k.kid, "ES256", "JWT", &payload, false)
        }
        3 => {
            let t = jwt_encode(&mk, &mk.kid, alg, "JWT", &json!({"iss": attacker, "sub": victim}), false);
            let s: Vec<&str> = t.split('.').collect();
            format!("{}.{}.{}", s[0], b64(payload.to_string()), s[2])
        }
        4 => jwt_encode(&mk, &mk.kid, alg, ["JWS", "", "jwt", "JWT "][w.ch.draw(4) as usize], &json!({"iss": attacker, "sub": victim}), false),
        5 => {
            let vk = pick(w, &auth_keys(w, victim))?;
            let h = b64(json!({"typ": "JWT", "alg": "none", "kid": vk.kid}).to_string());
            format!("{}.{}.", h, b64(payload.to_string()))
        }
        6 => {
            // cut and stretched notices
            let t = jwt_encode(&mk, &mk.kid, alg, "JWT", &json!({"iss": attacker, "sub": victim}), false);
            match w.ch.draw(4) {
                0 => t[..w.ch.draw(t.len() as u64) as usize].to_string(),
                1 => format!("{}.", t),
                2 => format!("{}.{}", t, "AA"),
                _ => String::new(),
            }
        }
        7 => {
            // kid without key part, or of an unknown DID
            let k = if w.ch.chance(1, 2) { victim.to_string() } else { "did:sim:nowhere#key-1".to_string() };
            jwt_encode(&mk, &k, alg, "JWT", &payload, false)
        }
        // an earlier, withdrawn key of the victim
        _ => {
            let i = w.ident_of(victim)?;
            let doc = w.latest(victim)?;
            let old: Vec<Key> = w.idents[i].keys.iter().map(|k| k.0.clone()).filter(|k| sig_alg(k.alg).is_some() && doc.vm(&k.kid).and_then(|x| x.key()).map(|x| x.x != k.x).unwrap_or(true)).collect();
            let k = pick(w, &old)?;
            jwt_encode(&k, &k.kid, sig_alg(k.alg)?.0, "JWT", &payload, false)
        }
    })
}

fn flip_b64(w: &mut World, s: &str) -> String {
    match unb64(s) {
        Some(mut b) if !b.is_empty() => {
            let i = w.ch.draw(b.len() as u64) as usize;
            b[i] ^= 1 << w.ch.draw(8);
            b64(b)
        }
        _ => format!("{}A", s),
    }
}

/// Text that is no base64url any more.
fn not_b64(w: &mut World, s: &str) -> String {
    let i = w.ch.draw(s.len() as u64 + 1) as usize;
    if !s.is_ascii() || s.is_empty() {
        return "*".into();
    }
    match w.ch.draw(4) {
        0 => format!("{}{}{}", &s[..i], ["+", "/", "*", " ", "=", "é"][w.ch.draw(6) as usize], &s[i..]),
        1 => format!("{}=", s),
        // a single left-over symbol
        2 => format!("{}A", &s[..s.len() / 4 * 4]),
        _ => String::new(),
    }
}

/// Damage (or harmless change) of a message on its way to device `dev`.
pub fn damage(w: &mut World, text: &str, o: &Rc<Origin>, dev: usize) -> Option<(String, Prov)> {
    let d = |s: String| Prov::Damaged(o.clone(), s);
    let v: Value = serde_json::from_str(text).ok()?;
    let jwe = v.get("ciphertext").is_some();
    Some(match w.ch.draw(9) {
        0 => {
            let mut b: Vec<char> = text.chars().collect();
            let i = w.ch.draw(b.len() as u64) as usize;
            let c = ['A', 'b', '0', '"', '{', '.', ' ', '\\', 'é'][w.ch.draw(9) as usize];
            if b[i] == c {
                return None;
            }
            b[i] = c;
            (b.into_iter().collect(), d(format!("byte at {}", i)))
        }
        1 => {
            let mut i = w.ch.draw(text.len() as u64) as usize;
            while !text.is_char_boundary(i) {
                i -= 1;
            }
            (text[..i].to_string(), d(format!("cut at {}", i)))
        }
        2 | 3 if jwe => {
            let mut v = v;
            let n = v["recipients"].as_array()?.len() as u64;
            let what = w.ch.draw(13);
            let name = match what {
                // nothing, or next to nothing, where bytes belong
                12 => {
                    let f = ["ciphertext", "tag", "iv", "protected"][w.ch.draw(4) as usize];
                    let t = json!(["", "", "AA", "AAAA"][w.ch.draw(4) as usize]);
                    if v[f] == t {
                        return None;
                    }
                    v[f] = t;
                    f
                }
                10 => {
                    let f = ["ciphertext", "tag", "iv", "protected"][w.ch.draw(4) as usize];
                    let s = v[f].as_str()?.to_string();
                    v[f] = json!(not_b64(w, &s));
                    f
                }
                11 => {
                    let i = w.ch.draw(n) as usize;
                    let kid = v["recipients"][i]["header"]["kid"].as_str()?.to_string();
                    let s = v["recipients"][i]["encrypted_key"].as_str()?.to_string();
                    v["recipients"][i]["encrypted_key"] = json!(not_b64(w, &s));
                    if !w.devs[dev].wallet.contains_key(&kid) {
                        return Some((v.to_string(), Prov::Harmless(o.clone(), "entry of a foreign key damaged")));
                    }
                    "encrypted_key"
                }
                0 | 1 | 2 => {
                    let f = ["ciphertext", "tag", "iv"][what as usize];
                    let s = v[f].as_str()?.to_string();
                    v[f] = json!(flip_b64(w, &s));
                    f
                }
                3 => {
                    let i = w.ch.draw(n) as usize;
                    let kid = v["recipients"][i]["header"]["kid"].as_str()?.to_string();
                    let s = v["recipients"][i]["encrypted_key"].as_str()?.to_string();
                    v["recipients"][i]["encrypted_key"] = json!(flip_b64(w, &s));
                    if !w.devs[dev].wallet.contains_key(&kid) {
                        return Some((v.to_string(), Prov::Harmless(o.clone(), "entry of a foreign key damaged")));
                    }
                    // one entry that decrypts is enough, unless all are asked for
                    if (0..i).any(|k| v["recipients"][k]["header"]["kid"].as_str().is_some_and(|k| w.devs[dev].wallet.contains_key(k))) {
                        return Some((v.to_string(), Prov::Harmless(o.clone(), "a later entry damaged")));
                    }
                    "encrypted_key"
                }
                4 => {
                    v["recipients"].as_array_mut()?.pop();
                    "recipient removed"
                }
                5 => {
                    let r = v["recipients"][0].clone();
                    v["recipients"].as_array_mut()?.push(r);
                    "recipient doubled"
                }
                6 => {
                    let i = w.ch.draw(n) as usize;
                    let k = v["recipients"][i]["header"]["kid"].as_str()?.to_string();
                    v["recipients"][i]["header"]["kid"] = json!(other(&k));
                    "recipient renamed"
                }
                7 | 8 => {
                    let p = unb64(v["protected"].as_str()?)?;
                    let mut p: Value = serde_json::from_slice(&p).ok()?;
                    let which = w.ch.draw(10);
                    match which {
                        7 | 8 => {
                            let m = ["apv", "apu"][w.ch.draw(2) as usize];
                            let s = p.get(m)?.as_str()?.to_string();
                            p[m] = json!(not_b64(w, &s));
                        }
                        9 => {
                            let x = p["epk"]["x"].as_str()?.to_string();
                            match w.ch.draw(4) {
                                0 => p["epk"]["x"] = json!(not_b64(w, &x)),
                                1 => {
                                    p["epk"].as_object_mut()?.remove("x");
                                }
                                2 => p["epk"] = json!("epk"),
                                _ => p["epk"]["x"] = json!(b64(&unb64(&x)?[1..])),
                            }
                        }
                        0 => p["typ"] = json!("x"),
                        1 => p["enc"] = json!(if p["enc"] == GCM { XC } else { GCM }),
                        2 => p["alg"] = json!(if p["alg"] == ES { PU } else { ES }),
                        3 => {
                            p.as_object_mut()?.remove("skid");
                        }
                        4 => p["apv"] = json!(b64([1u8; 32])),
                        5 => p["epk"] = Key::gen(&mut w.rng, "e", if p["epk"]["crv"] == "P-256" { Alg::P256 } else { Alg::X25519 }).public_jwk(),
                        _ => p["extra"] = json!(1),
                    }
                    let t = b64(p.to_string());
                    if json!(t) == v["protected"] {
                        return None;
                    }
                    v["protected"] = json!(t);
                    if which == 2 {
                        "algorithm changed"
                    } else {
                        "protected header"
                    }
                }
                _ => {
                    if n < 2 {
                        return None;
                    }
                    let a = v["recipients"][0]["encrypted_key"].clone();
                    let b = v["recipients"][1]["encrypted_key"].clone();
                    v["recipients"][0]["encrypted_key"] = b;
                    v["recipients"][1]["encrypted_key"] = a;
                    "entries exchanged"
                }
            };
            (v.to_string(), d(name.into()))
        }
        2 | 3 if v.get("signatures").is_some() => {
            let mut v = v;
            let name = match w.ch.draw(8) {
                6 | 7 => {
                    let p = ["/payload", "/signatures/0/signature", "/signatures/0/protected"][w.ch.draw(3) as usize];
                    let s = v.pointer(p)?.as_str()?.to_string();
                    let t = not_b64(w, &s);
                    *v.pointer_mut(p)? = json!(t);
                    "no base64 any more"
                }
                0 => {
                    let s = v["payload"].as_str()?.to_string();
                    v["payload"] = json!(flip_b64(w, &s));
                    "payload"
                }
                1 => {
                    let s = v["signatures"][0]["signature"].as_str()?.to_string();
                    v["signatures"][0]["signature"] = json!(flip_b64(w, &s));
                    "signature"
                }
                2 => {
                    let s = v["signatures"][0]["protected"].as_str()?.to_string();
                    v["signatures"][0]["protected"] = json!(flip_b64(w, &s));
                    "protected"
                }
                3 => {
                    let k = v["signatures"][0]["header"]["kid"].as_str()?.to_string();
                    v["signatures"][0]["header"]["kid"] = json!(other(&k));
                    "kid"
                }
                4 => {
                    v["signatures"] = json!([]);
                    "signature removed"
                }
                _ => {
                    let s = v["signatures"][0].clone();
                    v["signatures"].as_array_mut()?.push(s);
                    "signature doubled"
                }
            };
            (v.to_string(), d(name.into()))
        }
        // parts of another message
        4 | 5 => {
            let all: Vec<String> = w.packets.iter().map(|p| p.0.clone()).collect();
            let t = pick(w, &all)?;
            let x: Value = serde_json::from_str(&t).ok()?;
            let fields: Vec<&str> = if jwe { vec!["protected", "recipients", "iv", "ciphertext", "tag"] } else { vec!["payload", "signatures"] };
            let f = fields[w.ch.draw(fields.len() as u64) as usize];
            let mut v = v;
            if x.get(f).is_none() || x[f] == v[f] {
                return None;
            }
            v[f] = x[f].clone();
            (v.to_string(), d(format!("{} of another message", f)))
        }
        // changes that do not matter
        6 | 7 => {
            let o2 = o.clone();
            let mut v = v;
            let h = |s| Prov::Harmless(o2.clone(), s);
            if jwe && w.ch.chance(1, 2) {
                v["recipients"].as_array_mut()?.reverse();
                (v.to_string(), h("recipients in other order"))
            } else if w.ch.chance(1, 2) {
                (serde_json::to_string_pretty(&v).ok()?, h("white space"))
            } else {
                let m: Vec<(String, String)> = v.as_object()?.iter().map(|(k, x)| (k.clone(), x.to_string())).collect();
                (obj(m, true, true), h("members in other order"))
            }
        }
        _ => {
            let mut v = v;
            let o = v.as_object_mut()?;
            let keys: Vec<String> = o.keys().cloned().collect();
            let k = pick(w, &keys)?;
            match w.ch.draw(3) {
                0 => {
                    o.remove(&k);
                }
                1 => {
                    o.insert(k.clone(), json!(null));
                }
                _ => {
                    o.insert(k.clone(), json!({"a": [1]}));
                }
            }
            (v.to_string(), d(format!("member {}", k)))
        }
    })
}

/// Input that is no DIDComm message.
pub fn garbage(w: &mut World) -> (String, Prov) {
    let mut b = vec![0u8; w.ch.range(0, 60) as usize];
    w.rng.fill(&mut b);
    let deep = w.ch.range(1, 400) as usize;
    let t = match w.ch.draw(20) {
        0 => String::new(),
        1 => "{".into(),
        2 => "[]".into(),
        3 => "null".into(),
        4 => "{}".into(),
        5 => String::from_utf8_lossy(&b).to_string(),
        6 => "[".repeat(deep),
        7 => format!("{}1{}", "{\"a\":".repeat(deep), "}".repeat(deep)),
        8 => "\"".into(),
        9 => json!({"protected": "", "recipients": [], "iv": "", "ciphertext": "", "tag": ""}).to_string(),
        10 => json!({"protected": b64("{}"), "recipients": [{"header": {"kid": "x"}, "encrypted_key": ""}], "iv": "", "ciphertext": "", "tag": ""}).to_string(),
        11 => json!({"payload": "", "signatures": [{"header": {"kid": ""}, "protected": "", "signature": ""}]}).to_string(),
        12 => json!({"payload": "!", "signatures": [{"header": {"kid": "did:sim:x#1"}, "protected": b64("[]"), "signature": "!"}]}).to_string(),
        13 => json!({"id": "1", "type": "t", "body": {}, "typ": "text/plain"}).to_string(),
        14 => json!({"id": 1, "type": "t", "body": {}}).to_string(),
        15 => "{\"id\":\"1\",\"type\":\"t\",\"body\":{\"a\":1e999}}".into(),
        16 => "{\"id\":\"1\",\"type\":\"t\",\"body\":{\"a\":\"\\ud800\"}}".into(),
        17 => "{\"id\":\"1\",\"type\":\"t\",\"body\":{}} trailing".into(),
        18 => {
            let mut s = json!({"id": "1", "type": "t", "typ": TYP_PLAIN, "body": {"a": [1, 2, {"b": null}]}, "attachments": [{"data": {"base64": "AA"}}]}).to_string();
            let n = w.ch.draw(s.len() as u64) as usize;
            s.truncate(n);
            s
        }
        _ => json!({"id": "1", "type": "t", "typ": TYP_PLAIN, "body": {}, "from_prior": "a.b"}).to_string(),
    };
    (t, Prov::Garbage("input"))
}

// ---------------------------------------------------------------- hostile documents and secrets

fn odd_text(w: &mut World) -> String {
    let mut b = vec![0u8; w.ch.range(0, 80) as usize];
    w.rng.fill(&mut b);
    match w.ch.draw(12) {
        0 => String::new(),
        1 => "z".into(),
        2 => "0OIl".into(),
        3 => "é".into(),
        4 => bs58::encode(&b).into_string(),
        5 => format!("z{}", bs58::encode(&b).into_string()),
        6 => format!("z{}", bs58::encode([0xffu8; 20]).into_string()),
        7 => format!("z{}", bs58::encode([0xec, 0x81, 0x80, 0x00]).into_string()),
        8 => {
            let pre = [0xEC, 0xED, 0x1302, 0x1300, 0x1205][w.ch.draw(5) as usize];
            format!("z{}", bs58::encode(multicodec(pre, &b)).into_string())
        }
        9 => format!("z{}", bs58::encode([0x80u8; 9]).into_string()),
        10 => {
            // a prefix written with more bytes than needed
            let mut v = vec![0xEC, 0x81, 0x80, 0x80, 0x00];
            v.truncate(w.ch.range(1, 5) as usize);
            let n = w.ch.draw(4) as usize;
            v.extend_from_slice(&b[..b.len().min(n)]);
            format!("z{}", bs58::encode(v).into_string())
        }
        _ => "u".repeat(40),
    }
}

fn odd_jwk(w: &mut World, base: Value) -> Value {
    let mut j = base;
    let o = j.as_object_mut().unwrap();
    let keys: Vec<String> = o.keys().cloned().collect();
    let k = keys[w.ch.draw(keys.len() as u64) as usize].clone();
    let odd: Value = match w.ch.draw(8) {
        0 => Value::Null,
        1 => json!(7),
        2 => json!(""),
        3 => json!("!!"),
        4 => json!(b64([0u8; 31])),
        5 => json!(b64([0xffu8; 32])),
        6 => json!([1, {"x": 2}]),
        _ => {
            o.remove(&k);
            return match w.ch.draw(4) {
                0 => json!([]),
                1 => json!("key"),
                _ => Value::Object(o.clone()),
            };
        }
    };
    o.insert(k, odd);
    j
}

fn any_key(w: &mut World, kid: &str) -> Key {
    let a = [Alg::X25519, Alg::P256, Alg::Ed25519, Alg::K256][w.ch.draw(4) as usize];
    Key::gen(&mut w.rng, kid, a)
}

pub fn hostile_vm(w: &mut World, kid: &str) -> VmModel {
    use VerificationMethodType::*;
    let types = [JsonWebKey2020, X25519KeyAgreementKey2019, Ed25519VerificationKey2018, EcdsaSecp256k1VerificationKey2019, X25519KeyAgreementKey2020, Ed25519VerificationKey2020, Other];
    let type_ = types[w.ch.draw(7) as usize].clone();
    let material = match w.ch.draw(3) {
        0 => {
            let base = any_key(w, kid).public_jwk();
            VerificationMaterial::JWK { public_key_jwk: odd_jwk(w, base) }
        }
        1 => VerificationMaterial::Base58 { public_key_base58: odd_text(w) },
        _ => VerificationMaterial::Multibase { public_key_multibase: odd_text(w) },
    };
    VmModel { kid: kid.to_string(), mat: Mat::Weird { type_, material, looks: Some(Alg::X25519) } }
}

pub fn hostile_secret(w: &mut World, kid: &str) -> Secret {
    use SecretType::*;
    let types = [JsonWebKey2020, X25519KeyAgreementKey2019, Ed25519VerificationKey2018, EcdsaSecp256k1VerificationKey2019, X25519KeyAgreementKey2020, Ed25519VerificationKey2020, Other];
    let type_ = types[w.ch.draw(7) as usize].clone();
    let secret_material = match w.ch.draw(3) {
        0 => {
            let base = any_key(w, kid).private_jwk();
            SecretMaterial::JWK { private_key_jwk: odd_jwk(w, base) }
        }
        1 => SecretMaterial::Base58 { private_key_base58: odd_text(w) },
        _ => SecretMaterial::Multibase { private_key_multibase: odd_text(w) },
    };
    Secret { id: kid.to_string(), type_, secret_material }
}

/// A document meant to confuse: broken methods, dangling references, circular services.
pub fn hostile_doc(w: &mut World, did: &str, friends: &[String]) -> DocModel {
    let mut d = DocModel { did: did.to_string(), ..Default::default() };
    for i in 0..w.ch.range(1, 4) {
        let kid = match w.ch.draw(5) {
            0 => did.to_string(),
            1 => format!("{}#", did),
            2 => format!("#{}", i),
            _ => format!("{}#key-{}", did, i),
        };
        let vm = if w.ch.chance(1, 4) {
            let k = any_key(w, &kid);
            VmModel { kid: kid.clone(), mat: Mat::Good(k, Fmt::Jwk) }
        } else {
            hostile_vm(w, &kid)
        };
        d.vms.push(vm);
        if w.ch.chance(2, 3) {
            d.ka.push(kid.clone());
        }
        if w.ch.chance(1, 2) {
            d.auth.push(kid);
        }
    }
    if w.ch.chance(1, 5) {
        d.ka.push(format!("{}#missing", did));
    }
    for i in 0..w.ch.draw(3) {
        let uri = match w.ch.draw(6) {
            0 => did.to_string(),
            1 => String::new(),
            2 => "did:".into(),
            3 => "did::".into(),
            4 => friends.first().cloned().unwrap_or_default(),
            _ => "http://x".into(),
        };
        let routing = (0..w.ch.draw(4)).map(|_| match w.ch.draw(5) { 0 => String::new(), 1 => "#".into(), 2 => did.to_string(), 3 => "did:sim:gone#k".into(), _ => format!("{}#key-1", did) }).collect();
        let accept = match w.ch.draw(3) { 0 => None, 1 => Some(vec![]), _ => Some(vec!["didcomm/aip1".to_string(), "didcomm/v2".to_string()]) };
        d.services.push(SvcModel { id: format!("{}#s{}", did, i), kind: if w.ch.chance(1, 6) { Svc::Other(json!([1])) } else { Svc::Didcomm { uri, accept, routing } } });
    }
    let _ = select_service(&d, None);
    d
}

pub fn empty_map() -> Map<String, Value> {
    Map::new()
}

/// A name that is almost the given one.
pub fn almost(w: &mut World, id: &str) -> String {
    let mut c: Vec<char> = id.chars().collect();
    if c.is_empty() {
        return "did:".into();
    }
    let i = w.ch.draw(c.len() as u64) as usize;
    match w.ch.draw(9) {
        0 | 1 => {
            // the case of one letter
            for k in 0..c.len() {
                let x = &mut c[(i + k) % id.chars().count()];
                if x.is_ascii_alphabetic() {
                    *x = if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
                    break;
                }
            }
        }
        2 => c.truncate(c.len() - 1),
        3 => c.push(['0', 'a', '#', '/', '?', ' ', ';'][w.ch.draw(7) as usize]),
        4 => c.extend("#key-1".chars()),
        5 => c.truncate(i),
        6 => c.insert(0, [' ', 'x', '#'][w.ch.draw(3) as usize]),
        7 => {
            c.remove(i);
        }
        _ => return split_id(id).0.to_string(),
    }
    c.into_iter().collect()
}
