//! What an operation has to do: the reference model of packing, the inspection of everything that
//! leaves a device with all keys at hand, and the comparison of unpacking with the reference peer.
use crate::keys::*;
use crate::msgs::*;
use crate::peer::*;
use didcomm::algorithms::{AnonCryptAlg, AuthCryptAlg, SignAlg};
use didcomm::error::ErrorKind;
use didcomm::{Message, PackEncryptedMetadata, PackEncryptedOptions, UnpackMetadata};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

pub type Props = Vec<&'static str>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Plain,
    Signed,
    Encrypted,
}

#[derive(Clone)]
pub struct PackReq {
    pub mode: Mode,
    pub lib: Message,
    pub exp: Value,
    pub marker: String,
    pub to: String,
    pub from: Option<String>,
    pub sign_by: Option<String>,
    pub opts: PackEncryptedOptions,
}

pub fn anon_name(a: &AnonCryptAlg) -> &'static str {
    match a {
        AnonCryptAlg::A256cbcHs512EcdhEsA256kw => CBC,
        AnonCryptAlg::Xc20pEcdhEsA256kw => XC,
        AnonCryptAlg::A256gcmEcdhEsA256kw => GCM,
    }
}
pub fn auth_name(a: &AuthCryptAlg) -> &'static str {
    match a {
        AuthCryptAlg::A256cbcHs512Ecdh1puA256kw => CBC,
    }
}
pub fn sign_name(a: &SignAlg) -> &'static str {
    match a {
        SignAlg::EdDSA => "EdDSA",
        SignAlg::ES256 => "ES256",
        SignAlg::ES256K => "ES256K",
    }
}

pub fn looks_like_did(s: &str) -> bool {
    s.starts_with("did:") && s.matches(':').count() >= 2
}

pub struct Bad {
    pub props: Props,
    pub kinds: Option<Vec<ErrorKind>>,
    pub why: String,
}

/// What packing needs and may choose from.
#[derive(Default)]
pub struct Need {
    pub bad: Vec<Bad>,
    pub args: bool,
    pub gray: Vec<String>,
    pub auth: Vec<(Key, Vec<Key>)>,
    pub anon: Vec<Key>,
    pub signers: Vec<Key>,
    pub hops: Vec<(String, Vec<Key>)>,
    pub service: Option<(String, String)>,
    pub mixed: bool,
}

impl Need {
    fn fail(&mut self, props: &[&'static str], kinds: &[ErrorKind], why: impl Into<String>) {
        self.bad.push(Bad { props: props.to_vec(), kinds: if kinds.is_empty() { None } else { Some(kinds.to_vec()) }, why: why.into() });
    }
}

fn agreement(a: Option<Alg>) -> Option<Alg> {
    match a {
        Some(Alg::X25519) | Some(Alg::P256) => a,
        _ => None,
    }
}

fn hostile_doc(d: &DocModel) -> bool {
    d.vms.iter().any(|v| matches!(&v.mat, Mat::Weird { looks: Some(_), .. }))
}

/// Recipient key-agreement methods of `to`, in listed order.
fn recipients<'a>(n: &mut Need, doc: &'a Option<Rc<DocModel>>, to: &str, extra: &[&'static str]) -> Vec<&'a VmModel> {
    let (did, frag) = split_id(to);
    let p = |base: &[&'static str]| -> Vec<&'static str> { base.iter().chain(extra.iter()).copied().collect() };
    let d = match doc {
        None => {
            n.fail(&p(&["C10"]), &[ErrorKind::DIDNotResolved], format!("{} does not resolve", did));
            return vec![];
        }
        Some(d) => d,
    };
    if hostile_doc(d) {
        n.gray.push(format!("hostile document {}", did));
    }
    let listed: Vec<&String> = d.ka.iter().filter(|k| !frag || k.as_str() == to).collect();
    if listed.is_empty() {
        n.fail(&p(&["C10"]), &[ErrorKind::DIDUrlNotFound], format!("{} lists no key agreement key matching", did));
        return vec![];
    }
    let mut vms = vec![];
    for k in listed {
        match d.vm(k) {
            Some(v) => vms.push(v),
            None => n.gray.push(format!("no method for {}", k)),
        }
    }
    if vms.iter().any(|v| agreement(v.looks()).is_none()) || vms.iter().any(|v| v.looks() != vms[0].looks()) {
        n.mixed = true;
    }
    vms
}

fn usable(vms: &[&VmModel], a: Alg) -> Vec<Key> {
    vms.iter().filter(|v| v.looks() == Some(a)).filter_map(|v| v.key().map(|k| Key { kid: v.kid.clone(), ..k.clone() })).collect()
}

pub fn need_anon(n: &mut Need, view: &dyn View, to: &str, extra: &[&'static str]) -> Vec<Key> {
    let doc = view.doc(split_id(to).0);
    let vms = recipients(n, &doc, to, extra);
    if vms.is_empty() {
        return vec![];
    }
    match vms.iter().find_map(|v| agreement(v.looks())) {
        None => {
            let mut p = vec!["C17"];
            p.extend(extra);
            n.fail(&p, &[], format!("{} has no supported key agreement key", to));
            vec![]
        }
        Some(a) => usable(&vms, a),
    }
}

fn need_auth(n: &mut Need, view: &dyn View, to: &str, from: &str) {
    let doc = view.doc(split_id(to).0);
    let vms = recipients(n, &doc, to, &[]);
    let (fdid, frag) = split_id(from);
    let fdoc = match view.doc(fdid) {
        None => {
            n.fail(&["C10"], &[ErrorKind::DIDNotResolved], format!("sender {} does not resolve", fdid));
            return;
        }
        Some(d) => d,
    };
    if hostile_doc(&fdoc) {
        n.gray.push("hostile sender document".into());
    }
    let listed: Vec<&String> = fdoc.ka.iter().filter(|k| !frag || k.as_str() == from).collect();
    if listed.is_empty() {
        n.fail(&["C10"], &[ErrorKind::DIDUrlNotFound], "sender lists no matching key agreement key");
        return;
    }
    let held: Vec<&String> = listed.into_iter().filter(|k| view.secret(k).is_some()).collect();
    if held.is_empty() {
        n.fail(&["C10"], &[ErrorKind::SecretNotFound], "no sender secret in the wallet");
        return;
    }
    if vms.is_empty() {
        return;
    }
    let mut found = false;
    for k in held {
        match fdoc.vm(k) {
            None => n.gray.push(format!("no method for {}", k)),
            Some(v) => {
                if agreement(v.looks()).is_none() {
                    n.mixed = true;
                }
                if let Some(a) = agreement(v.looks()) {
                    let to_keys = usable(&vms, a);
                    let any = vms.iter().any(|x| x.looks() == Some(a));
                    if any {
                        found = true;
                        let s = view.secret(k).unwrap();
                        match v.key() {
                            Some(p) if p.x == s.x && p.alg == s.alg => n.auth.push((s, to_keys)),
                            _ => n.gray.push(format!("wallet and document disagree on {}", k)),
                        }
                    }
                }
            }
        }
    }
    if !found && n.gray.is_empty() {
        n.fail(&["C17"], &[ErrorKind::NoCompatibleCrypto], "no common curve");
    }
}

fn need_sign(n: &mut Need, view: &dyn View, sign_by: &str) {
    let (did, frag) = split_id(sign_by);
    let doc = match view.doc(did) {
        None => {
            n.fail(&["C10"], &[ErrorKind::DIDNotResolved], "signer does not resolve");
            return;
        }
        Some(d) => d,
    };
    let listed: Vec<&String> = doc.auth.iter().filter(|k| !frag || k.as_str() == sign_by).collect();
    if frag && listed.is_empty() {
        n.fail(&["C10", "C17"], &[ErrorKind::DIDUrlNotFound], "signer key not listed for authentication");
        return;
    }
    let held: Vec<&String> = listed.into_iter().filter(|k| view.secret(k).is_some()).collect();
    if held.is_empty() {
        n.fail(&["C10", "C17"], &[ErrorKind::SecretNotFound], "no signer secret in the wallet");
        return;
    }
    for k in held {
        let s = view.secret(k).unwrap();
        if sig_alg(s.alg).is_none() {
            n.gray.push("authentication key cannot sign".into());
        } else {
            n.signers.push(s);
        }
    }
}

fn accepts(a: &Option<Vec<String>>) -> bool {
    match a {
        None => true,
        Some(v) => v.is_empty() || v.iter().any(|x| x == "didcomm/v2"),
    }
}

pub fn select_service(d: &DocModel, id: Option<&str>) -> Result<Option<(String, String, Vec<String>)>, ()> {
    let read = |s: &SvcModel| match &s.kind {
        Svc::Didcomm { uri, accept, routing } if accepts(accept) => Some((s.id.clone(), uri.clone(), routing.clone())),
        _ => None,
    };
    match id {
        Some(id) => d.services.iter().find(|s| s.id == id).and_then(read).map(Some).ok_or(()),
        None => Ok(d.services.iter().find_map(read)),
    }
}

fn need_route(n: &mut Need, view: &dyn View, to: &str, opts: &PackEncryptedOptions) {
    if !opts.forward {
        return;
    }
    let doc = match view.doc(split_id(to).0) {
        None => {
            n.fail(&["C10"], &[ErrorKind::DIDNotResolved], "recipient does not resolve");
            return;
        }
        Some(d) => d,
    };
    let (id, mut uri, routing) = match select_service(&doc, opts.messaging_service.as_deref()) {
        Err(()) => {
            n.fail(&["C08"], &[ErrorKind::IllegalArgument], "selected service unusable");
            return;
        }
        Ok(None) => return,
        Ok(Some(s)) => s,
    };
    let mut hops = vec![];
    if looks_like_did(&uri) {
        hops.push(uri.clone());
        match view.doc(split_id(&uri).0) {
            None => {
                n.fail(&["C10", "C08"], &[ErrorKind::DIDNotResolved], "mediator does not resolve");
                return;
            }
            Some(md) => match select_service(&md, None) {
                Ok(Some((_, u, _))) => {
                    if looks_like_did(&u) {
                        n.fail(&["C08", "C12"], &[], "mediator endpoint is again a DID");
                        return;
                    }
                    uri = u;
                }
                _ => {
                    n.fail(&["C08"], &[], "mediator has no usable service");
                    return;
                }
            },
        }
    }
    hops.extend(routing);
    if hops.is_empty() {
        return;
    }
    for h in &hops {
        let keys = need_anon(n, view, h, &["C08"]);
        n.hops.push((h.clone(), keys));
    }
    n.service = Some((id, uri));
}

pub fn need_pack(view: &dyn View, r: &PackReq) -> Need {
    let mut n = Need::default();
    let ill = &[ErrorKind::IllegalArgument];
    if r.mode == Mode::Encrypted {
        if !looks_like_did(&r.to) {
            n.fail(&["C23"], ill, "`to` is no DID");
        }
        if let Some(f) = &r.from {
            if !looks_like_did(f) {
                n.fail(&["C23"], ill, "`from` is no DID");
            }
        }
    }
    if let Some(s) = r.sign_by.as_ref().filter(|_| r.mode != Mode::Plain) {
        if !looks_like_did(s) {
            n.fail(&["C23"], ill, "`sign_by` is no DID");
        }
    }
    if r.mode == Mode::Encrypted {
        if let Some(t) = r.exp["to"].as_array() {
            if !t.iter().any(|x| x == split_id(&r.to).0) {
                n.fail(&["C23"], ill, "`to` is not among message.to");
            }
        }
        if let (Some(f), Some(mf)) = (&r.from, r.exp["from"].as_str()) {
            if split_id(f).0 != mf {
                n.fail(&["C23"], ill, "`from` is not message.from");
            }
        }
    }
    if !n.bad.is_empty() {
        n.args = true;
        return n;
    }
    if let Some(jwt) = r.exp["from_prior"].as_str() {
        match ref_from_prior(jwt, view) {
            Err(why) => {
                let mut k: Vec<ErrorKind> = vec![];
                for w in why.also.iter().chain([&why.why]) {
                    match w.kinds() {
                        Some(x) => k.extend(x),
                        None => {
                            k.clear();
                            break;
                        }
                    }
                }
                n.fail(&["C13"], &k, format!("rotation notice invalid: {:?}", why.why));
            }
            Ok((fp, _)) => {
                let (iss, sub) = (fp["iss"].as_str().unwrap(), fp["sub"].as_str().unwrap());
                if iss == sub || !looks_like_did(iss) || !looks_like_did(sub) {
                    n.fail(&["C13"], &[], "rotation notice is inconsistent");
                }
                if let Some(f) = r.exp["from"].as_str() {
                    if f != sub {
                        n.fail(&["C13"], &[], "rotation notice names another new DID");
                    }
                }
            }
        }
    }
    if let Some(s) = &r.sign_by {
        need_sign(&mut n, view, s);
    }
    if r.mode == Mode::Encrypted {
        match &r.from {
            Some(f) => need_auth(&mut n, view, &r.to, f),
            None => n.anon = need_anon(&mut n, view, &r.to, &[]),
        }
        need_route(&mut n, view, &r.to, &r.opts);
    }
    n
}

// ---------------------------------------------------------------- inspection of packed messages

pub struct Inspection {
    pub found: Vec<(Props, String)>,
    pub fresh: Vec<(&'static str, String)>,
    pub from_kid: Option<String>,
    pub sign_kid: Option<String>,
    /// Everything visible to others (wire text and forwards), outermost first.
    pub visible: Vec<String>,
}

fn set(v: &[String]) -> BTreeSet<&str> {
    v.iter().map(|s| s.as_str()).collect()
}

/// Open one encrypted layer made for exactly `want`; every entry has to open to the same bytes.
/// A member that does not belong there.
fn stray(v: &Value, known: &[&str]) -> Option<String> {
    v.as_object()?.keys().find(|k| !known.contains(&k.as_str())).cloned()
}

fn layer(ins: &mut Inspection, v: &Value, what: &str, alg: &str, enc: &str, want: &[Key], senders: &[Key], extra: &[&'static str]) -> Option<(Vec<u8>, Vec<String>)> {
    let p = |base: &[&'static str]| -> Props { base.iter().chain(extra.iter()).copied().collect() };
    let j = match parse_jwe(v) {
        Some(Ok(j)) => j,
        _ => {
            ins.found.push((p(&["C21", "C01"]), format!("{}: not an encrypted envelope: {}", what, short(&v.to_string()))));
            return None;
        }
    };
    let mut bad = |props: &[&'static str], m: String| ins.found.push((p(props), format!("{}: {}", what, m)));
    if j.protected.get("typ").and_then(|x| x.as_str()) != Some(TYP_ENC) {
        bad(&["C21"], format!("typ is {:?}", j.protected.get("typ")));
    }
    if j.alg != alg {
        bad(&["C21", "C06"], format!("alg is {} instead of {}", j.alg, alg));
    }
    if j.enc != enc {
        bad(&["C21", "C06"], format!("enc is {} instead of {}", j.enc, enc));
    }
    for k in v.as_object().unwrap().keys() {
        if !["protected", "recipients", "iv", "ciphertext", "tag"].contains(&k.as_str()) {
            bad(&["C21", "C04"], format!("unexpected envelope member {}", k));
        }
    }
    for (k, x) in &j.protected {
        if !["typ", "alg", "enc", "skid", "apu", "apv", "epk"].contains(&k.as_str()) {
            bad(&["C21", "C04"], format!("unexpected protected header {}", k));
        }
        if x.is_null() {
            bad(&["C21"], format!("protected header {} is null", k));
        }
    }
    for r in v["recipients"].as_array().unwrap() {
        if let Some(k) = stray(r, &["header", "encrypted_key"]).or(stray(&r["header"], &["kid"])) {
            bad(&["C21", "C04"], format!("unexpected member {} of a recipient", k));
        }
    }
    let kids = j.kids();
    if set(&kids).len() != kids.len() {
        bad(&["C05", "C15"], format!("duplicate recipients {:?}", kids));
    }
    let want_kids: Vec<String> = want.iter().map(|k| k.kid.clone()).collect();
    if set(&kids) != set(&want_kids) {
        bad(&["C05"], format!("encrypted to {:?} instead of {:?}", kids, want_kids));
        if set(&kids).difference(&set(&want_kids)).next().is_some() {
            bad(&["C04"], format!("encrypted to other keys {:?}", kids));
        }
    }
    if j.apv != apv_of(&kids) {
        bad(&["C15", "C21"], "apv is not the digest of the recipients".into());
    }
    let crv = if want.first().map(|k| k.alg) == Some(Alg::P256) { "P-256" } else { "X25519" };
    if j.epk["crv"] != crv {
        bad(&["C21", "C17"], format!("ephemeral key on {} instead of {}", j.epk["crv"], crv));
    }
    let members: BTreeSet<&str> = j.epk.as_object().map(|o| o.keys().map(|s| s.as_str()).collect()).unwrap_or_default();
    let good: BTreeSet<&str> = if crv == "P-256" { ["kty", "crv", "x", "y"].into() } else { ["kty", "crv", "x"].into() };
    if members != good {
        bad(&["C21", "C04"], format!("ephemeral key has members {:?}", members));
    }
    let sender = if alg == PU {
        match (&j.skid, &j.apu) {
            (Some(s), Some(a)) if a.as_slice() == s.as_bytes() => {}
            _ => bad(&["C15", "C21"], format!("skid {:?} and apu {:?}", j.skid, j.apu.as_ref().map(|a| String::from_utf8_lossy(a).to_string()))),
        }
        let named = j.apu.as_ref().map(|a| String::from_utf8_lossy(a).to_string()).or(j.skid.clone()).unwrap_or_default();
        match senders.iter().find(|s| s.kid == named) {
            Some(s) => Some(s.clone()),
            None => {
                bad(&["C05", "C03"], format!("sender key {} instead of one of {:?}", named, senders.iter().map(|s| &s.kid).collect::<Vec<_>>()));
                None
            }
        }
    } else {
        if j.skid.is_some() || j.apu.is_some() {
            bad(&["C07"], format!("anonymous envelope names a sender: skid {:?} apu {:?}", j.skid, j.apu.as_ref().map(|a| String::from_utf8_lossy(a).to_string())));
        }
        None
    };
    ins.fresh.push(("iv", j.iv.clone()));
    ins.fresh.push(("epk", j.epk["x"].as_str().unwrap_or("").to_string()));
    for (_, ek) in &j.recips {
        // one recipient key listed under two names gets the same wrapping
        let e = ("encrypted key", ek.clone());
        if !ins.fresh.contains(&e) {
            ins.fresh.push(e);
        }
    }
    if alg == PU {
        ins.from_kid = sender.as_ref().map(|s| s.kid.clone());
        sender.as_ref()?;
    }
    let mut plain: Option<Vec<u8>> = None;
    for k in want {
        if !kids.contains(&k.kid) {
            continue;
        }
        match j.open(&k.kid, k, sender.as_ref()) {
            None => ins.found.push((p(&["C05", "C21", "C01"]), format!("{}: the entry of {} does not open", what, k.kid))),
            Some(x) => {
                if let Some(y) = &plain {
                    if *y != x {
                        ins.found.push((p(&["C05", "C01"]), format!("{}: entries open to different content", what)));
                    }
                }
                plain = Some(x);
            }
        }
    }
    plain.map(|x| (x, kids))
}

pub fn short(s: &str) -> String {
    if s.len() <= 300 {
        return s.to_string();
    }
    let mut i = 300;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}…({} bytes)", &s[..i], s.len())
}

/// Difference of two JSON values, for messages.
pub fn diff(a: &Value, b: &Value) -> String {
    fn go(a: &Value, b: &Value, path: String, out: &mut Vec<String>) {
        if a == b || out.len() > 3 {
            return;
        }
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for k in x.keys().chain(y.keys().filter(|k| !x.contains_key(*k))) {
                    go(x.get(k).unwrap_or(&json!("<absent>")), y.get(k).unwrap_or(&json!("<absent>")), format!("{}/{}", path, k), out);
                }
            }
            (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    go(p, q, format!("{}/{}", path, i), out);
                }
            }
            _ => out.push(format!("{}: expected {} got {}", path, short(&a.to_string()), short(&b.to_string()))),
        }
    }
    let mut out = vec![];
    go(a, b, String::new(), &mut out);
    out.join("; ")
}

fn leaks(text: &str, needles: &[String], depth: u32) -> Option<String> {
    for n in needles {
        let mut at = 0;
        while let Some(i) = text[at..].find(n.as_str()) {
            let end = at + i + n.len();
            let next = text[end..].chars().next();
            if !matches!(next, Some(c) if c.is_ascii_alphanumeric() || c == '-' || c == '_') {
                return Some(n.clone());
            }
            at = end;
        }
    }
    if depth == 0 {
        return None;
    }
    fn strings(v: &Value, out: &mut Vec<String>) {
        match v {
            Value::String(s) => out.push(s.clone()),
            Value::Array(a) => a.iter().for_each(|x| strings(x, out)),
            Value::Object(o) => o.iter().for_each(|(k, x)| {
                out.push(k.clone());
                strings(x, out)
            }),
            _ => {}
        }
    }
    let mut ss = vec![];
    match serde_json::from_str::<Value>(text) {
        Ok(v) => strings(&v, &mut ss),
        Err(_) => ss.extend(text.split('.').filter(|s| s.len() >= 8).map(|s| s.to_string())),
    }
    for s in ss {
        if s.len() >= 8 {
            for cfg in [base64::URL_SAFE_NO_PAD, base64::STANDARD] {
                if let Ok(b) = base64::decode_config(&s, cfg) {
                    if let Some(x) = leaks(&String::from_utf8_lossy(&b), needles, depth - 1) {
                        return Some(x);
                    }
                }
            }
        }
    }
    None
}

/// Peel the forward layers; each must be for its hop and tell it nothing but the next hop.
pub fn onion(ins: &mut Inspection, mut cur: Value, hops: &[(String, Vec<Key>)], headers: Option<&HashMap<String, Value>>, to: &str, enc: &str) -> Option<Value> {
    for i in 0..hops.len() {
        let (hop, keys) = &hops[i];
        let next = hops.get(i + 1).map(|h| h.0.clone()).unwrap_or(to.to_string());
        let what = format!("forward layer {} for {}", i, hop);
        let (p, _) = layer(ins, &cur, &what, ES, enc, keys, &[], &["C08"])?;
        let text = String::from_utf8_lossy(&p).to_string();
        ins.visible.push(text.clone());
        let fwd: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
        let inner_msg = fwd["attachments"][0]["data"]["json"].clone();
        let mut want = json!({
            "id": fwd["id"], "typ": TYP_PLAIN, "type": FORWARD, "body": {"next": next},
            "attachments": [{"data": {"json": inner_msg}}],
        });
        if let Some(h) = headers {
            for (k, v) in h {
                want[k] = v.clone();
            }
        }
        if fwd != want || !fwd["id"].is_string() || !inner_msg.is_object() {
            ins.found.push((vec!["C08"], format!("{}: {}", what, diff(&want, &fwd))));
            if parse_jwe(&inner_msg).is_none() && !inner_msg.is_null() {
                ins.found.push((vec!["C08", "C04"], format!("{}: inner message is not encrypted", what)));
            }
        }
        ins.fresh.push(("forward id", fwd["id"].as_str().unwrap_or("").to_string()));
        cur = inner_msg;
    }
    Some(cur)
}

pub fn new_inspection() -> Inspection {
    Inspection { found: vec![], fresh: vec![], from_kid: None, sign_kid: None, visible: vec![] }
}

pub fn inspect(out: &str, r: &PackReq, n: &Need, sender_ids: &[String]) -> Inspection {
    let mut ins = Inspection { found: vec![], fresh: vec![], from_kid: None, sign_kid: None, visible: vec![out.to_string()] };
    let mut cur: Value = match serde_json::from_str(out) {
        Ok(v) => v,
        Err(e) => {
            ins.found.push((vec!["C01", "C21"], format!("packed message is not JSON: {}", e)));
            return ins;
        }
    };
    let anon_enc = anon_name(&r.opts.enc_alg_anon);
    let mut inner: Vec<u8>;
    if r.mode == Mode::Encrypted {
        let hidden = r.from.is_none() || r.opts.protect_sender;
        cur = match onion(&mut ins, cur, &n.hops, r.opts.forward_headers.as_ref(), &r.to, anon_enc) {
            Some(c) => c,
            None => return ins,
        };
        let all_to: Vec<Key>;
        match &r.from {
            None => {
                all_to = n.anon.clone();
                let (p, _) = match layer(&mut ins, &cur, "anonymous envelope", ES, anon_enc, &n.anon, &[], &[]) {
                    Some(x) => x,
                    None => return ins,
                };
                inner = p;
            }
            Some(_) => {
                // which of the admissible sender keys was used decides the recipients
                let j = |v: &Value| parse_jwe(v).and_then(|x| x.ok());
                let senders: Vec<Key> = n.auth.iter().map(|a| a.0.clone()).collect();
                let by_sender = |v: &Value| -> Vec<Key> {
                    let kid = j(v).and_then(|x| x.apu).map(|a| String::from_utf8_lossy(&a).to_string()).unwrap_or_default();
                    n.auth.iter().find(|a| a.0.kid == kid).or(n.auth.first()).map(|a| a.1.clone()).unwrap_or_default()
                };
                if r.opts.protect_sender {
                    // outer layer: try the recipient set matching its recipients
                    let outer = j(&cur).map(|x| x.kids()).unwrap_or_default();
                    let want = n
                        .auth
                        .iter()
                        .map(|a| &a.1)
                        .find(|t| outer.iter().all(|k| t.iter().any(|x| x.kid == *k)))
                        .or(n.auth.first().map(|a| &a.1))
                        .cloned()
                        .unwrap_or_default();
                    if j(&cur).map(|x| x.alg != ES).unwrap_or(true) {
                        ins.found.push((vec!["C07"], "sender protection was asked for, but the outer envelope is not anonymous".into()));
                        return ins;
                    }
                    let (p, _) = match layer(&mut ins, &cur, "sender protection layer", ES, anon_enc, &want, &[], &["C07"]) {
                        Some(x) => x,
                        None => return ins,
                    };
                    cur = serde_json::from_slice(&p).unwrap_or(Value::Null);
                    if set(&outer) != set(&j(&cur).map(|x| x.kids()).unwrap_or_default()) {
                        ins.found.push((vec!["C05"], "the two layers address different keys".into()));
                    }
                }
                let want = by_sender(&cur);
                all_to = want.clone();
                let (p, _) = match layer(&mut ins, &cur, "authenticated envelope", PU, auth_name(&r.opts.enc_alg_auth), &want, &senders, &[]) {
                    Some(x) => x,
                    None => return ins,
                };
                inner = p;
            }
        }
        // confidentiality of everything on the wire
        let hop_is_sender = n.hops.iter().any(|h| Some(split_id(&h.0).0) == r.from.as_deref().map(|f| split_id(f).0));
        for t in &ins.visible {
            if let Some(x) = leaks(t, &[r.marker.clone()], 4) {
                ins.found.push((vec!["C04"], format!("content ({}) is visible on the wire", x)));
                break;
            }
        }
        if hidden && !hop_is_sender {
            let headers = r.opts.forward_headers.as_ref().map(|h| json!(h).to_string()).unwrap_or_default();
            let ids: Vec<String> = sender_ids
                .iter()
                .filter(|s| split_id(s).0 != split_id(&r.to).0 && !headers.contains(s.as_str()))
                .cloned()
                .collect();
            for t in &ins.visible {
                if let Some(x) = leaks(t, &ids, 4) {
                    ins.found.push((vec!["C07"], format!("hidden sender {} is visible on the wire", x)));
                    break;
                }
            }
        }
        let _ = all_to;
    } else {
        inner = out.as_bytes().to_vec();
    }
    if r.sign_by.is_some() {
        let v: Value = serde_json::from_slice(&inner).unwrap_or(Value::Null);
        let j = match parse_jws(&v) {
            Some(j) => j,
            None => {
                ins.found.push((vec!["C16", "C01", "C21"], format!("no signed envelope where one was asked for: {}", short(&v.to_string()))));
                return ins;
            }
        };
        if j.sigs.len() != 1 {
            ins.found.push((vec!["C16", "C21"], format!("{} signatures", j.sigs.len())));
            return ins;
        }
        let (kid, prot, parsed, sig) = j.sigs[0].clone();
        let prot_v: Value = unb64(&prot).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
        let sv = &v["signatures"][0];
        let odd = stray(&v, &["payload", "signatures"]).or(stray(sv, &["header", "protected", "signature"]));
        if let Some(k) = odd.or(stray(&sv["header"], &["kid"])).or(stray(&prot_v, &["typ", "alg"])) {
            ins.found.push((vec!["C21"], format!("unexpected member {} of the signed envelope", k)));
        }
        ins.sign_kid = Some(kid.clone());
        match n.signers.iter().find(|s| s.kid == kid) {
            None => ins.found.push((vec!["C17", "C03", "C16"], format!("signed by {} instead of one of {:?}", kid, n.signers.iter().map(|s| &s.kid).collect::<Vec<_>>()))),
            Some(s) => {
                let (typ, alg) = parsed.unwrap_or((None, String::new()));
                if typ.as_deref() != Some(TYP_SIGNED) || Some(alg.as_str()) != sig_alg(s.alg).map(|a| a.0) {
                    ins.found.push((vec!["C21", "C16"], format!("signature header typ {:?} alg {}", typ, alg)));
                }
                if !verify_raw(s, &alg, format!("{}.{}", prot, j.payload).as_bytes(), &unb64(&sig).unwrap_or_default()) {
                    ins.found.push((vec!["C16", "C21", "C01"], format!("signature of {} does not verify", kid)));
                }
            }
        }
        inner = match unb64(&j.payload) {
            Some(p) => p,
            None => {
                ins.found.push((vec!["C21", "C01"], "signed payload is not base64url".into()));
                return ins;
            }
        };
    }
    match serde_json::from_slice::<Value>(&inner) {
        Err(e) => ins.found.push((vec!["C01", "C21"], format!("inner message is not JSON: {}", e))),
        Ok(v) if v != r.exp => {
            let props = if v["type"] == FORWARD && r.exp["type"] != FORWARD { vec!["C08"] } else { vec!["C01", "C21"] };
            ins.found.push((props, format!("packed content differs: {}", diff(&r.exp, &v))));
        }
        Ok(_) => {}
    }
    ins
}

/// Check the metadata returned by packing.
pub fn check_pack_meta(m: &PackEncryptedMetadata, r: &PackReq, n: &Need, ins: &mut Inspection) {
    let used_to: Vec<String> = match &r.from {
        None => n.anon.iter().map(|k| k.kid.clone()).collect(),
        Some(_) => n.auth.iter().find(|a| Some(&a.0.kid) == ins.from_kid.as_ref()).map(|a| a.1.iter().map(|k| k.kid.clone()).collect()).unwrap_or_default(),
    };
    if set(&m.to_kids) != set(&used_to) || m.to_kids.len() != used_to.len() {
        ins.found.push((vec!["C05"], format!("metadata lists recipients {:?} instead of {:?}", m.to_kids, used_to)));
    }
    if m.from_kid != ins.from_kid {
        ins.found.push((vec!["C05"], format!("metadata names sender {:?} instead of {:?}", m.from_kid, ins.from_kid)));
    }
    if m.sign_by_kid != ins.sign_kid {
        ins.found.push((vec!["C05", "C16"], format!("metadata names signer {:?} instead of {:?}", m.sign_by_kid, ins.sign_kid)));
    }
    let got = m.messaging_service.as_ref().map(|s| (s.id.clone(), s.service_endpoint.clone()));
    if got != n.service {
        ins.found.push((vec!["C08"], format!("metadata names service {:?} instead of {:?}", got, n.service)));
    }
}

// ---------------------------------------------------------------- unpacking

pub fn meta_of(m: &UnpackMetadata) -> Meta {
    Meta {
        encrypted: m.encrypted,
        authenticated: m.authenticated,
        non_repudiation: m.non_repudiation,
        anonymous: m.anonymous_sender,
        re_wrapped: m.re_wrapped_in_forward,
        from_kid: m.encrypted_from_kid.clone(),
        to_kids: m.encrypted_to_kids.clone(),
        sign_from: m.sign_from.clone(),
        issuer_kid: m.from_prior_issuer_kid.clone(),
        enc_auth: m.enc_alg_auth.as_ref().map(|a| auth_name(a).into()),
        enc_anon: m.enc_alg_anon.as_ref().map(|a| anon_name(a).into()),
        sign_alg: m.sign_alg.as_ref().map(|a| sign_name(a).into()),
        signed: m.signed_message.as_ref().map(|s| serde_json::from_str(s).unwrap_or(Value::String(s.clone()))),
        from_prior: m.from_prior.as_ref().map(from_prior_value),
    }
}

/// Differences between reported and true protection.
pub fn meta_diff(want: &Accept, got: &Meta) -> Vec<(Props, String)> {
    let mut out: Vec<(Props, String)> = vec![];
    let w = &want.meta;
    let rew = w.re_wrapped;
    macro_rules! cmp {
        ($f:ident, $p:expr) => {
            if w.$f != got.$f {
                out.push(($p.to_vec(), format!("{} is {:?} instead of {:?}", stringify!($f), got.$f, w.$f)));
            }
        };
    }
    cmp!(encrypted, ["C06"]);
    cmp!(authenticated, ["C06", "C03"]);
    cmp!(non_repudiation, ["C06", "C16", "C03"]);
    cmp!(re_wrapped, ["C06", "C09"]);
    if w.from_kid != got.from_kid {
        let mut p = vec!["C06"];
        if got.from_kid.is_some() {
            p.push("C03");
        } else if w.anonymous {
            p.push("C07");
        }
        out.push((p, format!("from_kid is {:?} instead of {:?}", got.from_kid, w.from_kid)));
    }
    cmp!(sign_from, ["C06", "C03", "C16"]);
    cmp!(issuer_kid, ["C06", "C13"]);
    cmp!(enc_auth, ["C06"]);
    cmp!(sign_alg, ["C06", "C16"]);
    cmp!(signed, ["C16", "C06"]);
    cmp!(from_prior, ["C13"]);
    if rew {
        let ok = match &got.to_kids {
            None => want.all_to_kids.is_empty(),
            // the message's own envelope comes first
            Some(k) if want.inner_anon => w.to_kids.as_ref().map(|a| set(a) == set(k)).unwrap_or(false),
            Some(k) => want.all_to_kids.iter().any(|a| set(a) == set(k)),
        };
        if !ok {
            out.push((vec!["C06", "C09"], format!("to_kids is {:?}, layers were {:?}", got.to_kids, want.all_to_kids)));
        }
        if want.inner_anon && !got.anonymous {
            out.push((vec!["C06", "C09"], "anonymous is not reported for an anonymous inner envelope".into()));
        }
        let ok = match &got.enc_anon {
            None => !want.inner_anon,
            Some(e) if want.inner_anon => w.enc_anon.as_ref() == Some(e),
            Some(e) => want.anon_layers.contains(e),
        };
        if !ok {
            out.push((vec!["C06", "C09"], format!("enc_anon is {:?}, layers were {:?}", got.enc_anon, want.anon_layers)));
        }
    } else {
        cmp!(anonymous, ["C06", "C07"]);
        if w.to_kids.as_ref().map(|k| set(k)) != got.to_kids.as_ref().map(|k| set(k)) || w.to_kids.as_ref().map(|k| k.len()) != got.to_kids.as_ref().map(|k| k.len()) {
            out.push((vec!["C06"], format!("to_kids is {:?} instead of {:?}", got.to_kids, w.to_kids)));
        }
        cmp!(enc_anon, ["C06"]);
    }
    out
}

/// Which guarantees are broken if a message with this defect is accepted.
pub fn why_props(w: Why) -> &'static [&'static str] {
    match w {
        Why::Apv | Why::SkidApu | Why::Recipients => &["C15"],
        Why::NoApu => &["C15", "C03"],
        Why::NotAddressed => &["C04"],
        Why::SenderUnresolved => &["C03", "C10"],
        Why::SenderNotListed => &["C03"],
        Why::Decrypt => &["C02", "C03"],
        Why::AllKeys => &["C14"],
        Why::CryptoUnsupported => &["C02"],
        Why::SignatureCount => &["C16", "C03"],
        Why::SignerUnresolved => &["C03", "C10", "C16"],
        Why::SignerNotListed => &["C03", "C16"],
        Why::SignerAlg => &["C03", "C16"],
        Why::BadSignature => &["C02", "C03", "C16"],
        Why::Syntax | Why::NotMessage => &["C12"],
        Why::Typ => &["C12", "C21"],
        Why::RotSyntax | Why::RotTyp | Why::RotUnresolved | Why::RotNotListed | Why::RotAlg | Why::RotSignature | Why::RotIssuer => &["C13"],
    }
}
