//! An independently written DIDComm v2 peer: envelope encoder and decoder working on plain JSON values.
//! It is the reference the library is compared with, and (with its knobs) the attacker's toolbox.
use crate::keys::{b64, unb64, Alg, DocModel, Key};
use askar_crypto::alg::aes::{A256CbcHs512, A256Gcm, A256Kw, AesKey};
use askar_crypto::alg::chacha20::{Chacha20Key, XC20P};
use askar_crypto::alg::{ed25519::Ed25519KeyPair, k256::K256KeyPair, p256::P256KeyPair, x25519::X25519KeyPair};
use askar_crypto::buffer::SecretBytes;
use askar_crypto::encrypt::KeyAeadInPlace;
use askar_crypto::jwk::FromJwk;
use askar_crypto::kdf::{ecdh_1pu::Ecdh1PU, ecdh_es::EcdhEs, FromKeyDerivation, KeyExchange};
use askar_crypto::repr::KeySecretBytes;
use askar_crypto::sign::{KeySigVerify, KeySign, SignatureType};
use askar_crypto::sim::Prng;
use didcomm::error::ErrorKind;
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha256};
use std::rc::Rc;

pub const ES: &str = "ECDH-ES+A256KW";
pub const PU: &str = "ECDH-1PU+A256KW";
pub const CBC: &str = "A256CBC-HS512";
pub const GCM: &str = "A256GCM";
pub const XC: &str = "XC20P";
pub const TYP_ENC: &str = "application/didcomm-encrypted+json";
pub const TYP_SIGNED: &str = "application/didcomm-signed+json";
pub const TYP_PLAIN: &str = "application/didcomm-plain+json";
pub const FORWARD: &str = "https://didcomm.org/routing/2.0/forward";

pub fn split_id(s: &str) -> (&str, bool) {
    match s.find('#') {
        Some(i) => (&s[..i], true),
        None => (s, false),
    }
}

// ---------------------------------------------------------------- crypto glue

fn x25519(k: &Key) -> X25519KeyPair {
    X25519KeyPair::from_secret_bytes(&k.sk).unwrap()
}
fn p256(k: &Key) -> P256KeyPair {
    P256KeyPair::from_secret_bytes(&k.sk).unwrap()
}

/// Public epk of either curve.
pub enum Pub {
    X(X25519KeyPair),
    P(P256KeyPair),
}

pub fn parse_pub(jwk: &Value, alg: Alg) -> Option<Pub> {
    let s = jwk.to_string();
    match alg {
        Alg::X25519 => X25519KeyPair::from_jwk(&s).ok().map(Pub::X),
        Alg::P256 => P256KeyPair::from_jwk(&s).ok().map(Pub::P),
        _ => None,
    }
}

pub fn key_pub(k: &Key) -> Option<Pub> {
    parse_pub(&k.public_jwk(), k.alg)
}

fn kw_of<K: KeyExchange>(e: &K, s: Option<&K>, r: &K, alg: &str, apu: &[u8], apv: &[u8], tag: &[u8], receive: bool) -> Option<AesKey<A256Kw>> {
    match s {
        Some(s) => AesKey::from_key_derivation(Ecdh1PU::new(e, s, r, alg.as_bytes(), apu, apv, tag, receive)).ok(),
        None => AesKey::from_key_derivation(EcdhEs::new(e, r, alg.as_bytes(), apu, apv, receive)).ok(),
    }
}

fn aead(enc: &str, cek: &[u8], nonce: &[u8], aad: &[u8], buf: &mut SecretBytes, encrypt: bool) -> Option<usize> {
    fn go<K: KeyAeadInPlace + KeySecretBytes>(cek: &[u8], nonce: &[u8], aad: &[u8], buf: &mut SecretBytes, encrypt: bool) -> Option<usize> {
        let k = K::from_secret_bytes(cek).ok()?;
        if encrypt {
            k.encrypt_in_place(buf, nonce, aad).ok()
        } else {
            k.decrypt_in_place(buf, nonce, aad).ok().map(|_| buf.len())
        }
    }
    match enc {
        CBC => go::<AesKey<A256CbcHs512>>(cek, nonce, aad, buf, encrypt),
        GCM => go::<AesKey<A256Gcm>>(cek, nonce, aad, buf, encrypt),
        XC => go::<Chacha20Key<XC20P>>(cek, nonce, aad, buf, encrypt),
        _ => None,
    }
}

pub fn enc_sizes(enc: &str) -> (usize, usize) {
    match enc {
        CBC => (64, 16),
        GCM => (32, 12),
        _ => (32, 24),
    }
}

pub fn apv_of(kids: &[String]) -> Vec<u8> {
    let mut k: Vec<&str> = kids.iter().map(|s| s.as_str()).collect();
    k.sort();
    Sha256::digest(k.join(".").as_bytes()).to_vec()
}

// ---------------------------------------------------------------- encoder

/// Everything about a JWE an honest peer or an attacker may choose.
#[derive(Clone)]
pub struct JweSpec {
    pub alg: String,
    pub enc: &'static str,
    /// The key that really enters the derivation.
    pub sender: Option<Key>,
    pub recips: Vec<Key>,
    /// Names written for the recipients (default: the keys' own).
    pub kids: Option<Vec<String>>,
    pub typ: Option<String>,
    pub skid: Option<String>,
    pub apu: Option<Vec<u8>>,
    pub apv: Option<Vec<u8>>,
    pub epk: Option<Key>,
    pub epk_json: Option<Value>,
    /// Further members of the ephemeral key.
    pub epk_extra: Vec<(String, Value)>,
    pub cek: Option<Vec<u8>>,
    pub extra_protected: Vec<(String, Value)>,
    pub extra_top: Vec<(String, Value)>,
    pub extra_recipient: bool,
    /// Member order: 0 as listed, otherwise reversed.
    pub reversed: bool,
    pub spaced: bool,
    /// How strings are escaped (`restyle`).
    pub escape: u64,
}

impl JweSpec {
    pub fn anon(enc: &'static str, recips: Vec<Key>) -> JweSpec {
        JweSpec {
            alg: ES.into(),
            enc,
            sender: None,
            recips,
            kids: None,
            typ: Some(TYP_ENC.into()),
            skid: None,
            apu: None,
            apv: None,
            epk: None,
            epk_json: None,
            epk_extra: vec![],
            cek: None,
            extra_protected: vec![],
            extra_top: vec![],
            extra_recipient: false,
            reversed: false,
            spaced: false,
            escape: 0,
        }
    }
    pub fn auth(sender: Key, recips: Vec<Key>) -> JweSpec {
        let mut s = JweSpec::anon(CBC, recips);
        s.alg = PU.into();
        s.skid = Some(sender.kid.clone());
        s.apu = Some(sender.kid.clone().into_bytes());
        s.sender = Some(sender);
        s
    }
}

pub fn obj(members: Vec<(String, String)>, reversed: bool, spaced: bool) -> String {
    let mut m = members;
    if reversed {
        m.reverse();
    }
    let (sep, col) = if spaced { (" ,\n ", " : ") } else { (",", ":") };
    let body: Vec<String> = m.into_iter().map(|(k, v)| format!("{}{}{}", Value::String(k), col, v)).collect();
    if spaced {
        format!("{{ {} }}", body.join(sep))
    } else {
        format!("{{{}}}", body.join(sep))
    }
}

/// The same JSON text as other serializers write it: 1 escapes slashes and everything outside ASCII,
/// 2 what could matter in HTML and everything outside ASCII, 3 every character of what is no identifier.
pub fn restyle(text: &str, style: u64) -> String {
    if style == 0 {
        return text.to_string();
    }
    let mut out = String::with_capacity(text.len() * 2);
    let mut inside = false;
    let mut it = text.chars();
    while let Some(c) = it.next() {
        let escape = match style {
            1 => c as u32 > 126,
            2 => c as u32 > 126 || "+&'<>`".contains(c),
            _ => !c.is_ascii_alphanumeric() && !"-_:.#%".contains(c),
        };
        match c {
            '"' => {
                inside = !inside;
                out.push(c);
            }
            '\\' => {
                out.push(c);
                out.extend(it.next());
            }
            '/' if inside && style == 1 => out.push_str("\\/"),
            c if inside && escape => {
                for u in c.encode_utf16(&mut [0; 2]) {
                    out.push_str(&if style == 1 { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) });
                }
            }
            c => out.push(c),
        }
    }
    out
}

fn js(s: &str) -> String {
    Value::String(s.to_string()).to_string()
}

pub struct Encoded {
    pub text: String,
    pub cek: Vec<u8>,
    pub protected: String,
}

pub fn jwe_encode(rng: &mut Prng, spec: &JweSpec, plaintext: &[u8]) -> Encoded {
    let curve = spec.recips.first().map(|k| k.alg).unwrap_or(Alg::X25519);
    let epk = spec.epk.clone().unwrap_or_else(|| Key::gen(rng, "epk", curve));
    let kids: Vec<String> = spec.kids.clone().unwrap_or_else(|| spec.recips.iter().map(|k| k.kid.clone()).collect());
    let apv = spec.apv.clone().unwrap_or_else(|| apv_of(&kids));
    let mut p: Vec<(String, String)> = vec![];
    if let Some(t) = &spec.typ {
        p.push(("typ".into(), js(t)));
    }
    p.push(("alg".into(), js(&spec.alg)));
    p.push(("enc".into(), js(spec.enc)));
    if let Some(s) = &spec.skid {
        p.push(("skid".into(), js(s)));
    }
    if let Some(a) = &spec.apu {
        p.push(("apu".into(), js(&b64(a))));
    }
    p.push(("apv".into(), js(&b64(&apv))));
    let j = spec.epk_json.clone().unwrap_or_else(|| epk.public_jwk());
    let j = match j.as_object() {
        Some(o) if !spec.epk_extra.is_empty() => {
            let m = o.iter().chain(spec.epk_extra.iter().map(|e| (&e.0, &e.1))).map(|(k, v)| (k.clone(), v.to_string())).collect();
            obj(m, spec.reversed, spec.spaced)
        }
        _ => j.to_string(),
    };
    p.push(("epk".into(), j));
    for (k, v) in &spec.extra_protected {
        p.push((k.clone(), v.to_string()));
    }
    let protected = b64(restyle(&obj(p, spec.reversed, spec.spaced), spec.escape));
    let (klen, nlen) = enc_sizes(spec.enc);
    let cek = spec.cek.clone().unwrap_or_else(|| {
        let mut c = vec![0; klen];
        rng.fill(&mut c);
        c
    });
    let mut iv = vec![0; nlen];
    rng.fill(&mut iv);
    let mut buf = SecretBytes::from_slice(plaintext);
    let n = aead(spec.enc, &cek, &iv, protected.as_bytes(), &mut buf, true).expect("peer encrypt");
    let (ct, tag) = buf.as_ref().split_at(n);
    let (ct, tag) = (ct.to_vec(), tag.to_vec());
    let mut rs = vec![];
    for (i, k) in spec.recips.iter().enumerate() {
        let apu = spec.apu.clone().unwrap_or_default();
        let kw = match (epk.alg, k.alg) {
            (Alg::X25519, Alg::X25519) => {
                let e = x25519(&epk);
                let s = spec.sender.as_ref().filter(|s| s.alg == Alg::X25519).map(x25519);
                kw_of(&e, if spec.sender.is_some() { s.as_ref().or(Some(&e)) } else { None }, &x25519(k), &spec.alg, &apu, &apv, &tag, false)
            }
            (Alg::P256, Alg::P256) => {
                let e = p256(&epk);
                let s = spec.sender.as_ref().filter(|s| s.alg == Alg::P256).map(p256);
                kw_of(&e, if spec.sender.is_some() { s.as_ref().or(Some(&e)) } else { None }, &p256(k), &spec.alg, &apu, &apv, &tag, false)
            }
            _ => None,
        };
        let mut w = SecretBytes::from_slice(&cek);
        let ek = match kw {
            Some(kw) => {
                kw.encrypt_in_place(&mut w, &[], &[]).expect("wrap");
                w.to_vec()
            }
            None => vec![0u8; cek.len() + 8],
        };
        let mut h = vec![("kid".to_string(), js(&kids[i]))];
        if spec.extra_recipient {
            h.push(("x-hint".into(), js("north")));
        }
        let mut r = vec![("header".to_string(), obj(h, spec.reversed, spec.spaced)), ("encrypted_key".to_string(), js(&b64(ek)))];
        if spec.extra_recipient {
            r.push(("x-note".into(), "[1,2]".into()));
        }
        rs.push(obj(r, spec.reversed, spec.spaced));
    }
    let mut top = vec![
        ("protected".to_string(), js(&protected)),
        ("recipients".to_string(), format!("[{}]", rs.join(","))),
        ("iv".to_string(), js(&b64(&iv))),
        ("ciphertext".to_string(), js(&b64(&ct))),
        ("tag".to_string(), js(&b64(&tag))),
    ];
    for (k, v) in &spec.extra_top {
        top.push((k.clone(), v.to_string()));
    }
    Encoded { text: restyle(&obj(top, spec.reversed, spec.spaced), spec.escape), cek, protected }
}

pub fn sig_alg(a: Alg) -> Option<(&'static str, SignatureType)> {
    match a {
        Alg::Ed25519 => Some(("EdDSA", SignatureType::EdDSA)),
        Alg::P256 => Some(("ES256", SignatureType::ES256)),
        Alg::K256 => Some(("ES256K", SignatureType::ES256K)),
        Alg::X25519 => None,
    }
}

pub fn sign_raw(k: &Key, input: &[u8]) -> Vec<u8> {
    let r = match k.alg {
        Alg::Ed25519 => Ed25519KeyPair::from_secret_bytes(&k.sk).unwrap().create_signature(input, Some(SignatureType::EdDSA)),
        Alg::P256 => P256KeyPair::from_secret_bytes(&k.sk).unwrap().create_signature(input, Some(SignatureType::ES256)),
        Alg::K256 => K256KeyPair::from_secret_bytes(&k.sk).unwrap().create_signature(input, Some(SignatureType::ES256K)),
        Alg::X25519 => return vec![7u8; 64],
    };
    r.expect("peer sign").to_vec()
}

pub fn verify_raw(k: &Key, alg: &str, input: &[u8], sig: &[u8]) -> bool {
    match (k.alg, alg) {
        (Alg::Ed25519, "EdDSA") => Ed25519KeyPair::from_jwk(&k.public_jwk().to_string()).ok().and_then(|p| p.verify_signature(input, sig, Some(SignatureType::EdDSA)).ok()).unwrap_or(false),
        (Alg::P256, "ES256") => P256KeyPair::from_jwk(&k.public_jwk().to_string()).ok().and_then(|p| p.verify_signature(input, sig, Some(SignatureType::ES256)).ok()).unwrap_or(false),
        (Alg::K256, "ES256K") => K256KeyPair::from_jwk(&k.public_jwk().to_string()).ok().and_then(|p| p.verify_signature(input, sig, Some(SignatureType::ES256K)).ok()).unwrap_or(false),
        _ => false,
    }
}

#[derive(Clone)]
pub struct SigSpec {
    pub key: Key,
    pub kid: String,
    pub alg: String,
    pub typ: Option<String>,
    /// Replace the signature by these bytes.
    pub sig: Option<Vec<u8>>,
    pub extra: bool,
    pub escape: u64,
}

impl SigSpec {
    pub fn honest(key: &Key) -> SigSpec {
        SigSpec { key: key.clone(), kid: key.kid.clone(), alg: sig_alg(key.alg).map(|a| a.0).unwrap_or("EdDSA").into(), typ: Some(TYP_SIGNED.into()), sig: None, extra: false, escape: 0 }
    }
}

pub fn jws_encode(sigs: &[SigSpec], payload: &[u8], reversed: bool, spaced: bool) -> String {
    let payload = b64(payload);
    let mut out = vec![];
    for s in sigs {
        let mut p = vec![("alg".to_string(), js(&s.alg))];
        if let Some(t) = &s.typ {
            p.insert(0, ("typ".to_string(), js(t)));
        }
        if s.extra {
            p.push(("x-extra".into(), "{\"a\":[1]}".into()));
        }
        let prot = b64(restyle(&obj(p, reversed, spaced), s.escape));
        let sig = s.sig.clone().unwrap_or_else(|| sign_raw(&s.key, format!("{}.{}", prot, payload).as_bytes()));
        let mut h = vec![("kid".to_string(), js(&s.kid))];
        if s.extra {
            h.push(("x-hint".into(), "7".into()));
        }
        let m = vec![("header".to_string(), obj(h, reversed, spaced)), ("protected".to_string(), js(&prot)), ("signature".to_string(), js(&b64(sig)))];
        out.push(obj(m, reversed, spaced));
    }
    let mut top = vec![("payload".to_string(), js(&payload)), ("signatures".to_string(), format!("[{}]", out.join(",")))];
    if sigs.iter().any(|s| s.extra) {
        top.push(("x-more".into(), "null".into()));
    }
    restyle(&obj(top, reversed, spaced), sigs.first().map(|s| s.escape).unwrap_or(0))
}

/// Compact JWT used for the rotation notice.
pub fn jwt_encode(key: &Key, kid: &str, alg: &str, typ: &str, payload: &Value, reversed: bool) -> String {
    let h = b64(obj(vec![("typ".into(), js(typ)), ("alg".into(), js(alg)), ("kid".into(), js(kid))], reversed, false));
    let p = b64(payload.to_string());
    let s = sign_raw(key, format!("{}.{}", h, p).as_bytes());
    format!("{}.{}.{}", h, p, b64(s))
}

// ---------------------------------------------------------------- decoder

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Copy)]
pub enum Why {
    Syntax,
    Apv,
    SkidApu,
    NoApu,
    Recipients,
    NotAddressed,
    SenderUnresolved,
    SenderNotListed,
    Decrypt,
    AllKeys,
    CryptoUnsupported,
    SignatureCount,
    SignerUnresolved,
    SignerNotListed,
    SignerAlg,
    BadSignature,
    NotMessage,
    Typ,
    RotSyntax,
    RotTyp,
    RotUnresolved,
    RotNotListed,
    RotAlg,
    RotSignature,
    RotIssuer,
}

#[derive(Clone, Debug)]
pub struct Reject {
    pub why: Why,
    /// Other defects the same input has (any of them may be reported).
    pub also: Vec<Why>,
    pub layer: &'static str,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Meta {
    pub encrypted: bool,
    pub authenticated: bool,
    pub non_repudiation: bool,
    pub anonymous: bool,
    pub re_wrapped: bool,
    pub from_kid: Option<String>,
    pub to_kids: Option<Vec<String>>,
    pub sign_from: Option<String>,
    pub issuer_kid: Option<String>,
    pub enc_auth: Option<String>,
    pub enc_anon: Option<String>,
    pub sign_alg: Option<String>,
    pub signed: Option<Value>,
    pub from_prior: Option<Value>,
}

#[derive(Clone, Debug)]
pub struct Accept {
    pub msg: Value,
    pub meta: Meta,
    /// Recipient lists of all layers (outermost first), for the re-wrapped case.
    pub all_to_kids: Vec<Vec<String>>,
    /// Anonymous layers passed (outermost first).
    pub anon_layers: Vec<String>,
    pub inner_anon: bool,
    /// The library may legitimately refuse this or stop at an earlier forward.
    pub gray: bool,
    /// A forward that may be returned as it is as well (unresolvable next hop).
    pub alt: Option<Box<Accept>>,
}

pub trait View {
    /// Whether the wallet reports the keys it holds in the order they were asked for.
    fn ordered(&self) -> bool {
        false
    }
    fn doc(&self, did: &str) -> Option<Rc<DocModel>>;
    fn secret(&self, kid: &str) -> Option<Key>;
}

#[derive(Clone, Copy, Debug, Default)]
pub struct RefOpts {
    pub all_keys: bool,
    pub unwrap: bool,
}

pub struct ParsedJwe {
    pub protected_raw: String,
    pub protected: Map<String, Value>,
    pub alg: String,
    pub enc: String,
    pub skid: Option<String>,
    pub apu: Option<Vec<u8>>,
    pub apv: Vec<u8>,
    pub epk: Value,
    pub recips: Vec<(String, String)>,
    pub iv: String,
    pub ct: String,
    pub tag: String,
}

fn st(v: Option<&Value>) -> Option<String> {
    v.and_then(|v| v.as_str()).map(|s| s.to_string())
}

/// None: not an encrypted envelope at all; Some(Err): one with an unusable protected header.
pub fn parse_jwe(v: &Value) -> Option<Result<ParsedJwe, ()>> {
    let o = v.as_object()?;
    let protected_raw = st(o.get("protected"))?;
    let iv = st(o.get("iv"))?;
    let ct = st(o.get("ciphertext"))?;
    let tag = st(o.get("tag"))?;
    let mut recips = vec![];
    for r in o.get("recipients")?.as_array()? {
        recips.push((st(r.get("header")?.get("kid"))?, st(r.get("encrypted_key"))?));
    }
    Some((|| {
        let raw = unb64(&protected_raw).ok_or(())?;
        let p: Value = serde_json::from_slice(&raw).map_err(|_| ())?;
        let p = p.as_object().ok_or(())?.clone();
        let optstr = |n: &str| -> Result<Option<String>, ()> {
            match p.get(n) {
                None | Some(Value::Null) => Ok(None),
                Some(Value::String(s)) => Ok(Some(s.clone())),
                _ => Err(()),
            }
        };
        let apu = match optstr("apu")? {
            Some(a) => Some(unb64(&a).ok_or(())?),
            None => None,
        };
        Ok(ParsedJwe {
            alg: st(p.get("alg")).ok_or(())?,
            enc: st(p.get("enc")).ok_or(())?,
            skid: optstr("skid")?,
            apu,
            apv: unb64(&st(p.get("apv")).ok_or(())?).ok_or(())?,
            epk: p.get("epk").cloned().ok_or(())?,
            protected: p,
            protected_raw,
            recips,
            iv,
            ct,
            tag,
        })
    })())
}

impl ParsedJwe {
    pub fn kids(&self) -> Vec<String> {
        self.recips.iter().map(|r| r.0.clone()).collect()
    }
    pub fn defects(&self) -> Vec<Why> {
        let mut w = vec![];
        if self.apv != apv_of(&self.kids()) {
            w.push(Why::Apv);
        }
        match (&self.apu, &self.skid) {
            (Some(a), Some(s)) if a.as_slice() != s.as_bytes() => w.push(Why::SkidApu),
            (None, Some(_)) => w.push(Why::SkidApu),
            _ => {}
        }
        if let Some(a) = &self.apu {
            if std::str::from_utf8(a).is_err() {
                w.push(Why::SkidApu);
            }
        }
        let bad = self.recips.is_empty() || {
            let d = split_id(&self.recips[0].0).0;
            self.recips.iter().any(|r| {
                let (x, frag) = split_id(&r.0);
                x != d || !frag
            })
        };
        if bad {
            w.push(Why::Recipients);
        }
        w
    }
    /// The key that wraps the content key for `key`.
    fn wrapping(&self, key: &Key, sender: Option<&Key>, tag: &[u8]) -> Option<AesKey<A256Kw>> {
        let apu = self.apu.clone().unwrap_or_default();
        let sender = match sender {
            Some(s) => Some(key_pub(s)?),
            None => None,
        };
        match (parse_pub(&self.epk, key.alg)?, key.alg, sender) {
            (Pub::X(e), Alg::X25519, Some(Pub::X(s))) => kw_of(&e, Some(&s), &x25519(key), &self.alg, &apu, &self.apv, tag, true),
            (Pub::P(e), Alg::P256, Some(Pub::P(s))) => kw_of(&e, Some(&s), &p256(key), &self.alg, &apu, &self.apv, tag, true),
            (Pub::X(e), Alg::X25519, None) => kw_of(&e, None, &x25519(key), &self.alg, &apu, &self.apv, tag, true),
            (Pub::P(e), Alg::P256, None) => kw_of(&e, None, &p256(key), &self.alg, &apu, &self.apv, tag, true),
            _ => None,
        }
    }
    /// The content key as the holder of `key` learns it, `tag` entering the derivation.
    fn unwrap_cek(&self, ek: &str, key: &Key, sender: Option<&Key>, tag: &[u8]) -> Option<Vec<u8>> {
        let mut b = SecretBytes::from_slice(&unb64(ek)?);
        self.wrapping(key, sender, tag)?.decrypt_in_place(&mut b, &[], &[]).ok()?;
        Some(b.to_vec())
    }
    /// What a recipient with bad intentions learns: the content key, however it was wrapped.
    pub fn cek(&self, kid: &str, key: &Key, sender: Option<&Key>) -> Option<Vec<u8>> {
        let ek = &self.recips.iter().find(|r| r.0 == kid)?.1;
        let tag = unb64(&self.tag)?;
        self.unwrap_cek(ek, key, sender, &tag).or_else(|| self.unwrap_cek(ek, key, sender, &[])).or_else(|| self.unwrap_cek(ek, key, None, &[]))
    }
    /// Decrypt with one held key; `sender` for authenticated envelopes.
    pub fn open(&self, kid: &str, key: &Key, sender: Option<&Key>) -> Option<Vec<u8>> {
        let tag = unb64(&self.tag)?;
        let ct = unb64(&self.ct)?;
        let iv = unb64(&self.iv)?;
        for (k, ek) in &self.recips {
            if k != kid {
                continue;
            }
            let r = (|| {
                let cek = self.unwrap_cek(ek, key, sender, &tag)?;
                let mut buf = SecretBytes::from_slice(&ct);
                buf.extend_from_slice(&tag);
                aead(&self.enc, &cek, &iv, self.protected_raw.as_bytes(), &mut buf, false)?;
                Some(buf.to_vec())
            })();
            if r.is_some() {
                return r;
            }
        }
        None
    }
}

pub struct ParsedJws {
    pub payload: String,
    /// (kid, protected b64, parsed protected, signature b64)
    pub sigs: Vec<(String, String, Option<(Option<String>, String)>, String)>,
}

pub fn parse_jws(v: &Value) -> Option<ParsedJws> {
    let o = v.as_object()?;
    let payload = st(o.get("payload"))?;
    let mut sigs = vec![];
    for s in o.get("signatures")?.as_array()? {
        let kid = st(s.get("header")?.get("kid"))?;
        let prot = st(s.get("protected"))?;
        let sig = st(s.get("signature"))?;
        let parsed = (|| {
            let p: Value = serde_json::from_slice(&unb64(&prot)?).ok()?;
            Some((st(p.get("typ")), st(p.get("alg"))?))
        })();
        sigs.push((kid, prot, parsed, sig));
    }
    Some(ParsedJws { payload, sigs })
}

/// The meaning of a plaintext message: known members typed, absent optional members dropped.
pub fn norm_message(v: &Value) -> Option<Value> {
    let o = v.as_object()?;
    let mut out = Map::new();
    for (k, x) in o {
        let y = match k.as_str() {
            "id" | "type" | "typ" => Value::String(x.as_str()?.to_string()),
            "from" | "thid" | "pthid" | "from_prior" => match x {
                Value::Null => continue,
                _ => Value::String(x.as_str()?.to_string()),
            },
            "to" => match x {
                Value::Null => continue,
                _ => {
                    for t in x.as_array()? {
                        t.as_str()?;
                    }
                    x.clone()
                }
            },
            "created_time" | "expires_time" => match x {
                Value::Null => continue,
                _ => json!(x.as_u64()?),
            },
            "attachments" => match x {
                Value::Null => continue,
                _ => Value::Array(x.as_array()?.iter().map(norm_attachment).collect::<Option<Vec<_>>>()?),
            },
            _ => x.clone(),
        };
        out.insert(k.clone(), y);
    }
    out.get("id")?;
    out.get("type")?;
    out.get("body")?;
    out.entry("typ").or_insert_with(|| json!(TYP_PLAIN));
    Some(Value::Object(out))
}

pub fn norm_attachment(v: &Value) -> Option<Value> {
    let o = v.as_object()?;
    let mut out = Map::new();
    for n in ["id", "description", "filename", "media_type", "format"] {
        match o.get(n) {
            None | Some(Value::Null) => {}
            Some(x) => {
                out.insert(n.into(), json!(x.as_str()?));
            }
        }
    }
    for n in ["lastmod_time", "byte_count"] {
        match o.get(n) {
            None | Some(Value::Null) => {}
            Some(x) => {
                out.insert(n.into(), json!(x.as_u64()?));
            }
        }
    }
    let d = o.get("data")?.as_object()?;
    let mut dd = Map::new();
    match d.get("jws") {
        None | Some(Value::Null) => {}
        Some(x) => {
            dd.insert("jws".into(), json!(x.as_str()?));
        }
    }
    if let Some(Value::String(b)) = d.get("base64") {
        dd.insert("base64".into(), json!(b));
    } else if let Some(j) = d.get("json") {
        dd.insert("json".into(), j.clone());
    } else {
        for l in d.get("links")?.as_array()? {
            l.as_str()?;
        }
        dd.insert("links".into(), d["links"].clone());
        dd.insert("hash".into(), json!(d.get("hash")?.as_str()?));
    }
    out.insert("data".into(), Value::Object(dd));
    Some(Value::Object(out))
}

/// `(next, forwarded)` if the (normalised) message is a forward.
pub fn as_forward(m: &Value) -> Option<(String, Value)> {
    if m["type"] != FORWARD {
        return None;
    }
    let next = m["body"].as_object()?.get("next")?.as_str()?.to_string();
    let d = m.get("attachments")?.as_array()?.first()?.get("data")?.as_object()?;
    Some((next, d.get("json")?.clone()))
}

pub fn norm_from_prior(v: &Value) -> Option<Value> {
    let o = v.as_object()?;
    let mut out = Map::new();
    out.insert("iss".into(), json!(o.get("iss")?.as_str()?));
    out.insert("sub".into(), json!(o.get("sub")?.as_str()?));
    for n in ["aud", "jti"] {
        match o.get(n) {
            None | Some(Value::Null) => {}
            Some(x) => {
                out.insert(n.into(), json!(x.as_str()?));
            }
        }
    }
    for n in ["exp", "nbf", "iat"] {
        match o.get(n) {
            None | Some(Value::Null) => {}
            Some(x) => {
                out.insert(n.into(), json!(x.as_u64()?));
            }
        }
    }
    Some(Value::Object(out))
}

fn rej(why: Why, layer: &'static str) -> Reject {
    Reject { why, also: vec![], layer }
}

/// Decide a rotation notice; returns (normalised notice, issuer key id).
pub fn ref_from_prior(jwt: &str, view: &dyn View) -> Result<(Value, String), Reject> {
    let l = "from_prior";
    let seg: Vec<&str> = jwt.split('.').collect();
    if seg.len() != 3 {
        return Err(rej(Why::RotSyntax, l));
    }
    let h: Value = unb64(seg[0]).and_then(|b| serde_json::from_slice(&b).ok()).ok_or_else(|| rej(Why::RotSyntax, l))?;
    let (typ, alg, kid) = match (st(h.get("typ")), st(h.get("alg")), st(h.get("kid"))) {
        (Some(t), Some(a), Some(k)) => (t, a, k),
        _ => return Err(rej(Why::RotSyntax, l)),
    };
    if typ != "JWT" {
        return Err(rej(Why::RotTyp, l));
    }
    let (did, frag) = split_id(&kid);
    if !frag {
        return Err(rej(Why::RotSyntax, l));
    }
    let payload = unb64(seg[1]).and_then(|b| String::from_utf8(b).ok()).and_then(|s| serde_json::from_str::<Value>(&s).ok());
    let norm = payload.as_ref().and_then(norm_from_prior);
    let iss_bad = norm.as_ref().map(|n| n["iss"].as_str() != Some(did)).unwrap_or(false);
    let mut also = vec![];
    if iss_bad {
        also.push(Why::RotIssuer);
    }
    let rej2 = |w: Why| Reject { why: w, also: also.clone(), layer: l };
    let doc = view.doc(did).ok_or_else(|| rej2(Why::RotUnresolved))?;
    if !doc.auth.iter().any(|k| *k == kid) {
        return Err(rej2(Why::RotNotListed));
    }
    let vm = doc.vm(&kid).ok_or_else(|| rej2(Why::RotNotListed))?;
    let key = vm.key().ok_or_else(|| rej2(Why::RotAlg))?;
    if sig_alg(key.alg).map(|a| a.0) != Some(alg.as_str()) {
        return Err(rej2(Why::RotAlg));
    }
    let sig = unb64(seg[2]).ok_or_else(|| rej2(Why::RotSyntax))?;
    if !verify_raw(key, &alg, format!("{}.{}", seg[0], seg[1]).as_bytes(), &sig) {
        return Err(rej2(Why::RotSignature));
    }
    if iss_bad {
        return Err(rej(Why::RotIssuer, l));
    }
    let norm = norm.ok_or_else(|| rej(Why::RotSyntax, l))?;
    Ok((norm, kid))
}

pub fn ref_unpack(text: &str, view: &dyn View, opts: RefOpts) -> Result<Accept, Reject> {
    let v: Value = serde_json::from_str(text).map_err(|_| rej(Why::Syntax, "json"))?;
    MIXED.with(|m| m.set(false));
    let r = unpack_value(v, view, opts, Accept { msg: Value::Null, meta: Meta::default(), all_to_kids: vec![], anon_layers: vec![], inner_anon: false, gray: false, alt: None }, 0);
    r.map_err(|mut e| {
        // some held key does not open a layer: stopping there is right, too
        if MIXED.with(|m| m.get()) {
            e.also.push(e.why);
            e.also.push(Why::Decrypt);
        }
        e
    })
}

thread_local! {
    static MIXED: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

fn open_layer(j: &ParsedJwe, view: &dyn View, sender: Option<&Key>, opts: RefOpts, gray: &mut bool, layer: &'static str) -> Result<Vec<u8>, Reject> {
    let mut held: Vec<String> = vec![];
    for k in j.kids() {
        if view.secret(&k).is_some() && !held.contains(&k) {
            held.push(k);
        }
    }
    let mut good = None;
    let mut bad = 0;
    let mut first = None;
    for k in &held {
        let key = view.secret(k).unwrap();
        match j.open(k, &key, sender) {
            Some(p) => good = Some(p),
            None => bad += 1,
        }
        first = first.or(Some(bad == 0));
    }
    match good {
        None => Err(rej(Why::Decrypt, layer)),
        Some(_) if bad > 0 && opts.all_keys => Err(rej(Why::AllKeys, layer)),
        Some(p) => {
            // a wallet that reports its keys in the order of the message, the first of which decrypts
            if bad > 0 && !(first == Some(true) && view.ordered()) {
                *gray = true;
                MIXED.with(|m| m.set(true));
            }
            Ok(p)
        }
    }
}

fn unpack_value(v: Value, view: &dyn View, opts: RefOpts, mut acc: Accept, depth: u32) -> Result<Accept, Reject> {
    let mut v = v;
    if depth > 40 {
        return Err(rej(Why::Syntax, "depth"));
    }
    // anonymous layer
    let mut is_anon = false;
    if let Some(j) = parse_jwe(&v) {
        let j = j.map_err(|_| rej(Why::Syntax, "jwe"))?;
        if j.alg == ES {
            is_anon = true;
            if let Some(w) = j.defects().first() {
                return Err(Reject { why: *w, also: j.defects(), layer: "anon" });
            }
            if j.apu.is_some() {
                acc.gray = true;
            }
            if !j.kids().iter().any(|k| view.secret(k).is_some()) {
                return Err(rej(Why::NotAddressed, "anon"));
            }
            if enc_known(&j.enc).is_none() {
                return Err(rej(Why::CryptoUnsupported, "anon"));
            }
            let mut gray = acc.gray;
            let p = open_layer(&j, view, None, opts, &mut gray, "anon")?;
            acc.gray = gray;
            acc.meta.encrypted = true;
            acc.meta.anonymous = true;
            acc.meta.to_kids = Some(j.kids());
            acc.meta.enc_anon = Some(j.enc.clone());
            acc.all_to_kids.push(j.kids());
            acc.anon_layers.push(j.enc.clone());
            acc.inner_anon = true;
            let s = String::from_utf8(p).map_err(|_| rej(Why::NotMessage, "anon-utf8"))?;
            let inner: Value = serde_json::from_str(&s).map_err(|_| rej(Why::NotMessage, "anon-json"))?;
            if opts.unwrap {
                if let Some(m) = norm_message(&inner) {
                    if let Some((next, fwd)) = as_forward(&m) {
                        let (did, frag) = split_id(&next);
                        let mine = if frag {
                            Some(view.secret(&next).is_some())
                        } else {
                            view.doc(did).map(|d| d.ka.iter().any(|k| view.secret(k).is_some()))
                        };
                        match mine {
                            Some(true) => {
                                acc.meta.re_wrapped = true;
                                acc.inner_anon = false;
                                return unpack_value(fwd, view, opts, acc, depth + 1);
                            }
                            Some(false) => {}
                            // cannot tell: refusing and returning the forward are both right
                            None => acc.gray = true,
                        }
                    }
                }
            }
            v = inner;
        }
    }
    // authenticated layer
    if let Some(j) = parse_jwe(&v) {
        let j = j.map_err(|_| rej(Why::Syntax, "jwe"))?;
        if j.alg == PU {
            let l = "auth";
            if let Some(w) = j.defects().first() {
                return Err(Reject { why: *w, also: j.defects(), layer: l });
            }
            let apu = j.apu.clone().ok_or_else(|| rej(Why::NoApu, l))?;
            let from = String::from_utf8(apu).map_err(|_| rej(Why::NoApu, l))?;
            let (fdid, frag) = split_id(&from);
            if !frag {
                return Err(rej(Why::NoApu, l));
            }
            let held = j.kids().iter().any(|k| view.secret(k).is_some());
            let mut defects = vec![];
            let doc = view.doc(fdid);
            let mut sender = None;
            match &doc {
                None => defects.push(Why::SenderUnresolved),
                Some(d) => {
                    if !d.ka.contains(&from) || d.vm(&from).is_none() {
                        defects.push(Why::SenderNotListed);
                    } else {
                        match d.vm(&from).unwrap().key() {
                            Some(k) => sender = Some(k.clone()),
                            None => defects.push(Why::CryptoUnsupported),
                        }
                    }
                }
            }
            if !held {
                defects.push(Why::NotAddressed);
            }
            if let Some(w) = defects.first() {
                return Err(Reject { why: *w, also: defects.clone(), layer: l });
            }
            if j.enc != CBC {
                // only one content algorithm is defined for authenticated encryption here
                return Err(rej(Why::CryptoUnsupported, l));
            }
            let mut gray = acc.gray;
            let p = open_layer(&j, view, sender.as_ref(), opts, &mut gray, l)?;
            acc.gray = gray;
            acc.meta.encrypted = true;
            acc.meta.authenticated = true;
            acc.meta.from_kid = Some(from);
            acc.meta.enc_auth = Some(j.enc.clone());
            acc.all_to_kids.push(j.kids());
            if acc.meta.to_kids.is_none() {
                acc.meta.to_kids = Some(j.kids());
            }
            let s = String::from_utf8(p).map_err(|_| rej(Why::NotMessage, "auth-utf8"))?;
            v = serde_json::from_str(&s).map_err(|_| rej(Why::NotMessage, "auth-json"))?;
        } else if j.alg != ES && !is_anon {
            // unknown key algorithm: not an envelope we know
        }
    }
    // signature
    if let Some(j) = parse_jws(&v) {
        let l = "sign";
        if j.sigs.len() != 1 {
            return Err(rej(Why::SignatureCount, l));
        }
        let (kid, prot, parsed, sig) = j.sigs[0].clone();
        let (_, alg) = parsed.ok_or_else(|| rej(Why::Syntax, l))?;
        let (did, frag) = split_id(&kid);
        if !frag {
            return Err(rej(Why::SignerNotListed, l));
        }
        let doc = view.doc(did).ok_or_else(|| rej(Why::SignerUnresolved, l))?;
        if !doc.auth.contains(&kid) || doc.vm(&kid).is_none() {
            return Err(rej(Why::SignerNotListed, l));
        }
        let key = doc.vm(&kid).unwrap().key().cloned().ok_or_else(|| rej(Why::SignerAlg, l))?;
        if sig_alg(key.alg).map(|a| a.0) != Some(alg.as_str()) {
            return Err(rej(Why::SignerAlg, l));
        }
        let sig = unb64(&sig).ok_or_else(|| rej(Why::BadSignature, l))?;
        if !verify_raw(&key, &alg, format!("{}.{}", prot, j.payload).as_bytes(), &sig) {
            return Err(rej(Why::BadSignature, l));
        }
        acc.meta.authenticated = true;
        acc.meta.non_repudiation = true;
        acc.meta.sign_from = Some(kid);
        acc.meta.sign_alg = Some(alg);
        acc.meta.signed = Some(v.clone());
        let p = unb64(&j.payload).and_then(|b| String::from_utf8(b).ok()).ok_or_else(|| rej(Why::NotMessage, l))?;
        v = serde_json::from_str(&p).map_err(|_| rej(Why::NotMessage, l))?;
    }
    let m = norm_message(&v).ok_or_else(|| rej(Why::NotMessage, "plain"))?;
    if m["typ"] != TYP_PLAIN {
        return Err(rej(Why::Typ, "plain"));
    }
    if let Some(jwt) = m.get("from_prior").and_then(|x| x.as_str()) {
        let (fp, kid) = ref_from_prior(jwt, view)?;
        acc.meta.from_prior = Some(fp);
        acc.meta.issuer_kid = Some(kid);
    }
    acc.msg = m;
    Ok(acc)
}

pub fn enc_known(e: &str) -> Option<&'static str> {
    match e {
        CBC => Some(CBC),
        GCM => Some(GCM),
        XC => Some(XC),
        _ => None,
    }
}

impl Why {
    /// The error kinds that tell the caller this reason, where the contract fixes one.
    pub fn kinds(self) -> Option<&'static [ErrorKind]> {
        use ErrorKind::*;
        Some(match self {
            Why::Apv | Why::SkidApu | Why::Recipients => &[Malformed],
            Why::NotAddressed => &[SecretNotFound],
            Why::SenderUnresolved | Why::SignerUnresolved | Why::RotUnresolved => &[DIDNotResolved],
            Why::SenderNotListed | Why::SignerNotListed | Why::RotNotListed => &[DIDUrlNotFound],
            _ => return None,
        })
    }
}

/// Content encryption alone: (iv, ciphertext, tag) in base64url.
pub fn seal(rng: &mut Prng, enc: &str, cek: &[u8], aad: &[u8], plaintext: &[u8]) -> (String, String, String) {
    let (_, nlen) = enc_sizes(enc);
    let mut iv = vec![0; nlen];
    rng.fill(&mut iv);
    let mut buf = SecretBytes::from_slice(plaintext);
    let n = aead(enc, cek, &iv, aad, &mut buf, true).expect("peer encrypt");
    let (ct, tag) = buf.as_ref().split_at(n);
    (b64(&iv), b64(ct), b64(tag))
}
