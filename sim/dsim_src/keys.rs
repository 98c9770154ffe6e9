//! Keys, DID documents and secrets as the simulation knows them, rendered into the library's types
//! (or into the documented JSON) in any supported representation.
use askar_crypto::alg::{ed25519::Ed25519KeyPair, k256::K256KeyPair, p256::P256KeyPair, x25519::X25519KeyPair};
use askar_crypto::jwk::ToJwk;
use askar_crypto::repr::{KeyPublicBytes, KeySecretBytes};
use askar_crypto::sim::Prng;
use didcomm::did::{DIDCommMessagingService, DIDDoc, Service, ServiceKind, VerificationMaterial, VerificationMethod, VerificationMethodType};
use didcomm::secrets::{Secret, SecretMaterial, SecretType};
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Alg {
    X25519,
    P256,
    Ed25519,
    K256,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fmt {
    Jwk,
    B58,
    Mb,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Key {
    pub kid: String,
    pub alg: Alg,
    pub sk: [u8; 32],
    pub x: Vec<u8>,
    pub y: Option<Vec<u8>>,
}

pub fn b64(b: impl AsRef<[u8]>) -> String {
    base64::encode_config(b, base64::URL_SAFE_NO_PAD)
}
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    base64::decode_config(s, base64::URL_SAFE_NO_PAD).ok()
}

/// Unsigned varint (multicodec prefix) followed by the bytes.
pub fn multicodec(prefix: u32, b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut p = prefix;
    loop {
        let c = (p & 0x7f) as u8;
        p >>= 7;
        if p == 0 {
            v.push(c);
            break;
        }
        v.push(c | 0x80);
    }
    v.extend_from_slice(b);
    v
}

impl Key {
    pub fn gen(rng: &mut Prng, kid: &str, alg: Alg) -> Key {
        loop {
            let mut sk = [0u8; 32];
            rng.fill(&mut sk);
            if let Some(k) = Key::from_sk(kid, alg, sk) {
                return k;
            }
        }
    }
    pub fn from_sk(kid: &str, alg: Alg, sk: [u8; 32]) -> Option<Key> {
        let (x, y) = match alg {
            Alg::X25519 => (X25519KeyPair::from_secret_bytes(&sk).ok()?.with_public_bytes(|b| b.to_vec()), None),
            Alg::Ed25519 => (Ed25519KeyPair::from_secret_bytes(&sk).ok()?.with_public_bytes(|b| b.to_vec()), None),
            Alg::P256 => xy(P256KeyPair::from_secret_bytes(&sk).ok()?.to_jwk_public(None).ok()?),
            Alg::K256 => xy(K256KeyPair::from_secret_bytes(&sk).ok()?.to_jwk_public(None).ok()?),
        };
        Some(Key { kid: kid.to_string(), alg, sk, x, y })
    }
    /// The representation actually usable for this kind of key.
    pub fn fmt(&self, f: Fmt) -> Fmt {
        match self.alg {
            Alg::P256 | Alg::K256 => Fmt::Jwk,
            _ => f,
        }
    }
    pub fn public_jwk(&self) -> Value {
        match self.alg {
            Alg::X25519 => json!({"kty":"OKP","crv":"X25519","x":b64(&self.x)}),
            Alg::Ed25519 => json!({"kty":"OKP","crv":"Ed25519","x":b64(&self.x)}),
            Alg::P256 => json!({"kty":"EC","crv":"P-256","x":b64(&self.x),"y":b64(self.y.as_ref().unwrap())}),
            Alg::K256 => json!({"kty":"EC","crv":"secp256k1","x":b64(&self.x),"y":b64(self.y.as_ref().unwrap())}),
        }
    }
    pub fn private_jwk(&self) -> Value {
        let mut j = self.public_jwk();
        j["d"] = json!(b64(self.sk));
        j
    }
    /// As some tools export keys: with members that change nothing.
    fn exported(&self, mut j: Value) -> Value {
        if self.x[1] % 4 == 0 {
            j["kid"] = json!(self.kid);
        }
        if self.x[2] % 4 == 0 {
            j["ext"] = json!(true);
            j["x-note"] = json!({"made": 2026});
        }
        j
    }
    fn public_mb(&self) -> String {
        let p = if self.alg == Alg::X25519 { 0xEC } else { 0xED };
        format!("z{}", bs58::encode(multicodec(p, &self.x)).into_string())
    }
    fn secret_bytes(&self) -> Vec<u8> {
        let mut v = self.sk.to_vec();
        if self.alg == Alg::Ed25519 {
            v.extend_from_slice(&self.x);
        }
        v
    }
    fn private_mb(&self) -> String {
        let p = if self.alg == Alg::X25519 { 0x1302 } else { 0x1300 };
        format!("z{}", bs58::encode(multicodec(p, &self.secret_bytes())).into_string())
    }
    fn did(&self) -> &str {
        self.kid.split('#').next().unwrap()
    }
    /// A method may be controlled by another DID; what it may be used for is said elsewhere.
    pub fn controller(&self) -> String {
        match self.x.last().copied().unwrap_or(9) % 8 {
            0 => "did:sim:controller".to_string(),
            1 => String::new(),
            _ => self.did().to_string(),
        }
    }
    pub fn vm(&self, f: Fmt) -> VerificationMethod {
        let (type_, verification_material) = match (self.fmt(f), self.alg) {
            (Fmt::Jwk, _) => (VerificationMethodType::JsonWebKey2020, VerificationMaterial::JWK { public_key_jwk: self.exported(self.public_jwk()) }),
            (Fmt::B58, Alg::X25519) => (VerificationMethodType::X25519KeyAgreementKey2019, VerificationMaterial::Base58 { public_key_base58: bs58::encode(&self.x).into_string() }),
            (Fmt::B58, _) => (VerificationMethodType::Ed25519VerificationKey2018, VerificationMaterial::Base58 { public_key_base58: bs58::encode(&self.x).into_string() }),
            (Fmt::Mb, Alg::X25519) => (VerificationMethodType::X25519KeyAgreementKey2020, VerificationMaterial::Multibase { public_key_multibase: self.public_mb() }),
            (Fmt::Mb, _) => (VerificationMethodType::Ed25519VerificationKey2020, VerificationMaterial::Multibase { public_key_multibase: self.public_mb() }),
        };
        VerificationMethod { id: self.kid.clone(), type_, controller: self.controller(), verification_material }
    }
    pub fn vm_json(&self, f: Fmt) -> Value {
        let (t, name, v) = match (self.fmt(f), self.alg) {
            (Fmt::Jwk, _) => ("JsonWebKey2020", "publicKeyJwk", self.exported(self.public_jwk())),
            (Fmt::B58, Alg::X25519) => ("X25519KeyAgreementKey2019", "publicKeyBase58", json!(bs58::encode(&self.x).into_string())),
            (Fmt::B58, _) => ("Ed25519VerificationKey2018", "publicKeyBase58", json!(bs58::encode(&self.x).into_string())),
            (Fmt::Mb, Alg::X25519) => ("X25519KeyAgreementKey2020", "publicKeyMultibase", json!(self.public_mb())),
            (Fmt::Mb, _) => ("Ed25519VerificationKey2020", "publicKeyMultibase", json!(self.public_mb())),
        };
        let mut o = json!({"id": self.kid, "type": t, "controller": self.controller()});
        o[name] = v;
        o
    }
    pub fn secret(&self, f: Fmt) -> Secret {
        let (type_, secret_material) = match (self.fmt(f), self.alg) {
            (Fmt::Jwk, _) => (SecretType::JsonWebKey2020, SecretMaterial::JWK { private_key_jwk: self.exported(self.private_jwk()) }),
            (Fmt::B58, Alg::X25519) => (SecretType::X25519KeyAgreementKey2019, SecretMaterial::Base58 { private_key_base58: bs58::encode(self.secret_bytes()).into_string() }),
            (Fmt::B58, _) => (SecretType::Ed25519VerificationKey2018, SecretMaterial::Base58 { private_key_base58: bs58::encode(self.secret_bytes()).into_string() }),
            (Fmt::Mb, Alg::X25519) => (SecretType::X25519KeyAgreementKey2020, SecretMaterial::Multibase { private_key_multibase: self.private_mb() }),
            (Fmt::Mb, _) => (SecretType::Ed25519VerificationKey2020, SecretMaterial::Multibase { private_key_multibase: self.private_mb() }),
        };
        Secret { id: self.kid.clone(), type_, secret_material }
    }
    pub fn secret_json(&self, f: Fmt) -> Value {
        let (t, name, v) = match (self.fmt(f), self.alg) {
            (Fmt::Jwk, _) => ("JsonWebKey2020", "privateKeyJwk", self.exported(self.private_jwk())),
            (Fmt::B58, Alg::X25519) => ("X25519KeyAgreementKey2019", "privateKeyBase58", json!(bs58::encode(self.secret_bytes()).into_string())),
            (Fmt::B58, _) => ("Ed25519VerificationKey2018", "privateKeyBase58", json!(bs58::encode(self.secret_bytes()).into_string())),
            (Fmt::Mb, Alg::X25519) => ("X25519KeyAgreementKey2020", "privateKeyMultibase", json!(self.private_mb())),
            (Fmt::Mb, _) => ("Ed25519VerificationKey2020", "privateKeyMultibase", json!(self.private_mb())),
        };
        let mut o = json!({"id": self.kid, "type": t});
        o[name] = v;
        o
    }
}

fn xy(jwk: String) -> (Vec<u8>, Option<Vec<u8>>) {
    let v: Value = serde_json::from_str(&jwk).unwrap();
    (unb64(v["x"].as_str().unwrap()).unwrap(), Some(unb64(v["y"].as_str().unwrap()).unwrap()))
}

/// Public material of one verification method.
#[derive(Clone, Debug)]
pub enum Mat {
    Good(Key, Fmt),
    /// Hostile or unusual material: (type, material, kind of key it appears to be).
    Weird { type_: VerificationMethodType, material: VerificationMaterial, looks: Option<Alg> },
}

#[derive(Clone, Debug)]
pub struct VmModel {
    pub kid: String,
    pub mat: Mat,
}

impl VmModel {
    /// The kind of key this method claims to hold.
    pub fn looks(&self) -> Option<Alg> {
        match &self.mat {
            Mat::Good(k, _) => Some(k.alg),
            Mat::Weird { looks, .. } => *looks,
        }
    }
    pub fn key(&self) -> Option<&Key> {
        match &self.mat {
            Mat::Good(k, _) => Some(k),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Svc {
    Didcomm { uri: String, accept: Option<Vec<String>>, routing: Vec<String> },
    Other(Value),
}

#[derive(Clone, Debug)]
pub struct SvcModel {
    pub id: String,
    pub kind: Svc,
}

#[derive(Clone, Debug, Default)]
pub struct DocModel {
    pub did: String,
    pub ver: u32,
    pub ka: Vec<String>,
    pub auth: Vec<String>,
    pub vms: Vec<VmModel>,
    pub services: Vec<SvcModel>,
}

impl DocModel {
    pub fn vm(&self, kid: &str) -> Option<&VmModel> {
        self.vms.iter().find(|v| v.kid == kid)
    }
    pub fn to_lib(&self) -> DIDDoc {
        DIDDoc {
            id: self.did.clone(),
            key_agreement: self.ka.clone(),
            authentication: self.auth.clone(),
            verification_method: self
                .vms
                .iter()
                .map(|v| match &v.mat {
                    Mat::Good(k, f) => {
                        let mut m = k.vm(*f);
                        m.id = v.kid.clone();
                        m
                    }
                    Mat::Weird { type_, material, .. } => VerificationMethod {
                        id: v.kid.clone(),
                        type_: type_.clone(),
                        controller: self.did.clone(),
                        verification_material: material.clone(),
                    },
                })
                .collect(),
            service: self
                .services
                .iter()
                .map(|s| Service {
                    id: s.id.clone(),
                    service_endpoint: match &s.kind {
                        Svc::Didcomm { uri, accept, routing } => ServiceKind::DIDCommMessaging {
                            value: DIDCommMessagingService { uri: uri.clone(), accept: accept.clone(), routing_keys: routing.clone() },
                        },
                        Svc::Other(v) => ServiceKind::Other { value: v.clone() },
                    },
                })
                .collect(),
        }
    }
    /// The documented JSON form (only for documents without weird material).
    pub fn to_json(&self) -> Value {
        json!({
            "id": self.did,
            "keyAgreement": self.ka,
            "authentication": self.auth,
            "verificationMethod": self.vms.iter().map(|v| match &v.mat {
                Mat::Good(k, f) => k.vm_json(*f),
                Mat::Weird { type_, material, .. } => {
                    let mut o = json!({"id": v.kid, "type": format!("{:?}", type_), "controller": self.did});
                    match material {
                        VerificationMaterial::JWK { public_key_jwk } => o["publicKeyJwk"] = public_key_jwk.clone(),
                        VerificationMaterial::Multibase { public_key_multibase } => o["publicKeyMultibase"] = json!(public_key_multibase),
                        VerificationMaterial::Base58 { public_key_base58 } => o["publicKeyBase58"] = json!(public_key_base58),
                    }
                    o
                }
            }).collect::<Vec<_>>(),
            "service": self.services.iter().map(|s| {
                match &s.kind {
                    Svc::Didcomm { uri, accept, routing } => {
                        let mut e = json!({"uri": uri});
                        if let Some(a) = accept { e["accept"] = json!(a); }
                        e["routingKeys"] = json!(routing);
                        json!({"id": s.id, "type": "DIDCommMessaging", "serviceEndpoint": e})
                    }
                    Svc::Other(v) => json!({"id": s.id, "type": "Other", "serviceEndpoint": v}),
                }
            }).collect::<Vec<_>>(),
        })
    }
}
