use crate::error::{err, Error, ErrorKind};
use serde_json::Value;

/// The members of a parsed JWK that the key types use.
#[derive(Debug, Clone, Default)]
pub struct JwkParts {
    pub kty: String,
    pub crv: Option<String>,
    pub x: Option<String>,
    pub y: Option<String>,
    pub d: Option<String>,
}

impl JwkParts {
    pub fn parse(jwk: &str) -> Result<Self, Error> {
        let v: Value = match serde_json::from_str(jwk) {
            Ok(v) => v,
            Err(_) => return err(ErrorKind::Invalid, "Error deserializing JWK"),
        };
        let o = match v {
            Value::Object(o) => o,
            _ => return err(ErrorKind::Invalid, "Error deserializing JWK"),
        };
        let get = |k: &str| -> Result<Option<String>, Error> {
            match o.get(k) {
                None => Ok(None),
                Some(Value::String(s)) => Ok(Some(s.clone())),
                Some(_) => err(ErrorKind::Invalid, "Error deserializing JWK"),
            }
        };
        let kty = match get("kty")? {
            Some(k) => k,
            None => return err(ErrorKind::Invalid, "Error deserializing JWK"),
        };
        Ok(JwkParts { kty, crv: get("crv")?, x: get("x")?, y: get("y")?, d: get("d")? })
    }

    pub(crate) fn bytes32(f: &Option<String>) -> Result<[u8; 32], Error> {
        let s = match f {
            Some(s) => s,
            None => return err(ErrorKind::InvalidKeyData, "Missing JWK attribute"),
        };
        let v = match base64::decode_config(s, base64::URL_SAFE_NO_PAD) {
            Ok(v) => v,
            Err(_) => return err(ErrorKind::InvalidKeyData, "Base64 decoding error"),
        };
        if v.len() != 32 {
            return err(ErrorKind::InvalidKeyData, "Invalid length for JWK attribute");
        }
        let mut b = [0u8; 32];
        b.copy_from_slice(&v);
        Ok(b)
    }

    pub(crate) fn expect_kty(&self, kty: &str) -> Result<(), Error> {
        if self.kty != kty {
            return err(ErrorKind::InvalidKeyData, "Unsupported key type");
        }
        Ok(())
    }

    pub(crate) fn expect(&self, kty: &str, crv: &str) -> Result<(), Error> {
        if self.kty != kty {
            return err(ErrorKind::InvalidKeyData, "Unsupported key type");
        }
        if self.crv.as_deref() != Some(crv) {
            return err(ErrorKind::InvalidKeyData, "Unsupported key algorithm");
        }
        Ok(())
    }
}

pub trait FromJwk: Sized {
    fn from_jwk_parts(jwk: JwkParts) -> Result<Self, Error>;

    fn from_jwk(jwk: &str) -> Result<Self, Error> {
        Self::from_jwk_parts(JwkParts::parse(jwk)?)
    }
    fn from_jwk_slice(jwk: &[u8]) -> Result<Self, Error> {
        match std::str::from_utf8(jwk) {
            Ok(s) => Self::from_jwk(s),
            Err(_) => err(ErrorKind::Invalid, "Error deserializing JWK"),
        }
    }
}

pub type KeyAlg = &'static str;

pub trait ToJwk {
    fn jwk_members(&self, with_secret: bool) -> Result<String, Error>;

    fn to_jwk_public(&self, _alg: Option<KeyAlg>) -> Result<String, Error> {
        self.jwk_members(false)
    }
    fn to_jwk_secret(&self, _alg: Option<KeyAlg>) -> Result<crate::buffer::SecretBytes, Error> {
        self.jwk_members(true).map(Into::into)
    }
}

pub(crate) fn b64(b: &[u8]) -> String {
    base64::encode_config(b, base64::URL_SAFE_NO_PAD)
}
