use crate::alg::memo::{memo, Memo};
use crate::buffer::WriteBuffer;
use crate::error::{err, Error, ErrorKind};
use crate::jwk::{b64, FromJwk, JwkParts, ToJwk};
use crate::kdf::KeyExchange;
use crate::repr::{KeyGen, KeyMaterial, KeyPublicBytes, KeySecretBytes};
use crate::sim;
use curve25519_dalek::montgomery::MontgomeryPoint;
use std::fmt;

thread_local! {
    static MEMO: Memo<[u8; 32]> = Memo::default();
}

pub const PUBLIC_KEY_LENGTH: usize = 32;
pub const SECRET_KEY_LENGTH: usize = 32;

#[derive(Clone)]
pub struct X25519KeyPair {
    pub(crate) secret: Option<[u8; 32]>,
    pub(crate) public: [u8; 32],
}

impl X25519KeyPair {
    fn from_secret(sk: [u8; 32]) -> Self {
        let public = memo(&MEMO, "pk", &[&sk], || MontgomeryPoint::mul_base_clamped(sk).to_bytes());
        X25519KeyPair { secret: Some(sk), public }
    }
    fn check_public(&self, pk: &[u8]) -> Result<(), Error> {
        if self.public[..] == *pk {
            Ok(())
        } else {
            err(ErrorKind::InvalidKeyData, "invalid x25519 keypair")
        }
    }
}

impl fmt::Debug for X25519KeyPair {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("X25519KeyPair")
            .field("secret", if self.secret.is_some() { &"<secret>" } else { &"None" })
            .field("public", &self.public)
            .finish()
    }
}

impl KeyGen for X25519KeyPair {
    fn generate(mut rng: impl KeyMaterial) -> Result<Self, Error> {
        let mut sk = [0u8; 32];
        rng.read_okm(&mut sk);
        sim::note_drawn("X25519", &sk);
        Ok(Self::from_secret(sk))
    }
}
impl KeySecretBytes for X25519KeyPair {
    fn from_secret_bytes(key: &[u8]) -> Result<Self, Error> {
        if key.len() != 32 {
            return err(ErrorKind::InvalidKeyData, "Invalid key length");
        }
        let mut sk = [0u8; 32];
        sk.copy_from_slice(key);
        Ok(Self::from_secret(sk))
    }
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
        f(self.secret.as_ref().map(|s| &s[..]))
    }
}
impl KeyPublicBytes for X25519KeyPair {
    fn from_public_bytes(key: &[u8]) -> Result<Self, Error> {
        if key.len() != 32 {
            return err(ErrorKind::InvalidKeyData, "Invalid key length");
        }
        let mut public = [0u8; 32];
        public.copy_from_slice(key);
        Ok(X25519KeyPair { secret: None, public })
    }
    fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O {
        f(&self.public)
    }
}
impl FromJwk for X25519KeyPair {
    fn from_jwk_parts(j: JwkParts) -> Result<Self, Error> {
        j.expect("OKP", "X25519")?;
        let x = JwkParts::bytes32(&j.x)?;
        if j.d.is_some() {
            let kp = Self::from_secret(JwkParts::bytes32(&j.d)?);
            kp.check_public(&x)?;
            Ok(kp)
        } else {
            Self::from_public_bytes(&x)
        }
    }
}
impl ToJwk for X25519KeyPair {
    fn jwk_members(&self, with_secret: bool) -> Result<String, Error> {
        let mut s = format!(r#"{{"crv":"X25519","kty":"OKP","x":"{}""#, b64(&self.public));
        if with_secret {
            match self.secret {
                Some(sk) => s.push_str(&format!(r#","d":"{}""#, b64(&sk))),
                None => return Err(ErrorKind::MissingSecretKey.into()),
            }
        }
        s.push('}');
        Ok(s)
    }
}
impl KeyExchange for X25519KeyPair {
    fn write_key_exchange(&self, other: &Self, out: &mut dyn WriteBuffer) -> Result<(), Error> {
        match self.secret {
            Some(sk) => {
                // the same for both parties
                let (a, b) = (self.public.min(other.public), self.public.max(other.public));
                let z = memo(&MEMO, "dh", &[&a, &b], || MontgomeryPoint(other.public).mul_clamped(sk).to_bytes());
                out.buffer_write(&z)
            }
            None => Err(ErrorKind::MissingSecretKey.into()),
        }
    }
}
