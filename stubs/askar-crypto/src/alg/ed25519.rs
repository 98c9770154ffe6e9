use crate::alg::memo::{memo, Memo};
use crate::alg::x25519::X25519KeyPair;
use crate::buffer::WriteBuffer;
use crate::error::{err, Error, ErrorKind};
use crate::jwk::{b64, FromJwk, JwkParts, ToJwk};
use crate::repr::{KeyGen, KeyMaterial, KeyPublicBytes, KeySecretBytes};
use crate::sign::{KeySigVerify, KeySign, SignatureType};
use crate::sim;
use ed25519_dalek::{Signature, Signer, SigningKey, VerifyingKey};
use std::fmt;

thread_local! {
    static SECRETS: Memo<SigningKey> = Memo::default();
    static PUBLICS: Memo<Option<VerifyingKey>> = Memo::default();
    static POINTS: Memo<[u8; 32]> = Memo::default();
    static VERDICTS: Memo<bool> = Memo::default();
}

pub const PUBLIC_KEY_LENGTH: usize = 32;
pub const SECRET_KEY_LENGTH: usize = 32;
pub const KEYPAIR_LENGTH: usize = 64;
pub const EDDSA_SIGNATURE_LENGTH: usize = 64;

#[derive(Clone)]
pub struct Ed25519KeyPair {
    secret: Option<SigningKey>,
    public: VerifyingKey,
}

impl Ed25519KeyPair {
    fn from_secret(sk: [u8; 32]) -> Self {
        let s = memo(&SECRETS, "", &[&sk], || SigningKey::from_bytes(&sk));
        Ed25519KeyPair { public: s.verifying_key(), secret: Some(s) }
    }
    pub fn from_keypair_bytes(kp: &[u8]) -> Result<Self, Error> {
        if kp.len() != 64 {
            return err(ErrorKind::InvalidKeyData, "Invalid keypair length");
        }
        let r = Self::from_secret_bytes(&kp[..32])?;
        if r.public.as_bytes()[..] != kp[32..] {
            return err(ErrorKind::InvalidKeyData, "invalid ed25519 keypair");
        }
        Ok(r)
    }
    pub fn sign(&self, message: &[u8]) -> Option<[u8; 64]> {
        self.secret.as_ref().map(|s| s.sign(message).to_bytes())
    }
    pub fn to_x25519_keypair(&self) -> X25519KeyPair {
        match &self.secret {
            Some(s) => X25519KeyPair::from_secret_bytes(&s.to_scalar_bytes()).unwrap(),
            None => {
                let u = memo(&POINTS, "", &[self.public.as_bytes()], || self.public.to_montgomery().to_bytes());
                X25519KeyPair::from_public_bytes(&u).unwrap()
            },
        }
    }
    pub fn verify(&self, message: &[u8], signature: &[u8]) -> bool {
        match Signature::from_slice(signature) {
            Ok(s) => memo(&VERDICTS, "", &[self.public.as_bytes(), message, signature], || self.public.verify_strict(message, &s).is_ok()),
            Err(_) => false,
        }
    }
}

impl fmt::Debug for Ed25519KeyPair {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Ed25519KeyPair")
            .field("secret", if self.secret.is_some() { &"<secret>" } else { &"None" })
            .field("public", self.public.as_bytes())
            .finish()
    }
}

impl KeyGen for Ed25519KeyPair {
    fn generate(mut rng: impl KeyMaterial) -> Result<Self, Error> {
        let mut sk = [0u8; 32];
        rng.read_okm(&mut sk);
        sim::note_drawn("Ed25519", &sk);
        Ok(Self::from_secret(sk))
    }
}
impl KeySecretBytes for Ed25519KeyPair {
    fn from_secret_bytes(key: &[u8]) -> Result<Self, Error> {
        if key.len() != 32 {
            return err(ErrorKind::InvalidKeyData, "Invalid key length");
        }
        let mut sk = [0u8; 32];
        sk.copy_from_slice(key);
        Ok(Self::from_secret(sk))
    }
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
        let b = self.secret.as_ref().map(|s| s.to_bytes());
        f(b.as_ref().map(|s| &s[..]))
    }
}
impl KeyPublicBytes for Ed25519KeyPair {
    fn from_public_bytes(key: &[u8]) -> Result<Self, Error> {
        if key.len() != 32 {
            return err(ErrorKind::InvalidKeyData, "Invalid key length");
        }
        let mut b = [0u8; 32];
        b.copy_from_slice(key);
        match memo(&PUBLICS, "", &[&b], || VerifyingKey::from_bytes(&b).ok()) {
            Some(public) => Ok(Ed25519KeyPair { secret: None, public }),
            None => err(ErrorKind::InvalidKeyData, "Invalid ed25519 public key"),
        }
    }
    fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O {
        f(self.public.as_bytes())
    }
}
impl FromJwk for Ed25519KeyPair {
    fn from_jwk_parts(j: JwkParts) -> Result<Self, Error> {
        j.expect("OKP", "Ed25519")?;
        let x = JwkParts::bytes32(&j.x)?;
        if j.d.is_some() {
            let kp = Self::from_secret(JwkParts::bytes32(&j.d)?);
            if kp.public.as_bytes() != &x {
                return err(ErrorKind::InvalidKeyData, "invalid ed25519 keypair");
            }
            Ok(kp)
        } else {
            Self::from_public_bytes(&x)
        }
    }
}
impl ToJwk for Ed25519KeyPair {
    fn jwk_members(&self, with_secret: bool) -> Result<String, Error> {
        let mut s =
            format!(r#"{{"crv":"Ed25519","kty":"OKP","x":"{}""#, b64(self.public.as_bytes()));
        if with_secret {
            match &self.secret {
                Some(sk) => s.push_str(&format!(r#","d":"{}""#, b64(&sk.to_bytes()))),
                None => return Err(ErrorKind::MissingSecretKey.into()),
            }
        }
        s.push('}');
        Ok(s)
    }
}
impl KeySign for Ed25519KeyPair {
    fn write_signature(
        &self,
        message: &[u8],
        sig_type: Option<SignatureType>,
        out: &mut dyn WriteBuffer,
    ) -> Result<(), Error> {
        match sig_type {
            None | Some(SignatureType::EdDSA) => match self.sign(message) {
                Some(s) => out.buffer_write(&s),
                None => Err(ErrorKind::MissingSecretKey.into()),
            },
            _ => err(ErrorKind::Unsupported, "Unsupported signature type"),
        }
    }
}
impl KeySigVerify for Ed25519KeyPair {
    fn verify_signature(
        &self,
        message: &[u8],
        signature: &[u8],
        sig_type: Option<SignatureType>,
    ) -> Result<bool, Error> {
        match sig_type {
            None | Some(SignatureType::EdDSA) => Ok(self.verify(message, signature)),
            _ => err(ErrorKind::Unsupported, "Unsupported signature type"),
        }
    }
}
