//! ChaCha20-Poly1305 and XChaCha20-Poly1305.
use crate::buffer::ResizeBuffer;
use crate::encrypt::{KeyAeadInPlace, KeyAeadMeta, KeyAeadParams};
use crate::error::{err, Error, ErrorKind};
use crate::kdf::{FromKeyDerivation, FromKeyExchange, KeyDerivation, KeyExchange};
use crate::repr::{KeyGen, KeyMaterial, KeySecretBytes};
use crate::sim;
use std::fmt;
use std::marker::PhantomData;

fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}

fn rounds(s: &mut [u32; 16]) {
    for _ in 0..10 {
        qr(s, 0, 4, 8, 12);
        qr(s, 1, 5, 9, 13);
        qr(s, 2, 6, 10, 14);
        qr(s, 3, 7, 11, 15);
        qr(s, 0, 5, 10, 15);
        qr(s, 1, 6, 11, 12);
        qr(s, 2, 7, 8, 13);
        qr(s, 3, 4, 9, 14);
    }
}

const C: [u32; 4] = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574];

fn words(b: &[u8], out: &mut [u32]) {
    for (i, c) in b.chunks(4).enumerate() {
        out[i] = u32::from_le_bytes([c[0], c[1], c[2], c[3]]);
    }
}

fn block(key: &[u8], ctr: u32, nonce: &[u8]) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&C);
    words(key, &mut s[4..12]);
    s[12] = ctr;
    words(nonce, &mut s[13..16]);
    let init = s;
    rounds(&mut s);
    let mut o = [0u8; 64];
    for i in 0..16 {
        o[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
    }
    o
}

fn hchacha(key: &[u8], n: &[u8]) -> [u8; 32] {
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&C);
    words(key, &mut s[4..12]);
    words(n, &mut s[12..16]);
    rounds(&mut s);
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[4 * i..4 * i + 4].copy_from_slice(&s[i].to_le_bytes());
        o[16 + 4 * i..20 + 4 * i].copy_from_slice(&s[12 + i].to_le_bytes());
    }
    o
}

fn poly1305(key: &[u8; 32], parts: &[&[u8]]) -> [u8; 16] {
    // 26-bit limbs
    let le = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as u64;
    let r = [
        le(&key[0..]) & 0x3ffffff,
        (le(&key[3..]) >> 2) & 0x3ffff03,
        (le(&key[6..]) >> 4) & 0x3ffc0ff,
        (le(&key[9..]) >> 6) & 0x3f03fff,
        (le(&key[12..]) >> 8) & 0x00fffff,
    ];
    let mut h = [0u64; 5];
    let mut data = Vec::new();
    for p in parts {
        data.extend_from_slice(p);
    }
    for c in data.chunks(16) {
        let mut b = [0u8; 17];
        b[..c.len()].copy_from_slice(c);
        b[c.len()] = 1;
        h[0] += le(&b[0..]) & 0x3ffffff;
        h[1] += (le(&b[3..]) >> 2) & 0x3ffffff;
        h[2] += (le(&b[6..]) >> 4) & 0x3ffffff;
        h[3] += (le(&b[9..]) >> 6) & 0x3ffffff;
        h[4] += (le(&b[12..]) >> 8) | ((b[16] as u64) << 24);
        let mut d = [0u64; 5];
        for i in 0..5 {
            for j in 0..5 {
                let m = if j <= i { r[i - j] } else { 5 * r[5 + i - j] };
                d[i] += h[j] * m;
            }
        }
        let mut c = 0u64;
        for i in 0..5 {
            let v = d[i] + c;
            h[i] = v & 0x3ffffff;
            c = v >> 26;
        }
        h[0] += c * 5;
        let c = h[0] >> 26;
        h[0] &= 0x3ffffff;
        h[1] += c;
    }
    for _ in 0..2 {
        let mut c = 0u64;
        for i in 0..5 {
            let v = h[i] + c;
            h[i] = v & 0x3ffffff;
            c = v >> 26;
        }
        h[0] += c * 5;
    }
    // compute h - p
    let mut g = [0u64; 5];
    let mut c = 5u64;
    for i in 0..5 {
        let v = h[i] + c;
        g[i] = v & 0x3ffffff;
        c = v >> 26;
    }
    let f = if c > 0 { g } else { h };
    let full = (f[0] as u128)
        | ((f[1] as u128) << 26)
        | ((f[2] as u128) << 52)
        | ((f[3] as u128) << 78)
        | ((f[4] as u128) << 104);
    let mut s = [0u8; 16];
    s.copy_from_slice(&key[16..]);
    full.wrapping_add(u128::from_le_bytes(s)).to_le_bytes()
}

fn pad16(n: usize) -> Vec<u8> {
    vec![0u8; (16 - n % 16) % 16]
}

fn tag(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let b = block(key, 0, nonce);
    let mut pk = [0u8; 32];
    pk.copy_from_slice(&b[..32]);
    poly1305(
        &pk,
        &[
            aad,
            &pad16(aad.len()),
            ct,
            &pad16(ct.len()),
            &(aad.len() as u64).to_le_bytes(),
            &(ct.len() as u64).to_le_bytes(),
        ],
    )
}

fn xor(key: &[u8], nonce: &[u8], data: &mut [u8]) {
    let mut ctr = 1u32;
    for c in data.chunks_mut(64) {
        let k = block(key, ctr, nonce);
        for (x, y) in c.iter_mut().zip(k.iter()) {
            *x ^= y;
        }
        ctr = ctr.wrapping_add(1);
    }
}

pub trait Chacha20Type: 'static {
    const NAME: &'static str;
    const NONCE: usize;
    fn subkey(key: &[u8], nonce: &[u8]) -> (Vec<u8>, [u8; 12]);
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct C20P;
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct XC20P;

impl Chacha20Type for C20P {
    const NAME: &'static str = "C20P";
    const NONCE: usize = 12;
    fn subkey(key: &[u8], nonce: &[u8]) -> (Vec<u8>, [u8; 12]) {
        let mut n = [0u8; 12];
        n.copy_from_slice(nonce);
        (key.to_vec(), n)
    }
}
impl Chacha20Type for XC20P {
    const NAME: &'static str = "XC20P";
    const NONCE: usize = 24;
    fn subkey(key: &[u8], nonce: &[u8]) -> (Vec<u8>, [u8; 12]) {
        let mut n = [0u8; 12];
        n[4..].copy_from_slice(&nonce[16..]);
        (hchacha(key, &nonce[..16]).to_vec(), n)
    }
}

#[derive(Clone, PartialEq, Eq)]
pub struct Chacha20Key<T: Chacha20Type>([u8; 32], PhantomData<T>);

impl<T: Chacha20Type> Chacha20Key<T> {
    pub const KEY_LENGTH: usize = 32;
}

impl<T: Chacha20Type> fmt::Debug for Chacha20Key<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Chacha20Key {{ alg: {}, key: <secret> }}", T::NAME)
    }
}

impl<T: Chacha20Type> KeyGen for Chacha20Key<T> {
    fn generate(mut rng: impl KeyMaterial) -> Result<Self, Error> {
        let mut k = [0u8; 32];
        rng.read_okm(&mut k);
        sim::note_drawn(T::NAME, &k);
        Ok(Chacha20Key(k, PhantomData))
    }
}
impl<T: Chacha20Type> KeySecretBytes for Chacha20Key<T> {
    fn from_secret_bytes(key: &[u8]) -> Result<Self, Error> {
        if key.len() != 32 {
            return err(ErrorKind::InvalidKeyData, "Invalid key length");
        }
        let mut k = [0u8; 32];
        k.copy_from_slice(key);
        Ok(Chacha20Key(k, PhantomData))
    }
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
        f(Some(&self.0))
    }
}
impl<T: Chacha20Type> FromKeyDerivation for Chacha20Key<T> {
    fn from_key_derivation<D: KeyDerivation>(mut derive: D) -> Result<Self, Error> {
        let mut k = [0u8; 32];
        derive.derive_key_bytes(&mut k)?;
        Ok(Chacha20Key(k, PhantomData))
    }
}
impl<T: Chacha20Type, Lhs: KeyExchange<Rhs> + ?Sized, Rhs: ?Sized> FromKeyExchange<Lhs, Rhs>
    for Chacha20Key<T>
{
    fn from_key_exchange(lhs: &Lhs, rhs: &Rhs) -> Result<Self, Error> {
        Self::from_secret_bytes(lhs.key_exchange_bytes(rhs)?.as_ref())
    }
}
impl<T: Chacha20Type> KeyAeadMeta for Chacha20Key<T> {
    const NONCE_LENGTH: usize = T::NONCE;
    const TAG_LENGTH: usize = 16;
}
impl<T: Chacha20Type> KeyAeadInPlace for Chacha20Key<T> {
    fn encrypt_in_place(
        &self,
        buf: &mut dyn ResizeBuffer,
        nonce: &[u8],
        aad: &[u8],
    ) -> Result<usize, Error> {
        if nonce.len() != T::NONCE {
            return err(ErrorKind::InvalidNonce, "Invalid nonce length");
        }
        sim::note_aead(T::NAME, &self.0, nonce);
        let (k, n) = T::subkey(&self.0, nonce);
        xor(&k, &n, buf.as_mut());
        let len = buf.as_ref().len();
        let t = tag(&k, &n, aad, buf.as_ref());
        buf.buffer_write(&t)?;
        Ok(len)
    }
    fn decrypt_in_place(
        &self,
        buf: &mut dyn ResizeBuffer,
        nonce: &[u8],
        aad: &[u8],
    ) -> Result<(), Error> {
        if nonce.len() != T::NONCE {
            return err(ErrorKind::InvalidNonce, "Invalid nonce length");
        }
        let len = buf.as_ref().len();
        if len < 16 {
            return err(ErrorKind::Encryption, "Invalid size for encrypted data");
        }
        let (k, n) = T::subkey(&self.0, nonce);
        let t = tag(&k, &n, aad, &buf.as_ref()[..len - 16]);
        if t[..] != buf.as_ref()[len - 16..] {
            return err(ErrorKind::Encryption, "AEAD decryption error");
        }
        buf.buffer_resize(len - 16)?;
        xor(&k, &n, buf.as_mut());
        Ok(())
    }
    fn aead_params(&self) -> KeyAeadParams {
        KeyAeadParams { nonce_length: T::NONCE, tag_length: 16 }
    }
}
