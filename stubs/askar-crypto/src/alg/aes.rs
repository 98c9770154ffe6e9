//! AES-GCM, AES-CBC-HMAC-SHA2 and AES key wrap.
use crate::buffer::ResizeBuffer;
use crate::encrypt::{KeyAeadInPlace, KeyAeadMeta, KeyAeadParams};
use crate::error::{err, Error, ErrorKind};
use crate::kdf::{FromKeyDerivation, FromKeyExchange, KeyDerivation, KeyExchange};
use crate::repr::{KeyGen, KeyMaterial, KeySecretBytes};
use crate::sim;
use std::fmt;
use std::marker::PhantomData;

// ---------------------------------------------------------------- block cipher

const fn xtime(x: u8) -> u8 {
    (x << 1) ^ (((x >> 7) & 1) * 0x1b)
}
const fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}
const fn make_sbox() -> [u8; 256] {
    let mut s = [0u8; 256];
    let mut p: u8 = 1;
    let mut q: u8 = 1;
    loop {
        p = p ^ xtime(p); // multiply p by 3
        // divide q by 3
        q ^= q << 1;
        q ^= q << 2;
        q ^= q << 4;
        if q & 0x80 != 0 {
            q ^= 0x09;
        }
        s[p as usize] =
            q ^ q.rotate_left(1) ^ q.rotate_left(2) ^ q.rotate_left(3) ^ q.rotate_left(4) ^ 0x63;
        if p == 1 {
            break;
        }
    }
    s[0] = 0x63;
    s
}
const SBOX: [u8; 256] = make_sbox();
const fn make_inv(s: &[u8; 256]) -> [u8; 256] {
    let mut r = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        r[s[i] as usize] = i as u8;
        i += 1;
    }
    r
}
const INV: [u8; 256] = make_inv(&SBOX);
const fn make_te() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let s = SBOX[i];
        t[i] = u32::from_be_bytes([gmul(s, 2), s, s, gmul(s, 3)]);
        i += 1;
    }
    t
}
const fn make_td() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let s = INV[i];
        t[i] = u32::from_be_bytes([gmul(s, 14), gmul(s, 9), gmul(s, 13), gmul(s, 11)]);
        i += 1;
    }
    t
}
static TE: [u32; 256] = make_te();
static TD: [u32; 256] = make_td();

#[derive(Clone)]
pub(crate) struct Aes {
    ek: Vec<u32>,
    dk: Vec<u32>,
    rounds: usize,
}

impl Aes {
    pub(crate) fn new(key: &[u8]) -> Self {
        let nk = key.len() / 4;
        let rounds = nk + 6;
        let n = 4 * (rounds + 1);
        let mut w: Vec<u32> = key
            .chunks(4)
            .map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]]))
            .collect();
        let sub = |x: u32| {
            let b = x.to_be_bytes();
            u32::from_be_bytes([
                SBOX[b[0] as usize],
                SBOX[b[1] as usize],
                SBOX[b[2] as usize],
                SBOX[b[3] as usize],
            ])
        };
        let mut rcon: u8 = 1;
        for i in nk..n {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = sub(t.rotate_left(8)) ^ ((rcon as u32) << 24);
                rcon = xtime(rcon);
            } else if nk > 6 && i % nk == 4 {
                t = sub(t);
            }
            w.push(w[i - nk] ^ t);
        }
        let mut dk = vec![0u32; n];
        for r in 0..=rounds {
            for c in 0..4 {
                let v = w[4 * (rounds - r) + c];
                dk[4 * r + c] = if r == 0 || r == rounds {
                    v
                } else {
                    let b = v.to_be_bytes();
                    TD[SBOX[b[0] as usize] as usize]
                        ^ TD[SBOX[b[1] as usize] as usize].rotate_right(8)
                        ^ TD[SBOX[b[2] as usize] as usize].rotate_right(16)
                        ^ TD[SBOX[b[3] as usize] as usize].rotate_right(24)
                };
            }
        }
        Aes { ek: w, dk, rounds }
    }

    pub(crate) fn encrypt(&self, b: &mut [u8; 16]) {
        let mut s = [0u32; 4];
        for i in 0..4 {
            s[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]])
                ^ self.ek[i];
        }
        for r in 1..self.rounds {
            let mut t = [0u32; 4];
            for c in 0..4 {
                t[c] = TE[(s[c] >> 24) as usize]
                    ^ TE[((s[(c + 1) % 4] >> 16) & 0xff) as usize].rotate_right(8)
                    ^ TE[((s[(c + 2) % 4] >> 8) & 0xff) as usize].rotate_right(16)
                    ^ TE[(s[(c + 3) % 4] & 0xff) as usize].rotate_right(24)
                    ^ self.ek[4 * r + c];
            }
            s = t;
        }
        for c in 0..4 {
            let v = u32::from_be_bytes([
                SBOX[(s[c] >> 24) as usize],
                SBOX[((s[(c + 1) % 4] >> 16) & 0xff) as usize],
                SBOX[((s[(c + 2) % 4] >> 8) & 0xff) as usize],
                SBOX[(s[(c + 3) % 4] & 0xff) as usize],
            ]) ^ self.ek[4 * self.rounds + c];
            b[4 * c..4 * c + 4].copy_from_slice(&v.to_be_bytes());
        }
    }

    pub(crate) fn decrypt(&self, b: &mut [u8; 16]) {
        let mut s = [0u32; 4];
        for i in 0..4 {
            s[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]])
                ^ self.dk[i];
        }
        for r in 1..self.rounds {
            let mut t = [0u32; 4];
            for c in 0..4 {
                t[c] = TD[(s[c] >> 24) as usize]
                    ^ TD[((s[(c + 3) % 4] >> 16) & 0xff) as usize].rotate_right(8)
                    ^ TD[((s[(c + 2) % 4] >> 8) & 0xff) as usize].rotate_right(16)
                    ^ TD[(s[(c + 1) % 4] & 0xff) as usize].rotate_right(24)
                    ^ self.dk[4 * r + c];
            }
            s = t;
        }
        for c in 0..4 {
            let v = u32::from_be_bytes([
                INV[(s[c] >> 24) as usize],
                INV[((s[(c + 3) % 4] >> 16) & 0xff) as usize],
                INV[((s[(c + 2) % 4] >> 8) & 0xff) as usize],
                INV[(s[(c + 1) % 4] & 0xff) as usize],
            ]) ^ self.dk[4 * self.rounds + c];
            b[4 * c..4 * c + 4].copy_from_slice(&v.to_be_bytes());
        }
    }
}

fn ct_eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(0u8, |x, (p, q)| x | (p ^ q)) == 0
}

// ---------------------------------------------------------------- GCM

struct Ghash {
    table: [u128; 16],
}

const fn gcm_reduce4() -> [u128; 16] {
    // contribution of the 4 bits shifted out, for a right shift by 4 (bit-reflected GF(2^128))
    let mut t = [0u128; 16];
    let mut i = 0;
    while i < 16 {
        let mut v = i as u128;
        let mut k = 0;
        while k < 4 {
            let lsb = v & 1;
            v >>= 1;
            if lsb == 1 {
                v ^= 0xe1u128 << 120;
            }
            k += 1;
        }
        t[i] = v;
        i += 1;
    }
    t
}
static RED4: [u128; 16] = gcm_reduce4();

impl Ghash {
    fn new(h: u128) -> Self {
        // table[n] = n * H where nibble n's most significant bit is x^0
        let mut table = [0u128; 16];
        let mut v = h;
        let mut bit = 8usize;
        while bit > 0 {
            table[bit] = v;
            let lsb = v & 1;
            v >>= 1;
            if lsb == 1 {
                v ^= 0xe1u128 << 120;
            }
            bit >>= 1;
        }
        for i in 1..16usize {
            if !i.is_power_of_two() {
                let hi = 1usize << (usize::BITS - 1 - i.leading_zeros());
                table[i] = table[hi] ^ table[i ^ hi];
            }
        }
        Ghash { table }
    }
    fn mul(&self, x: u128) -> u128 {
        let mut z = 0u128;
        for i in 0..32 {
            let nib = ((x >> (4 * i)) & 0xf) as usize;
            z = (z >> 4) ^ RED4[(z & 0xf) as usize];
            z ^= self.table[nib];
        }
        z
    }
    fn update(&self, y: &mut u128, data: &[u8]) {
        for c in data.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            *y = self.mul(*y ^ u128::from_be_bytes(b));
        }
    }
}

fn gcm_crypt(aes: &Aes, nonce: &[u8], data: &mut [u8]) {
    let mut ctr = 2u32;
    for c in data.chunks_mut(16) {
        let mut b = [0u8; 16];
        b[..12].copy_from_slice(nonce);
        b[12..].copy_from_slice(&ctr.to_be_bytes());
        aes.encrypt(&mut b);
        for (x, k) in c.iter_mut().zip(b.iter()) {
            *x ^= k;
        }
        ctr = ctr.wrapping_add(1);
    }
}

fn gcm_tag(aes: &Aes, nonce: &[u8], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let mut h = [0u8; 16];
    aes.encrypt(&mut h);
    let g = Ghash::new(u128::from_be_bytes(h));
    let mut y = 0u128;
    g.update(&mut y, aad);
    g.update(&mut y, ct);
    let lens = ((aad.len() as u128 * 8) << 64) | (ct.len() as u128 * 8);
    y = g.mul(y ^ lens);
    let mut j0 = [0u8; 16];
    j0[..12].copy_from_slice(nonce);
    j0[15] = 1;
    aes.encrypt(&mut j0);
    (y ^ u128::from_be_bytes(j0)).to_be_bytes()
}

// ---------------------------------------------------------------- HMAC

pub(crate) fn hmac<D: sha2::Digest>(block: usize, key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    let mut k = vec![0u8; block];
    if key.len() > block {
        let d = D::digest(key);
        k[..d.len()].copy_from_slice(&d);
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut h = D::new();
    h.update(k.iter().map(|b| b ^ 0x36).collect::<Vec<_>>());
    for p in parts {
        h.update(p);
    }
    let inner = h.finalize();
    let mut h = D::new();
    h.update(k.iter().map(|b| b ^ 0x5c).collect::<Vec<_>>());
    h.update(inner);
    h.finalize().to_vec()
}

// ---------------------------------------------------------------- key types

pub trait AesType: Sized + Clone + 'static {
    const NAME: &'static str;
    const KEY_LENGTH: usize;
    const NONCE: usize;
    const TAG: usize;
    fn seal(key: &[u8], buf: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8])
        -> Result<usize, Error>;
    fn open(key: &[u8], buf: &mut dyn ResizeBuffer, nonce: &[u8], aad: &[u8]) -> Result<(), Error>;
    fn padding(_len: usize) -> usize {
        0
    }
}

#[derive(Clone, PartialEq, Eq)]
pub struct AesKey<T: AesType>(Vec<u8>, PhantomData<T>);

impl<T: AesType> AesKey<T> {
    pub const KEY_LENGTH: usize = T::KEY_LENGTH;
}

impl<T: AesType> fmt::Debug for AesKey<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "AesKey {{ alg: {}, key: <secret> }}", T::NAME)
    }
}

impl<T: AesType> KeyGen for AesKey<T> {
    fn generate(mut rng: impl KeyMaterial) -> Result<Self, Error> {
        let mut k = vec![0u8; T::KEY_LENGTH];
        rng.read_okm(&mut k);
        sim::note_drawn(T::NAME, &k);
        Ok(AesKey(k, PhantomData))
    }
}

impl<T: AesType> KeySecretBytes for AesKey<T> {
    fn from_secret_bytes(key: &[u8]) -> Result<Self, Error> {
        if key.len() != T::KEY_LENGTH {
            return err(ErrorKind::InvalidKeyData, "Invalid key length");
        }
        Ok(AesKey(key.to_vec(), PhantomData))
    }
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
        f(Some(&self.0))
    }
}

impl<T: AesType> FromKeyDerivation for AesKey<T> {
    fn from_key_derivation<D: KeyDerivation>(mut derive: D) -> Result<Self, Error> {
        let mut k = vec![0u8; T::KEY_LENGTH];
        derive.derive_key_bytes(&mut k)?;
        Ok(AesKey(k, PhantomData))
    }
}

impl<T: AesType, Lhs: KeyExchange<Rhs> + ?Sized, Rhs: ?Sized> FromKeyExchange<Lhs, Rhs>
    for AesKey<T>
{
    fn from_key_exchange(lhs: &Lhs, rhs: &Rhs) -> Result<Self, Error> {
        let b = lhs.key_exchange_bytes(rhs)?;
        Self::from_secret_bytes(&b.as_ref()[..T::KEY_LENGTH.min(b.as_ref().len())])
    }
}

impl<T: AesType> KeyAeadMeta for AesKey<T> {
    const NONCE_LENGTH: usize = T::NONCE;
    const TAG_LENGTH: usize = T::TAG;
}

impl<T: AesType> KeyAeadInPlace for AesKey<T> {
    fn encrypt_in_place(
        &self,
        buffer: &mut dyn ResizeBuffer,
        nonce: &[u8],
        aad: &[u8],
    ) -> Result<usize, Error> {
        if nonce.len() != T::NONCE {
            return err(ErrorKind::InvalidNonce, "Invalid nonce length");
        }
        if T::NONCE > 0 {
            sim::note_aead(T::NAME, &self.0, nonce);
        }
        T::seal(&self.0, buffer, nonce, aad)
    }
    fn decrypt_in_place(
        &self,
        buffer: &mut dyn ResizeBuffer,
        nonce: &[u8],
        aad: &[u8],
    ) -> Result<(), Error> {
        if nonce.len() != T::NONCE {
            return err(ErrorKind::InvalidNonce, "Invalid nonce length");
        }
        T::open(&self.0, buffer, nonce, aad)
    }
    fn aead_params(&self) -> KeyAeadParams {
        KeyAeadParams { nonce_length: T::NONCE, tag_length: T::TAG }
    }
    fn aead_padding(&self, msg_len: usize) -> usize {
        T::padding(msg_len)
    }
}

macro_rules! gcm {
    ($n:ident, $name:expr, $len:expr) => {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct $n;
        impl AesType for $n {
            const NAME: &'static str = $name;
            const KEY_LENGTH: usize = $len;
            const NONCE: usize = 12;
            const TAG: usize = 16;
            fn seal(
                key: &[u8],
                buf: &mut dyn ResizeBuffer,
                nonce: &[u8],
                aad: &[u8],
            ) -> Result<usize, Error> {
                let aes = Aes::new(key);
                gcm_crypt(&aes, nonce, buf.as_mut());
                let n = buf.as_ref().len();
                let tag = gcm_tag(&aes, nonce, aad, buf.as_ref());
                buf.buffer_write(&tag)?;
                Ok(n)
            }
            fn open(
                key: &[u8],
                buf: &mut dyn ResizeBuffer,
                nonce: &[u8],
                aad: &[u8],
            ) -> Result<(), Error> {
                let n = buf.as_ref().len();
                if n < 16 {
                    return err(ErrorKind::Encryption, "Invalid size for encrypted data");
                }
                let aes = Aes::new(key);
                let tag = gcm_tag(&aes, nonce, aad, &buf.as_ref()[..n - 16]);
                if !ct_eq(&tag, &buf.as_ref()[n - 16..]) {
                    return err(ErrorKind::Encryption, "AEAD decryption error");
                }
                buf.buffer_resize(n - 16)?;
                gcm_crypt(&aes, nonce, buf.as_mut());
                Ok(())
            }
        }
    };
}
gcm!(A128Gcm, "A128GCM", 16);
gcm!(A256Gcm, "A256GCM", 32);

macro_rules! cbc {
    ($n:ident, $name:expr, $len:expr, $tag:expr, $dig:ty, $block:expr) => {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct $n;
        impl AesType for $n {
            const NAME: &'static str = $name;
            const KEY_LENGTH: usize = $len;
            const NONCE: usize = 16;
            const TAG: usize = $tag;
            fn seal(
                key: &[u8],
                buf: &mut dyn ResizeBuffer,
                nonce: &[u8],
                aad: &[u8],
            ) -> Result<usize, Error> {
                let n = buf.as_ref().len();
                let pad = 16 - n % 16;
                buf.buffer_write(&vec![pad as u8; pad])?;
                let aes = Aes::new(&key[$len / 2..]);
                let mut prev = [0u8; 16];
                prev.copy_from_slice(nonce);
                for c in buf.as_mut().chunks_mut(16) {
                    for (x, p) in c.iter_mut().zip(prev.iter()) {
                        *x ^= p;
                    }
                    let mut b = [0u8; 16];
                    b.copy_from_slice(c);
                    aes.encrypt(&mut b);
                    c.copy_from_slice(&b);
                    prev = b;
                }
                let ctlen = buf.as_ref().len();
                let al = ((aad.len() as u64) * 8).to_be_bytes();
                let tag =
                    hmac::<$dig>($block, &key[..$len / 2], &[aad, nonce, buf.as_ref(), &al]);
                buf.buffer_write(&tag[..$tag])?;
                Ok(ctlen)
            }
            fn open(
                key: &[u8],
                buf: &mut dyn ResizeBuffer,
                nonce: &[u8],
                aad: &[u8],
            ) -> Result<(), Error> {
                let n = buf.as_ref().len();
                if n < $tag {
                    return err(ErrorKind::Encryption, "Invalid size for encrypted data");
                }
                let al = ((aad.len() as u64) * 8).to_be_bytes();
                let tag = hmac::<$dig>(
                    $block,
                    &key[..$len / 2],
                    &[aad, nonce, &buf.as_ref()[..n - $tag], &al],
                );
                if !ct_eq(&tag[..$tag], &buf.as_ref()[n - $tag..]) {
                    return err(ErrorKind::Encryption, "AEAD decryption error");
                }
                buf.buffer_resize(n - $tag)?;
                let n = n - $tag;
                if n == 0 || n % 16 != 0 {
                    return err(ErrorKind::Encryption, "AES-CBC decryption error");
                }
                let aes = Aes::new(&key[$len / 2..]);
                let mut prev = [0u8; 16];
                prev.copy_from_slice(nonce);
                for c in buf.as_mut().chunks_mut(16) {
                    let mut b = [0u8; 16];
                    b.copy_from_slice(c);
                    let ct = b;
                    aes.decrypt(&mut b);
                    for i in 0..16 {
                        c[i] = b[i] ^ prev[i];
                    }
                    prev = ct;
                }
                let pad = buf.as_ref()[n - 1] as usize;
                if pad == 0 || pad > 16 || buf.as_ref()[n - pad..].iter().any(|b| *b as usize != pad)
                {
                    return err(ErrorKind::Encryption, "AES-CBC decryption error");
                }
                buf.buffer_resize(n - pad)
            }
            fn padding(len: usize) -> usize {
                16 - len % 16
            }
        }
    };
}
cbc!(A128CbcHs256, "A128CBC-HS256", 32, 16, sha2::Sha256, 64);
cbc!(A256CbcHs512, "A256CBC-HS512", 64, 32, sha2::Sha512, 128);

const KW_IV: [u8; 8] = [0xa6; 8];

macro_rules! kw {
    ($n:ident, $name:expr, $len:expr) => {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct $n;
        impl AesType for $n {
            const NAME: &'static str = $name;
            const KEY_LENGTH: usize = $len;
            const NONCE: usize = 0;
            const TAG: usize = 8;
            fn seal(
                key: &[u8],
                buf: &mut dyn ResizeBuffer,
                _nonce: &[u8],
                aad: &[u8],
            ) -> Result<usize, Error> {
                if !aad.is_empty() {
                    return err(ErrorKind::Unsupported, "AAD not supported");
                }
                let n = buf.as_ref().len();
                if n % 8 != 0 {
                    return err(
                        ErrorKind::Encryption,
                        "Data length must be a multiple of 8 bytes",
                    );
                }
                let aes = Aes::new(key);
                buf.buffer_insert(0, &KW_IV)?;
                let blocks = (n / 8) as u64;
                let b = buf.as_mut();
                for j in 0..6u64 {
                    for i in 1..=blocks {
                        let mut t = [0u8; 16];
                        t[..8].copy_from_slice(&b[..8]);
                        t[8..].copy_from_slice(&b[(i * 8) as usize..(i * 8 + 8) as usize]);
                        aes.encrypt(&mut t);
                        let mut a = [0u8; 8];
                        a.copy_from_slice(&t[..8]);
                        let v = u64::from_be_bytes(a) ^ (blocks * j + i);
                        b[..8].copy_from_slice(&v.to_be_bytes());
                        b[(i * 8) as usize..(i * 8 + 8) as usize].copy_from_slice(&t[8..]);
                    }
                }
                Ok(n + 8)
            }
            fn open(
                key: &[u8],
                buf: &mut dyn ResizeBuffer,
                _nonce: &[u8],
                aad: &[u8],
            ) -> Result<(), Error> {
                if !aad.is_empty() {
                    return err(ErrorKind::Unsupported, "AAD not supported");
                }
                let n = buf.as_ref().len();
                if n % 8 != 0 || n < 8 {
                    return err(
                        ErrorKind::Encryption,
                        "Data length must be a multiple of 8 bytes",
                    );
                }
                let aes = Aes::new(key);
                let blocks = (n / 8 - 1) as u64;
                let b = buf.as_mut();
                for j in (0..6u64).rev() {
                    for i in (1..=blocks).rev() {
                        let mut a = [0u8; 8];
                        a.copy_from_slice(&b[..8]);
                        let v = u64::from_be_bytes(a) ^ (blocks * j + i);
                        let mut t = [0u8; 16];
                        t[..8].copy_from_slice(&v.to_be_bytes());
                        t[8..].copy_from_slice(&b[(i * 8) as usize..(i * 8 + 8) as usize]);
                        aes.decrypt(&mut t);
                        b[..8].copy_from_slice(&t[..8]);
                        b[(i * 8) as usize..(i * 8 + 8) as usize].copy_from_slice(&t[8..]);
                    }
                }
                if !ct_eq(&b[..8], &KW_IV) {
                    return Err(ErrorKind::Encryption.into());
                }
                buf.buffer_remove(0..8)
            }
        }
    };
}
kw!(A128Kw, "A128KW", 16);
kw!(A256Kw, "A256KW", 32);
