//! Short Weierstrass curves over 256-bit primes: arithmetic, ECDH and deterministic ECDSA.
use crate::alg::aes::hmac;
use crate::alg::memo::{memo, Memo};
use crate::buffer::WriteBuffer;
use crate::error::{err, Error, ErrorKind};
use crate::jwk::{b64, JwkParts};
use crate::sign::SignatureType;
use sha2::{Digest, Sha256};
use std::fmt;
use std::marker::PhantomData;
use std::sync::OnceLock;

pub type U256 = [u64; 4]; // little-endian limbs

const fn adc(a: u64, b: u64, c: u64) -> (u64, u64) {
    let t = a as u128 + b as u128 + c as u128;
    (t as u64, (t >> 64) as u64)
}
const fn sbb(a: u64, b: u64, br: u64) -> (u64, u64) {
    let t = (a as u128).wrapping_sub(b as u128 + br as u128);
    (t as u64, ((t >> 64) as u64) & 1)
}
const fn mac(acc: u64, a: u64, b: u64, c: u64) -> (u64, u64) {
    let t = acc as u128 + (a as u128) * (b as u128) + c as u128;
    (t as u64, (t >> 64) as u64)
}
const fn sub4(a: U256, b: U256) -> (U256, u64) {
    let (r0, c) = sbb(a[0], b[0], 0);
    let (r1, c) = sbb(a[1], b[1], c);
    let (r2, c) = sbb(a[2], b[2], c);
    let (r3, c) = sbb(a[3], b[3], c);
    ([r0, r1, r2, r3], c)
}
const fn add4(a: U256, b: U256) -> (U256, u64) {
    let (r0, c) = adc(a[0], b[0], 0);
    let (r1, c) = adc(a[1], b[1], c);
    let (r2, c) = adc(a[2], b[2], c);
    let (r3, c) = adc(a[3], b[3], c);
    ([r0, r1, r2, r3], c)
}

/// Montgomery arithmetic modulo an odd 256-bit number with its top bit set.
#[derive(Clone, Copy)]
pub struct Mont {
    pub m: U256,
    inv: u64,
    r: U256,
    r2: U256,
}

impl Mont {
    pub const fn new(m: U256) -> Self {
        // -m^-1 mod 2^64
        let mut inv = 1u64;
        let mut i = 0;
        while i < 6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv)));
            i += 1;
        }
        let inv = inv.wrapping_neg();
        // R mod m = 2^256 - m  (m > 2^255)
        let (r, _) = sub4([0, 0, 0, 0], m);
        // R^2 mod m by 256 doublings
        let mut r2 = r;
        let mut i = 0;
        while i < 256 {
            let (d, c) = add4(r2, r2);
            let (s, b) = sub4(d, m);
            r2 = if c == 1 || b == 0 { s } else { d };
            i += 1;
        }
        Mont { m, inv, r, r2 }
    }
    pub fn add(&self, a: &U256, b: &U256) -> U256 {
        let (d, c) = add4(*a, *b);
        let (s, br) = sub4(d, self.m);
        if c == 1 || br == 0 {
            s
        } else {
            d
        }
    }
    pub fn sub(&self, a: &U256, b: &U256) -> U256 {
        let (d, br) = sub4(*a, *b);
        if br == 1 {
            add4(d, self.m).0
        } else {
            d
        }
    }
    #[inline]
    pub fn mul(&self, a: &U256, b: &U256) -> U256 {
        let m = &self.m;
        let (mut t0, mut t1, mut t2, mut t3, mut t4) = (0u64, 0u64, 0u64, 0u64, 0u64);
        macro_rules! step {
            ($x:expr) => {
                let (v0, c) = mac(t0, $x, b[0], 0);
                let (v1, c) = mac(t1, $x, b[1], c);
                let (v2, c) = mac(t2, $x, b[2], c);
                let (v3, c) = mac(t3, $x, b[3], c);
                let (v4, v5) = adc(t4, c, 0);
                let q = v0.wrapping_mul(self.inv);
                let (_, c) = mac(v0, q, m[0], 0);
                let (w0, c) = mac(v1, q, m[1], c);
                let (w1, c) = mac(v2, q, m[2], c);
                let (w2, c) = mac(v3, q, m[3], c);
                let (w3, c) = adc(v4, c, 0);
                t0 = w0;
                t1 = w1;
                t2 = w2;
                t3 = w3;
                t4 = v5 + c;
            };
        }
        step!(a[0]);
        step!(a[1]);
        step!(a[2]);
        step!(a[3]);
        let r = [t0, t1, t2, t3];
        let (s, br) = sub4(r, *m);
        if t4 == 1 || br == 0 {
            s
        } else {
            r
        }
    }
    pub fn sqr(&self, a: &U256) -> U256 {
        self.mul(a, a)
    }
    pub fn to(&self, a: &U256) -> U256 {
        self.mul(a, &self.r2)
    }
    pub fn from(&self, a: &U256) -> U256 {
        self.mul(a, &[1, 0, 0, 0])
    }
    pub fn one(&self) -> U256 {
        self.r
    }
    pub fn inv(&self, a: &U256) -> U256 {
        let (e, _) = sub4(self.m, [2, 0, 0, 0]);
        let mut tbl = [self.r; 16];
        for i in 1..16 {
            tbl[i] = self.mul(&tbl[i - 1], a);
        }
        let mut r = self.r;
        for i in (0..64).rev() {
            for _ in 0..4 {
                r = self.sqr(&r);
            }
            let n = ((e[i / 16] >> (4 * (i % 16))) & 0xf) as usize;
            if n != 0 {
                r = self.mul(&r, &tbl[n]);
            }
        }
        r
    }
    pub fn lt(&self, a: &U256) -> bool {
        sub4(*a, self.m).1 == 1
    }
    /// Reduce an arbitrary 256-bit value (valid since m > 2^255).
    pub fn reduce(&self, a: &U256) -> U256 {
        if self.lt(a) {
            *a
        } else {
            sub4(*a, self.m).0
        }
    }
}

pub fn from_be(b: &[u8]) -> U256 {
    let mut r = [0u64; 4];
    for i in 0..4 {
        let mut x = [0u8; 8];
        x.copy_from_slice(&b[8 * i..8 * i + 8]);
        r[3 - i] = u64::from_be_bytes(x);
    }
    r
}
pub fn to_be(a: &U256) -> [u8; 32] {
    let mut r = [0u8; 32];
    for i in 0..4 {
        r[8 * i..8 * i + 8].copy_from_slice(&a[3 - i].to_be_bytes());
    }
    r
}
fn is_zero(a: &U256) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}

pub trait EcParams: 'static {
    const NAME: &'static str;
    const FP: Mont;
    const FN: Mont;
    const A: U256;
    const B: U256;
    const GX: U256;
    const GY: U256;
    const SIG: SignatureType;
    const NORMALIZE_S: bool;
    const CRV_REQUIRED: bool;
    fn table() -> &'static OnceLock<Vec<[Pt; 16]>>;
}

/// Jacobian point in Montgomery form; z == 0 is the identity.
#[derive(Clone, Copy)]
pub struct Pt {
    x: U256,
    y: U256,
    z: U256,
}

fn ident<C: EcParams>() -> Pt {
    Pt { x: C::FP.one(), y: C::FP.one(), z: [0; 4] }
}

fn dbl<C: EcParams>(p: &Pt) -> Pt {
    let f = &C::FP;
    if is_zero(&p.z) || is_zero(&p.y) {
        return ident::<C>();
    }
    let yy = f.sqr(&p.y);
    let s = {
        let t = f.mul(&p.x, &yy);
        let t2 = f.add(&t, &t);
        f.add(&t2, &t2)
    };
    // 3x^2 + a z^4; a is 0 or -3
    let t = if is_zero(&C::A) {
        f.sqr(&p.x)
    } else {
        let z2 = f.sqr(&p.z);
        f.mul(&f.sub(&p.x, &z2), &f.add(&p.x, &z2))
    };
    let m = f.add(&f.add(&t, &t), &t);
    let x = f.sub(&f.sqr(&m), &f.add(&s, &s));
    let y4 = f.sqr(&yy);
    let y48 = {
        let t = f.add(&y4, &y4);
        let t = f.add(&t, &t);
        f.add(&t, &t)
    };
    let y = f.sub(&f.mul(&m, &f.sub(&s, &x)), &y48);
    let yz = f.mul(&p.y, &p.z);
    Pt { x, y, z: f.add(&yz, &yz) }
}

fn add<C: EcParams>(p: &Pt, q: &Pt) -> Pt {
    let f = &C::FP;
    if is_zero(&p.z) {
        return *q;
    }
    if is_zero(&q.z) {
        return *p;
    }
    let z1z1 = f.sqr(&p.z);
    let z2z2 = f.sqr(&q.z);
    let u1 = f.mul(&p.x, &z2z2);
    let u2 = f.mul(&q.x, &z1z1);
    let s1 = f.mul(&p.y, &f.mul(&q.z, &z2z2));
    let s2 = f.mul(&q.y, &f.mul(&p.z, &z1z1));
    let h = f.sub(&u2, &u1);
    let r = f.sub(&s2, &s1);
    if is_zero(&h) {
        return if is_zero(&r) { dbl::<C>(p) } else { ident::<C>() };
    }
    let hh = f.sqr(&h);
    let hhh = f.mul(&h, &hh);
    let v = f.mul(&u1, &hh);
    let x = f.sub(&f.sub(&f.sqr(&r), &hhh), &f.add(&v, &v));
    let y = f.sub(&f.mul(&r, &f.sub(&v, &x)), &f.mul(&s1, &hhh));
    let z = f.mul(&f.mul(&p.z, &q.z), &h);
    Pt { x, y, z }
}

fn mul<C: EcParams>(p: &Pt, k: &U256) -> Pt {
    let mut tbl = [ident::<C>(); 16];
    for i in 1..16 {
        tbl[i] = add::<C>(&tbl[i - 1], p);
    }
    let mut r = ident::<C>();
    for i in (0..64).rev() {
        if i != 63 {
            for _ in 0..4 {
                r = dbl::<C>(&r);
            }
        }
        let n = ((k[i / 16] >> (4 * (i % 16))) & 0xf) as usize;
        if n != 0 {
            r = add::<C>(&r, &tbl[n]);
        }
    }
    r
}

/// k times the generator: table of n * 16^i * G.
fn mul_gen<C: EcParams>(k: &U256) -> Pt {
    let t = C::table().get_or_init(|| {
        let mut b = gen::<C>();
        (0..64)
            .map(|_| {
                let mut row = [ident::<C>(); 16];
                for n in 1..16 {
                    row[n] = add::<C>(&row[n - 1], &b);
                }
                b = add::<C>(&row[15], &b);
                row
            })
            .collect()
    });
    let mut r = ident::<C>();
    for i in 0..64 {
        let n = ((k[i / 16] >> (4 * (i % 16))) & 0xf) as usize;
        if n != 0 {
            r = add::<C>(&r, &t[i][n]);
        }
    }
    r
}

thread_local! {
    static MEMO: Memo<Option<(U256, U256)>> = Memo::default();
}

fn gen<C: EcParams>() -> Pt {
    Pt { x: C::FP.to(&C::GX), y: C::FP.to(&C::GY), z: C::FP.one() }
}

fn affine<C: EcParams>(p: &Pt) -> Option<(U256, U256)> {
    if is_zero(&p.z) {
        return None;
    }
    let f = &C::FP;
    let zi = f.inv(&p.z);
    let zi2 = f.sqr(&zi);
    Some((f.from(&f.mul(&p.x, &zi2)), f.from(&f.mul(&p.y, &f.mul(&zi, &zi2)))))
}

fn on_curve<C: EcParams>(x: &U256, y: &U256) -> bool {
    let f = &C::FP;
    if !f.lt(x) || !f.lt(y) {
        return false;
    }
    let (x, y) = (f.to(x), f.to(y));
    let rhs = f.add(&f.add(&f.mul(&f.sqr(&x), &x), &f.mul(&f.to(&C::A), &x)), &f.to(&C::B));
    f.sqr(&y) == rhs
}

pub struct EcKey<C: EcParams> {
    pub sk: Option<[u8; 32]>,
    pub x: U256,
    pub y: U256,
    _p: PhantomData<C>,
}

impl<C: EcParams> Clone for EcKey<C> {
    fn clone(&self) -> Self {
        EcKey { sk: self.sk, x: self.x, y: self.y, _p: PhantomData }
    }
}

impl<C: EcParams> EcKey<C> {
    pub fn from_sk(sk: &[u8]) -> Result<Self, Error> {
        if sk.len() != 32 {
            return err(ErrorKind::InvalidKeyData, "Invalid key length");
        }
        let d = from_be(sk);
        if is_zero(&d) || !C::FN.lt(&d) {
            return err(ErrorKind::InvalidKeyData, "Invalid secret scalar");
        }
        let (x, y) = memo(&MEMO, C::NAME, &[b"pk", sk], || affine::<C>(&mul_gen::<C>(&d))).unwrap();
        let mut b = [0u8; 32];
        b.copy_from_slice(sk);
        Ok(EcKey { sk: Some(b), x, y, _p: PhantomData })
    }
    pub fn from_xy(x: &[u8; 32], y: &[u8; 32]) -> Result<Self, Error> {
        let (x, y) = (from_be(x), from_be(y));
        if !on_curve::<C>(&x, &y) {
            return Err(ErrorKind::InvalidKeyData.into());
        }
        Ok(EcKey { sk: None, x, y, _p: PhantomData })
    }
    pub fn from_sec1(b: &[u8]) -> Result<Self, Error> {
        if b.len() == 65 && b[0] == 4 {
            let (mut x, mut y) = ([0u8; 32], [0u8; 32]);
            x.copy_from_slice(&b[1..33]);
            y.copy_from_slice(&b[33..]);
            return Self::from_xy(&x, &y);
        }
        if b.len() == 33 && (b[0] == 2 || b[0] == 3) {
            // both moduli are 3 mod 4: sqrt(v) = v^((p+1)/4)
            let f = &C::FP;
            let x = from_be(&b[1..]);
            if f.lt(&x) {
                let xm = f.to(&x);
                let v = f.add(
                    &f.add(&f.mul(&f.sqr(&xm), &xm), &f.mul(&f.to(&C::A), &xm)),
                    &f.to(&C::B),
                );
                let (e, c) = add4(f.m, [1, 0, 0, 0]);
                let e = [
                    (e[0] >> 2) | (e[1] << 62),
                    (e[1] >> 2) | (e[2] << 62),
                    (e[2] >> 2) | (e[3] << 62),
                    (e[3] >> 2) | (c << 62),
                ];
                let mut r = f.one();
                for i in (0..256).rev() {
                    r = f.sqr(&r);
                    if (e[i / 64] >> (i % 64)) & 1 == 1 {
                        r = f.mul(&r, &v);
                    }
                }
                if f.sqr(&r) == v {
                    let mut y = f.from(&r);
                    if (y[0] & 1) as u8 != b[0] & 1 {
                        y = f.sub(&[0; 4], &y);
                    }
                    return Ok(EcKey { sk: None, x, y, _p: PhantomData });
                }
            }
        }
        err(ErrorKind::InvalidKeyData, "Invalid public key")
    }
    pub fn sec1_compressed(&self) -> [u8; 33] {
        let mut r = [0u8; 33];
        r[0] = 2 + (self.y[0] & 1) as u8;
        r[1..].copy_from_slice(&to_be(&self.x));
        r
    }
    pub fn from_jwk(j: &JwkParts) -> Result<Self, Error> {
        if j.crv.is_some() || C::CRV_REQUIRED {
            j.expect("EC", C::NAME)?;
        } else {
            j.expect_kty("EC")?;
        }
        let x = JwkParts::bytes32(&j.x)?;
        let y = JwkParts::bytes32(&j.y)?;
        let pk = Self::from_xy(&x, &y)?;
        if j.d.is_some() {
            let kp = Self::from_sk(&JwkParts::bytes32(&j.d)?)?;
            if kp.x != pk.x || kp.y != pk.y {
                return err(ErrorKind::InvalidKeyData, "Invalid keypair");
            }
            Ok(kp)
        } else {
            Ok(pk)
        }
    }
    pub fn jwk(&self, with_secret: bool) -> Result<String, Error> {
        let mut s = format!(
            r#"{{"crv":"{}","kty":"EC","x":"{}","y":"{}""#,
            C::NAME,
            b64(&to_be(&self.x)),
            b64(&to_be(&self.y))
        );
        if with_secret {
            match self.sk {
                Some(sk) => s.push_str(&format!(r#","d":"{}""#, b64(&sk))),
                None => return Err(ErrorKind::MissingSecretKey.into()),
            }
        }
        s.push('}');
        Ok(s)
    }
    fn point(&self) -> Pt {
        Pt { x: C::FP.to(&self.x), y: C::FP.to(&self.y), z: C::FP.one() }
    }
    pub fn exchange(&self, other: &Self, out: &mut dyn WriteBuffer) -> Result<(), Error> {
        let sk = match self.sk {
            Some(sk) => from_be(&sk),
            None => return Err(ErrorKind::MissingSecretKey.into()),
        };
        // the same for both parties
        let (a, b) = (self.sec1_compressed(), other.sec1_compressed());
        let z = memo(&MEMO, C::NAME, &[b"dh", &a.min(b), &a.max(b)], || affine::<C>(&mul::<C>(&other.point(), &sk)));
        match z {
            Some((x, _)) => out.buffer_write(&to_be(&x)),
            None => err(ErrorKind::Invalid, "Invalid key exchange"),
        }
    }
    /// RFC 6979 deterministic ECDSA with SHA-256.
    pub fn sign(&self, msg: &[u8]) -> Option<[u8; 64]> {
        let sk = self.sk?;
        let n = &C::FN;
        let h = Sha256::digest(msg);
        let z = n.reduce(&from_be(&h));
        let zb = to_be(&z);
        let mut v = vec![1u8; 32];
        let mut k = vec![0u8; 32];
        k = hmac::<Sha256>(64, &k, &[&v, &[0], &sk, &zb]);
        v = hmac::<Sha256>(64, &k, &[&v]);
        k = hmac::<Sha256>(64, &k, &[&v, &[1], &sk, &zb]);
        v = hmac::<Sha256>(64, &k, &[&v]);
        loop {
            v = hmac::<Sha256>(64, &k, &[&v]);
            let kk = from_be(&v);
            if !is_zero(&kk) && n.lt(&kk) {
                let (x, _) = affine::<C>(&mul_gen::<C>(&kk))?;
                let r = n.reduce(&x);
                let km = n.to(&kk);
                let rd = n.mul(&n.to(&r), &n.to(&from_be(&sk)));
                let s = n.mul(&n.inv(&km), &n.add(&n.to(&z), &rd));
                let mut s = n.from(&s);
                if !is_zero(&r) && !is_zero(&s) {
                    if C::NORMALIZE_S {
                        let neg = n.sub(&[0; 4], &s);
                        if sub4(neg, s).1 == 1 {
                            s = neg;
                        }
                    }
                    let mut o = [0u8; 64];
                    o[..32].copy_from_slice(&to_be(&r));
                    o[32..].copy_from_slice(&to_be(&s));
                    return Some(o);
                }
            }
            k = hmac::<Sha256>(64, &k, &[&v, &[0]]);
            v = hmac::<Sha256>(64, &k, &[&v]);
        }
    }
    pub fn verify(&self, msg: &[u8], sig: &[u8]) -> bool {
        if sig.len() != 64 {
            return false;
        }
        let n = &C::FN;
        let (r, s) = (from_be(&sig[..32]), from_be(&sig[32..]));
        if is_zero(&r) || is_zero(&s) || !n.lt(&r) || !n.lt(&s) {
            return false;
        }
        if C::NORMALIZE_S {
            let neg = n.sub(&[0; 4], &s);
            if sub4(neg, s).1 == 1 {
                return false; // high-S is rejected for secp256k1
            }
        }
        let h = Sha256::digest(msg);
        let z = n.reduce(&from_be(&h));
        let p = memo(&MEMO, C::NAME, &[b"vf", &to_be(&self.x), &to_be(&self.y), &h, sig], || {
            let w = n.inv(&n.to(&s));
            let u1 = n.from(&n.mul(&n.to(&z), &w));
            let u2 = n.from(&n.mul(&n.to(&r), &w));
            affine::<C>(&add::<C>(&mul_gen::<C>(&u1), &mul::<C>(&self.point(), &u2)))
        });
        match p {
            Some((x, _)) => n.reduce(&x) == r,
            None => false,
        }
    }
    pub fn debug(&self, name: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct(name)
            .field("secret", if self.sk.is_some() { &"<secret>" } else { &"None" })
            .field("public", &self.sec1_compressed())
            .finish()
    }
}

macro_rules! ec_key_pair {
    ($kp:ident, $c:ty, $name:expr) => {
        #[derive(Clone)]
        pub struct $kp(pub(crate) super::ec::EcKey<$c>);

        impl std::fmt::Debug for $kp {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.0.debug($name, f)
            }
        }
        impl crate::repr::KeyGen for $kp {
            fn generate(mut rng: impl crate::repr::KeyMaterial) -> Result<Self, crate::Error> {
                loop {
                    let mut sk = [0u8; 32];
                    rng.read_okm(&mut sk);
                    if let Ok(k) = super::ec::EcKey::from_sk(&sk) {
                        crate::sim::note_drawn(<$c as super::ec::EcParams>::NAME, &sk);
                        return Ok($kp(k));
                    }
                }
            }
        }
        impl crate::repr::KeySecretBytes for $kp {
            fn from_secret_bytes(key: &[u8]) -> Result<Self, crate::Error> {
                super::ec::EcKey::from_sk(key).map($kp)
            }
            fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
                f(self.0.sk.as_ref().map(|s| &s[..]))
            }
        }
        impl crate::repr::KeyPublicBytes for $kp {
            fn from_public_bytes(key: &[u8]) -> Result<Self, crate::Error> {
                super::ec::EcKey::from_sec1(key).map($kp)
            }
            fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O {
                f(&self.0.sec1_compressed())
            }
        }
        impl crate::jwk::FromJwk for $kp {
            fn from_jwk_parts(j: crate::jwk::JwkParts) -> Result<Self, crate::Error> {
                super::ec::EcKey::from_jwk(&j).map($kp)
            }
        }
        impl crate::jwk::ToJwk for $kp {
            fn jwk_members(&self, with_secret: bool) -> Result<String, crate::Error> {
                self.0.jwk(with_secret)
            }
        }
        impl crate::sign::KeySign for $kp {
            fn write_signature(
                &self,
                message: &[u8],
                sig_type: Option<crate::sign::SignatureType>,
                out: &mut dyn crate::buffer::WriteBuffer,
            ) -> Result<(), crate::Error> {
                match sig_type {
                    None => {}
                    Some(t) if t == <$c as super::ec::EcParams>::SIG => {}
                    _ => {
                        return crate::error::err(
                            crate::ErrorKind::Unsupported,
                            "Unsupported signature type",
                        )
                    }
                }
                match self.0.sign(message) {
                    Some(s) => out.buffer_write(&s),
                    None => Err(crate::ErrorKind::MissingSecretKey.into()),
                }
            }
        }
        impl crate::sign::KeySigVerify for $kp {
            fn verify_signature(
                &self,
                message: &[u8],
                signature: &[u8],
                sig_type: Option<crate::sign::SignatureType>,
            ) -> Result<bool, crate::Error> {
                match sig_type {
                    None => {}
                    Some(t) if t == <$c as super::ec::EcParams>::SIG => {}
                    _ => {
                        return crate::error::err(
                            crate::ErrorKind::Unsupported,
                            "Unsupported signature type",
                        )
                    }
                }
                Ok(self.0.verify(message, signature))
            }
        }
    };
}
pub(crate) use ec_key_pair;
