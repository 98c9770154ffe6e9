use super::ec::{ec_key_pair, EcParams, Mont, Pt};
use crate::sign::SignatureType;
use std::sync::OnceLock;

pub struct P256;
impl EcParams for P256 {
    const NAME: &'static str = "P-256";
    const FP: Mont = Mont::new([
        0xffffffffffffffff,
        0x00000000ffffffff,
        0x0000000000000000,
        0xffffffff00000001,
    ]);
    const FN: Mont = Mont::new([
        0xf3b9cac2fc632551,
        0xbce6faada7179e84,
        0xffffffffffffffff,
        0xffffffff00000000,
    ]);
    const A: [u64; 4] = [
        0xfffffffffffffffc,
        0x00000000ffffffff,
        0x0000000000000000,
        0xffffffff00000001,
    ];
    const B: [u64; 4] = [
        0x3bce3c3e27d2604b,
        0x651d06b0cc53b0f6,
        0xb3ebbd55769886bc,
        0x5ac635d8aa3a93e7,
    ];
    const GX: [u64; 4] = [
        0xf4a13945d898c296,
        0x77037d812deb33a0,
        0xf8bce6e563a440f2,
        0x6b17d1f2e12c4247,
    ];
    const GY: [u64; 4] = [
        0xcbb6406837bf51f5,
        0x2bce33576b315ece,
        0x8ee7eb4a7c0f9e16,
        0x4fe342e2fe1a7f9b,
    ];
    const SIG: SignatureType = SignatureType::ES256;
    const NORMALIZE_S: bool = false;
    const CRV_REQUIRED: bool = true;
    fn table() -> &'static OnceLock<Vec<[Pt; 16]>> {
        static T: OnceLock<Vec<[Pt; 16]>> = OnceLock::new();
        &T
    }
}

ec_key_pair!(P256KeyPair, P256, "P256KeyPair");

impl crate::kdf::KeyExchange for P256KeyPair {
    fn write_key_exchange(
        &self,
        other: &Self,
        out: &mut dyn crate::buffer::WriteBuffer,
    ) -> Result<(), crate::Error> {
        self.0.exchange(&other.0, out)
    }
}
