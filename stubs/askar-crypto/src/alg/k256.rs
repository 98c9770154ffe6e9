use super::ec::{ec_key_pair, EcParams, Mont, Pt};
use crate::sign::SignatureType;
use std::sync::OnceLock;

pub struct K256;
impl EcParams for K256 {
    const NAME: &'static str = "secp256k1";
    const FP: Mont = Mont::new([
        0xfffffffefffffc2f,
        0xffffffffffffffff,
        0xffffffffffffffff,
        0xffffffffffffffff,
    ]);
    const FN: Mont = Mont::new([
        0xbfd25e8cd0364141,
        0xbaaedce6af48a03b,
        0xfffffffffffffffe,
        0xffffffffffffffff,
    ]);
    const A: [u64; 4] = [0, 0, 0, 0];
    const B: [u64; 4] = [7, 0, 0, 0];
    const GX: [u64; 4] = [
        0x59f2815b16f81798,
        0x029bfcdb2dce28d9,
        0x55a06295ce870b07,
        0x79be667ef9dcbbac,
    ];
    const GY: [u64; 4] = [
        0x9c47d08ffb10d4b8,
        0xfd17b448a6855419,
        0x5da4fbfc0e1108a8,
        0x483ada7726a3c465,
    ];
    const SIG: SignatureType = SignatureType::ES256K;
    const NORMALIZE_S: bool = true;
    const CRV_REQUIRED: bool = false;
    fn table() -> &'static OnceLock<Vec<[Pt; 16]>> {
        static T: OnceLock<Vec<[Pt; 16]>> = OnceLock::new();
        &T
    }
}

ec_key_pair!(K256KeyPair, K256, "K256KeyPair");

impl crate::kdf::KeyExchange for K256KeyPair {
    fn write_key_exchange(
        &self,
        other: &Self,
        out: &mut dyn crate::buffer::WriteBuffer,
    ) -> Result<(), crate::Error> {
        self.0.exchange(&other.0, out)
    }
}
