//! API-compatible stand-in for `askar-crypto` 0.2 used by the simulator. The cryptography is real
//! (validated by published vectors, see `tests/`); the only thing simulated is the randomness.
#![allow(clippy::all)]

pub mod alg;
pub mod buffer;
pub mod encrypt;
pub mod error;
pub mod jwk;
pub mod kdf;
pub mod random;
pub mod repr;
pub mod sign;
pub mod sim;

pub use error::{Error, ErrorKind};
