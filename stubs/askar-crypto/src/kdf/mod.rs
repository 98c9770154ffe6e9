pub mod concat;
pub mod ecdh_1pu;
pub mod ecdh_es;

use crate::buffer::{SecretBytes, WriteBuffer};
use crate::error::Error;

pub trait KeyExchange<Rhs: ?Sized = Self> {
    fn write_key_exchange(&self, other: &Rhs, out: &mut dyn WriteBuffer) -> Result<(), Error>;

    fn key_exchange_bytes(&self, other: &Rhs) -> Result<SecretBytes, Error> {
        let mut buf = SecretBytes::with_capacity(128);
        self.write_key_exchange(other, &mut buf)?;
        Ok(buf)
    }
}

pub trait KeyDerivation {
    fn derive_key_bytes(&mut self, key_output: &mut [u8]) -> Result<(), Error>;
}

pub trait FromKeyDerivation {
    fn from_key_derivation<D: KeyDerivation>(derive: D) -> Result<Self, Error>
    where
        Self: Sized;
}

pub trait FromKeyExchange<Lhs: ?Sized, Rhs: ?Sized>: Sized {
    fn from_key_exchange(lhs: &Lhs, rhs: &Rhs) -> Result<Self, Error>;
}
