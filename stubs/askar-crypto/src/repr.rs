use crate::buffer::{SecretBytes, WriteBuffer};
use crate::error::Error;
use crate::random::StdRng;

/// A source of key material (a random generator or a KDF).
pub trait KeyMaterial {
    fn read_okm(&mut self, buf: &mut [u8]);
}

impl<M: KeyMaterial + ?Sized> KeyMaterial for &mut M {
    fn read_okm(&mut self, buf: &mut [u8]) {
        (**self).read_okm(buf)
    }
}

pub trait KeyGen: Sized {
    fn generate(rng: impl KeyMaterial) -> Result<Self, Error>;
    fn random() -> Result<Self, Error> {
        Self::generate(StdRng)
    }
}

pub trait KeySecretBytes {
    fn from_secret_bytes(key: &[u8]) -> Result<Self, Error>
    where
        Self: Sized;
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O;
}

pub trait KeyPublicBytes {
    fn from_public_bytes(key: &[u8]) -> Result<Self, Error>
    where
        Self: Sized;
    fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O;
}

pub trait ToSecretBytes {
    fn secret_bytes_length(&self) -> Result<usize, Error>;
    fn write_secret_bytes(&self, out: &mut dyn WriteBuffer) -> Result<(), Error>;
    fn to_secret_bytes(&self) -> Result<SecretBytes, Error> {
        let mut buf = SecretBytes::with_capacity(self.secret_bytes_length()?);
        self.write_secret_bytes(&mut buf)?;
        Ok(buf)
    }
}

impl<K: KeySecretBytes> ToSecretBytes for K {
    fn secret_bytes_length(&self) -> Result<usize, Error> {
        self.with_secret_bytes(|b| {
            b.map(|b| b.len()).ok_or_else(|| crate::ErrorKind::MissingSecretKey.into())
        })
    }
    fn write_secret_bytes(&self, out: &mut dyn WriteBuffer) -> Result<(), Error> {
        self.with_secret_bytes(|b| match b {
            Some(b) => out.buffer_write(b),
            None => Err(crate::ErrorKind::MissingSecretKey.into()),
        })
    }
}

pub trait ToPublicBytes {
    fn public_bytes_length(&self) -> Result<usize, Error>;
    fn write_public_bytes(&self, out: &mut dyn WriteBuffer) -> Result<(), Error>;
    fn to_public_bytes(&self) -> Result<SecretBytes, Error> {
        let mut buf = SecretBytes::with_capacity(self.public_bytes_length()?);
        self.write_public_bytes(&mut buf)?;
        Ok(buf)
    }
}

impl<K: KeyPublicBytes> ToPublicBytes for K {
    fn public_bytes_length(&self) -> Result<usize, Error> {
        Ok(self.with_public_bytes(|b| b.len()))
    }
    fn write_public_bytes(&self, out: &mut dyn WriteBuffer) -> Result<(), Error> {
        self.with_public_bytes(|b| out.buffer_write(b))
    }
}
