use crate::buffer::ResizeBuffer;
use crate::error::Error;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct KeyAeadParams {
    pub nonce_length: usize,
    pub tag_length: usize,
}

pub trait KeyAeadInPlace {
    /// Encrypt a buffer in place, appending the tag; returns the length of the ciphertext.
    fn encrypt_in_place(
        &self,
        buffer: &mut dyn ResizeBuffer,
        nonce: &[u8],
        aad: &[u8],
    ) -> Result<usize, Error>;

    fn decrypt_in_place(
        &self,
        buffer: &mut dyn ResizeBuffer,
        nonce: &[u8],
        aad: &[u8],
    ) -> Result<(), Error>;

    fn aead_params(&self) -> KeyAeadParams;

    fn aead_padding(&self, _msg_len: usize) -> usize {
        0
    }
}

pub trait KeyAeadMeta {
    const NONCE_LENGTH: usize;
    const TAG_LENGTH: usize;

    fn random_nonce() -> Vec<u8> {
        let mut n = vec![0u8; Self::NONCE_LENGTH];
        crate::sim::fill(&mut n);
        n
    }
}
