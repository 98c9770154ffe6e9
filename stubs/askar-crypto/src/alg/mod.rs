pub mod aes;
pub mod chacha20;
pub mod ec;
pub mod ed25519;
pub mod k256;
pub(crate) mod memo;
pub mod p256;
pub mod x25519;
