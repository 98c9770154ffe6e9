use crate::buffer::SecretBytes;
use crate::error::Error;
use crate::repr::KeyMaterial;

#[derive(Debug, Clone, Copy, Default)]
pub struct StdRng;

impl StdRng {
    pub fn fill_bytes(&mut self, buf: &mut [u8]) {
        crate::sim::fill(buf)
    }
    pub fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    pub fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
}

impl KeyMaterial for StdRng {
    fn read_okm(&mut self, buf: &mut [u8]) {
        self.fill_bytes(buf)
    }
}

pub fn default_rng() -> StdRng {
    StdRng
}

pub fn fill_random(value: &mut [u8]) {
    crate::sim::fill(value)
}

pub fn random_array<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill_random(&mut b);
    b
}

pub fn random_secret(len: usize) -> SecretBytes {
    let mut v = vec![0u8; len];
    fill_random(&mut v);
    SecretBytes::from(v)
}

/// Expand a 32-byte seed into pseudo-random output.
pub fn fill_random_deterministic(seed: &[u8], output: &mut [u8]) -> Result<(), Error> {
    use sha2::{Digest, Sha256};
    for (i, c) in output.chunks_mut(32).enumerate() {
        let mut h = Sha256::new();
        h.update(seed);
        h.update((i as u64).to_be_bytes());
        let d = h.finalize();
        c.copy_from_slice(&d[..c.len()]);
    }
    Ok(())
}
