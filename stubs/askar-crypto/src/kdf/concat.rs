use sha2::{Digest, Sha256};

#[derive(Clone, Copy, Debug)]
pub struct ConcatKDFParams<'p> {
    pub alg: &'p [u8],
    pub apu: &'p [u8],
    pub apv: &'p [u8],
    pub pub_info: &'p [u8],
    pub prv_info: &'p [u8],
}

/// NIST SP 800-56A single-step KDF with SHA-256.
pub fn concat_kdf(secret: &[u8], p: ConcatKDFParams<'_>, output: &mut [u8]) {
    for (i, c) in output.chunks_mut(32).enumerate() {
        let mut h = Sha256::new();
        h.update((i as u32 + 1).to_be_bytes());
        h.update(secret);
        for f in [p.alg, p.apu, p.apv] {
            h.update((f.len() as u32).to_be_bytes());
            h.update(f);
        }
        h.update(p.pub_info);
        h.update(p.prv_info);
        let d = h.finalize();
        c.copy_from_slice(&d[..c.len()]);
    }
}
