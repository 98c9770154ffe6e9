//! The simulator's side of the crypto seam: one seeded generator per thread, and a record of every
//! key, nonce and ephemeral key that was drawn from it.
use std::cell::RefCell;

#[derive(Clone)]
pub struct Prng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Prng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Prng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next_u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn fill(&mut self, buf: &mut [u8]) {
        for c in buf.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
}

/// One content encryption done by the code under test.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AeadUse {
    pub alg: &'static str,
    pub key: Vec<u8>,
    pub nonce: Vec<u8>,
}

/// A secret drawn from the generator (content key or ephemeral key), or ("bytes") any draw at all.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Drawn {
    pub what: &'static str,
    pub bytes: Vec<u8>,
}

#[derive(Default)]
pub struct Log {
    pub recording: bool,
    pub aead: Vec<AeadUse>,
    pub drawn: Vec<Drawn>,
}

thread_local! {
    static RNG: RefCell<Prng> = RefCell::new(Prng::new(0x5EED));
    static LOG: RefCell<Log> = RefCell::new(Log::default());
}

/// (Re)seed this thread's generator.
pub fn seed(seed: u64) {
    RNG.with(|r| *r.borrow_mut() = Prng::new(seed));
}

pub fn fill(buf: &mut [u8]) {
    // Best effort during thread teardown: fall back to zeros.
    let _ = RNG.try_with(|r| r.borrow_mut().fill(buf)).map_err(|_| buf.fill(0));
    note_drawn("bytes", buf);
}

pub fn record(on: bool) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.recording = on;
        l.aead.clear();
        l.drawn.clear();
    });
}

pub fn take_log() -> (Vec<AeadUse>, Vec<Drawn>) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        (std::mem::take(&mut l.aead), std::mem::take(&mut l.drawn))
    })
}

pub(crate) fn note_aead(alg: &'static str, key: &[u8], nonce: &[u8]) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        if l.recording {
            l.aead.push(AeadUse { alg, key: key.to_vec(), nonce: nonce.to_vec() });
        }
    });
}

pub(crate) fn note_drawn(what: &'static str, bytes: &[u8]) {
    let _ = LOG.try_with(|l| {
        let mut l = l.borrow_mut();
        if l.recording {
            l.drawn.push(Drawn { what, bytes: bytes.to_vec() });
        }
    });
}
