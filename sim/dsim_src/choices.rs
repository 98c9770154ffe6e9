//! The single source of decisions: every schedule, delay, fault and generated operation is a draw
//! from one recorded sequence.  Zero is always the plainest alternative, so that shortening or
//! zeroing a recorded sequence simplifies the execution.
use askar_crypto::sim::Prng;

pub struct Choices {
    gen: Option<Prng>,
    script: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    log: Option<std::fs::File>,
}

pub const MAX_CHOICES: usize = 60_000;

impl Choices {
    pub fn from_seed(seed: u64) -> Self {
        Choices { gen: Some(Prng::new(seed ^ 0xC0FFEE)), script: vec![], pos: 0, rec: vec![], log: choice_log() }
    }
    pub fn from_script(script: Vec<u64>) -> Self {
        Choices { gen: None, script, pos: 0, rec: vec![], log: choice_log() }
    }
    /// A value in `0..n`.
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match self.gen {
            Some(ref mut g) if self.rec.len() < MAX_CHOICES => {
                // rejection-free reduction; bias is irrelevant here
                (((g.next_u64() as u128) * (n as u128)) >> 64) as u64
            }
            Some(_) => 0,
            None => {
                let v = self.script.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            let _ = std::io::Write::write_all(f, &v.to_le_bytes());
        }
        v
    }
    /// True with probability `num/den`; false is the plain case.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        num > 0 && self.draw(den) >= den.saturating_sub(num)
    }
    /// Index drawn with the given weights (index 0 is the plain case).
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
}

/// A record of the choices that survives the death of the process.
fn choice_log() -> Option<std::fs::File> {
    std::env::var_os("DSIM_CHOICE_LOG").and_then(|p| std::fs::File::create(p).ok())
}
