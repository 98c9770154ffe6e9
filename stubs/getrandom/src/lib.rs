//! Stand-in for getrandom 0.2 whose bytes come from a function the simulator installs.
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error(());
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no random source")
    }
}
impl std::error::Error for Error {}

static SOURCE: AtomicUsize = AtomicUsize::new(0);

pub fn install(f: fn(&mut [u8])) {
    SOURCE.store(f as usize, Ordering::SeqCst);
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let p = SOURCE.load(Ordering::SeqCst);
    if p == 0 {
        return Err(Error(()));
    }
    let f: fn(&mut [u8]) = unsafe { std::mem::transmute(p) };
    f(dest);
    Ok(())
}
