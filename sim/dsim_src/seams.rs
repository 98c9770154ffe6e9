//! The seams towards the operating system: clocks and entropy of the simulated threads.
use askar_crypto::sim::Prng;
use std::cell::{Cell, RefCell};

thread_local! {
    static SIMULATED: Cell<bool> = Cell::new(false);
    static OS: RefCell<Prng> = RefCell::new(Prng::new(7));
}

/// From here on this thread lives in the simulation.
pub fn enter(seed: u64) {
    SIMULATED.with(|s| s.set(true));
    OS.with(|o| *o.borrow_mut() = Prng::new(seed ^ 0x05ee_d0e5));
}

/// Entropy asked for through the `getrandom` crate (identifiers).
fn crate_entropy(buf: &mut [u8]) {
    askar_crypto::sim::fill(buf)
}

pub fn install() {
    getrandom::install(crate_entropy);
}

/// Entropy asked for through the C library (seeds of hash maps).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let s = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    if OS.try_with(|o| o.borrow_mut().fill(s)).is_err() {
        s.fill(0);
    }
    len as libc::ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if SIMULATED.try_with(|s| s.get()).unwrap_or(false) {
        let us = crate::exec::sim_now();
        let base = if id == libc::CLOCK_REALTIME { crate::exec::wall() } else { 1_000 };
        (*ts).tv_sec = (base + us / 1_000_000) as libc::time_t;
        (*ts).tv_nsec = ((us % 1_000_000) * 1_000) as libc::c_long;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
}

fn raw(id: libc::clockid_t) -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::syscall(libc::SYS_clock_gettime, id, &mut ts as *mut libc::timespec);
        ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
    }
}
/// Real time, for the harness only.
pub fn real() -> f64 {
    raw(libc::CLOCK_MONOTONIC)
}
/// Processor time of this process, for the harness only.
pub fn cpu() -> f64 {
    raw(libc::CLOCK_PROCESS_CPUTIME_ID)
}
