//! Deterministic simulation of applications that use the JavaScript binding (see ../../sim for the
//! commands; the same search, minimisation and replay are used).
#[path = "../../sim/dsim_src/batch.rs"]
mod batch;
#[path = "../../sim/dsim_src/choices.rs"]
mod choices;
#[path = "../../bind/dsim_src/deploy.rs"]
mod deploy;
#[path = "../../sim/dsim_src/exec.rs"]
mod exec;
#[path = "../../sim/dsim_src/keys.rs"]
mod keys;
#[path = "../../sim/dsim_src/msgs.rs"]
mod msgs;
mod run;
#[path = "../../sim/dsim_src/seams.rs"]
mod seams;
#[path = "../../sim/dsim_src/shrink.rs"]
mod shrink;
#[path = "../../sim/dsim_src/cli.rs"]
mod cli;

/// The property a run that hangs or kills the process breaks.
pub const HANG: &str = "C24";
/// Real seconds after which a run is considered hanging.
pub const HANG_AFTER: f64 = 12.0;
pub const REAL: &[&str] = &["all of /repo/wasm/src (adapters, error conversion, every exported operation)", "all of /repo/src", "serde, serde_json, uuid, sha2, bs58, base64"];
pub const STUB: &[&str] = &[
    "wasm-bindgen, js-sys, wasm-bindgen-futures (a small JavaScript engine: values, JSON, promises, exports by name; tasks go to the seeded scheduler)",
    "askar-crypto (clean-room stand-in, real cryptography, seeded randomness)",
    "getrandom, clock and entropy of the C library (seeded)",
    "embedding application: resolver and wallet objects, their promises (simulated)",
];

fn main() {
    cli::main()
}
