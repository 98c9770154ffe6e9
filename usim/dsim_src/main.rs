//! Deterministic simulation of applications that use the callback binding (see ../../sim for the
//! commands; the same search, minimisation and replay are used).
#[path = "../../sim/dsim_src/batch.rs"]
mod batch;
#[path = "../../sim/dsim_src/choices.rs"]
mod choices;
#[path = "../../bind/dsim_src/deploy.rs"]
mod deploy;
#[path = "../../sim/dsim_src/exec.rs"]
mod exec;
#[path = "../../sim/dsim_src/keys.rs"]
mod keys;
#[path = "../../sim/dsim_src/msgs.rs"]
mod msgs;
mod run;
#[path = "../../sim/dsim_src/seams.rs"]
mod seams;
#[path = "../../sim/dsim_src/shrink.rs"]
mod shrink;
#[path = "../../sim/dsim_src/cli.rs"]
mod cli;

/// The property a run that hangs or kills the process breaks.
pub const HANG: &str = "C18";
/// Real seconds after which a run is considered hanging.
pub const HANG_AFTER: f64 = 12.0;
pub const REAL: &[&str] = &["all of /repo/uniffi/src (adapters, callbacks, operations, example resolvers)", "all of /repo/src, built with feature uniffi", "futures channels, serde, serde_json, uuid, sha2, bs58, base64"];
pub const STUB: &[&str] = &[
    "uniffi scaffolding (only the custom type converter trait; the foreign host is a simulated one)",
    "futures::executor::ThreadPool (tasks go to the seeded scheduler)",
    "askar-crypto (clean-room stand-in, real cryptography, seeded randomness)",
    "getrandom, clock and entropy of the C library (seeded)",
    "host application: resolvers, wallet, result callbacks (simulated)",
];

fn main() {
    cli::main()
}
