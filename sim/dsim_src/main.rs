//! Deterministic simulation of DIDComm deployments.
//!
//!   dsim check  --property Cxx --tier quick --seed N --secs S --jobs J --evidence F --replays D
//!   dsim replay FILE              run a replay file again; exit 1 when it fails the same way
//!   dsim one FOCUS SEED [-v]      run one seed and print what happened
//!   dsim digest FOCUS SEED..      digest of the whole event trace of each seed
mod batch;
mod byz;
mod choices;
mod cli;
mod exec;
mod keys;
mod msgs;
mod ops;
mod oracle;
mod peer;
mod run;
mod seams;
mod setup;
mod shrink;
mod world;

/// The property a run that hangs or kills the process breaks.
pub const HANG: &str = "C12";
/// Real seconds after which a run is considered hanging.
pub const HANG_AFTER: f64 = 200.0;
pub const REAL: &[&str] = &["all of /repo/src (didcomm: message, jwe, jws, jwk, algorithms, did, secrets, protocols, utils)", "serde, serde_json, base64, bs58, uuid, varint, sha2"];
pub const STUB: &[&str] = &[
    "askar-crypto (clean-room stand-in, real cryptography, seeded randomness)",
    "getrandom (seeded)",
    "clock and entropy of the C library (seeded)",
    "DID registry, resolvers, wallets, disks, network (simulated)",
];

fn main() {
    cli::main()
}
