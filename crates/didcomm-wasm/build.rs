// Rebuild whenever the content of /repo's sources changes (file times are not to be trusted).
fn main() {
    println!("cargo:rerun-if-env-changed=DIDCOMM_SRC_HASH");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-env=DIDCOMM_SRC_HASH={}", std::env::var("DIDCOMM_SRC_HASH").unwrap_or_default());
}
