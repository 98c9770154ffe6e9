#!/bin/bash
# Demonstration: run with the repository as current directory.  Exit 0 when the property holds, 1 when it is broken.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'case "$W" in /tmp/demo.*) rm -rf "$W" ;; esac' EXIT
export CARGO_TARGET_DIR=$W/target
mkdir -p "$W/didcomm" "$W/demo/code"
cp -r "$HERE/support/askar-crypto" "$W/askar-crypto"
cp "$HERE"/support/*.rs "$HERE/demo.rs" "$W/demo/code/"
cat >"$W/didcomm/Cargo.toml" <<M
[package]
name = "didcomm"
version = "0.4.1"
edition = "2018"
[lib]
path = "$REPO/src/lib.rs"
[dependencies]
anyhow = "1.0"
base64 = "0.13"
async-trait = "0.1"
thiserror = "1.0"
serde_json = "1.0"
serde-enum-str = "0.1"
sha2 = "0.9"
bs58 = "0.4.0"
varint = "0.9.0"
serde = { version = "1.0", features = ["derive"] }
askar-crypto = { path = "../askar-crypto", features = ["std"] }
uuid = { version = "0.8", features = ["v4"] }
[features]
uniffi = []
[workspace]
M
cat >"$W/demo/Cargo.toml" <<M
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "demo"
path = "code/demo.rs"
[dependencies]
didcomm = { path = "../didcomm" }
askar-crypto = { path = "../askar-crypto" }
serde_json = "1.0"
async-trait = "0.1"
base64 = "0.13"
sha2 = "0.9"
bs58 = "0.4"
[profile.dev]
opt-level = 1
debug = 0
[workspace]
M
cp "$HERE/support/Cargo.lock" "$W/demo/Cargo.lock" 2>/dev/null
cd "$W/demo" || exit 3
if ! cargo build --offline >"$W/build.log" 2>&1; then
  cat "$W/build.log"
  exit 3
fi
timeout 120 "$W/target/debug/demo"
