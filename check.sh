#!/bin/bash
# check.sh PROPERTY : build the simulator from /repo's working tree and search for violations of PROPERTY.
# check.sh --setup  : build only.
set -u
cd "$(dirname "$0")"
V=$PWD
REPO=/repo
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$V/target
# rebuild when the content of the sources changes, whatever their time stamps say
hash() { (cd "$REPO" && find "$@" -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32); }
build() { # simulator
  case $1 in
    usim) DIDCOMM_SRC_HASH=$(hash src uniffi/src) ;;
    wsim) DIDCOMM_SRC_HASH=$(hash src wasm/src) ;;
    *) DIDCOMM_SRC_HASH=$(hash src) ;;
  esac
  export DIDCOMM_SRC_HASH
  (cd "$V/$1" && cargo build --offline --release >"$V/target/build-$1.log" 2>&1) && return
  echo "build of the simulator $1 failed:"
  grep -A20 '^error' "$V/target/build-$1.log" | head -60
  exit 2
}
mkdir -p "$V/target"
if [ "${1:-}" = --setup ]; then
  build sim
  build usim
  build wsim
  exit 0
fi
P=$1
case $P in
  C18) SIM=usim BIN=usim ;;
  C24) SIM=wsim BIN=wsim ;;
  *) SIM=sim BIN=dsim ;;
esac
build $SIM
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
case $TIER in
  thorough) SECS=${DSIM_SECS:-600} ;;
  *) SECS=${DSIM_SECS:-30} ;;
esac
JOBS=$(nproc)
mkdir -p "$V/evidence" "$V/replays"
exec "$V/target/release/$BIN" check --property "$P" --tier "$TIER" --seed "$SEED" --secs "$SECS" --jobs "$JOBS" \
  --evidence "$V/evidence/$P.json" --replays "$V/replays" --known "$V/known_findings.txt"
