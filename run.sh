#!/bin/bash
# usage: run.sh <property id> [--replay FILE]     (VERIF_TIER=quick|thorough)
# Builds the checker crate that decides the property against /repo's working tree, runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property id}; shift
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.98.0
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=${MC_TARGET:-$here/target}
unset RUSTFLAGS
crate=geo
case $id in
  C21) crate=ds;   export RUSTFLAGS="--cfg rcgal_verif"; CARGO_TARGET_DIR=$CARGO_TARGET_DIR/hooked ;;
  C22) crate=wasm ;;
esac
# cargo judges freshness by mtime: force the crate under test to be rebuilt from the current files
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/rcgal-* "$CARGO_TARGET_DIR"/release/.fingerprint/mc$crate-*
log=$(mktemp)
if ! cargo build --release --offline --manifest-path "$here/mc/$crate/Cargo.toml" >"$log" 2>&1; then
  cat "$log"; rm -f "$log"
  echo "ERROR: the checker for $id does not build against /repo"
  exit 2
fi
rm -f "$log"
export MC_OUT=$here MC_KNOWN=$here/known_findings.txt
exec "$CARGO_TARGET_DIR/release/mc$crate" "$id" "$@"
