#!/bin/bash
# Builds every checker crate offline from the committed files (checks rebuild what changed).
set -e
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.98.0
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS
T=${MC_TARGET:-$here/target}
CARGO_TARGET_DIR=$T cargo build --release --offline --manifest-path "$here/mc/geo/Cargo.toml"
CARGO_TARGET_DIR=$T cargo build --release --offline --manifest-path "$here/mc/wasm/Cargo.toml"
RUSTFLAGS="--cfg rcgal_verif" CARGO_TARGET_DIR=$T/hooked cargo build --release --offline --manifest-path "$here/mc/ds/Cargo.toml"
mkdir -p "$here/evidence" "$here/replays"
