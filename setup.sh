#!/bin/bash
# Builds the framework from the committed files (each check rebuilds what it needs anyway).
set -eu
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS || true
m="--offline --locked --manifest-path mc/Cargo.toml"
cargo build $m --release --bin mc
cargo build $m --profile types --features types --bin mc
cargo build $m --profile checked --bin mc
# the same for Miri; the checks that use it also work without this
MIRIFLAGS=-Zmiri-disable-isolation CARGO_TARGET_DIR="$PWD/target/miri" timeout 600 \
  cargo +nightly miri run --release $m --quiet --bin ubdrive -- calls 0 1 0 0 || echo "miri prebuild skipped"
