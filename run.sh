#!/bin/bash
# run.sh <ID> [--case profile:case]   build what the check needs from /repo's working tree and run it
set -u
cd "$(dirname "$0")" || exit 2
export MC_VERIF="$PWD" CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$MC_VERIF/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS RUST_BACKTRACE
id="${1:?usage: run.sh <ID>}"
mkdir -p evidence/replay target
build() { # profile
  feat=""; [ "$1" = types ] && feat="--features types"
  if ! cargo build --offline --locked --manifest-path mc/Cargo.toml --bin mc --profile "$1" $feat >"target/build-$1.log" 2>&1; then
    tail -40 "target/build-$1.log"
    echo "engine error: build ($1) failed"
    exit 2
  fi
}
rel=release
[ "$id" = C19 ] && rel=types
case "${2:-}:${3:-}" in
  --case:checked:*) build checked; exec target/checked/mc "$@" ;;
  --case:*) build $rel; exec target/$rel/mc "$@" ;;
esac
case " $(cat mc/checked-checks.txt) " in
  *" $id "*) build checked & cpid=$!; build $rel; wait $cpid || exit 2 ;;
  *) build $rel ;;
esac
export MC_CHECKED="$MC_VERIF/target/checked/mc"
exec target/$rel/mc "$id"
