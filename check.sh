#!/bin/bash
# check.sh run <ID> [quick|thorough] | replay <file> [runs] | build | list
# Rebuilds the harness (and the library from /repo's working tree), then runs one check.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2025-05-01 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$PWD/target" CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg verif_hooks -Awarnings"
unset CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL
export VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p out
build() { cargo build --offline --locked -q --manifest-path harness/Cargo.toml >out/build.log 2>&1; }
if ! build; then
  # the observation hook may not fit the code any more: the checks that do not need it still run
  export RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR="$PWD/target/plain"
  if ! build; then echo "BUILD FAILED"; tail -40 out/build.log; exit 2; fi
fi
ulimit -v 3500000 # a library that allocates without end fails its own case only
[ "$1" = build ] && exec "$CARGO_TARGET_DIR/debug/gv" selftest
exec "$CARGO_TARGET_DIR/debug/gv" "$@"
