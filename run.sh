#!/bin/bash
# usage: run.sh setup | run.sh <property> <quick|thorough> [harness options] | run.sh replay FILE
# Builds the harness against /repo's current working tree, then runs one check.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0
# /repo's src/lib.rs has #![deny(warnings)]
export RUSTFLAGS="--cap-lints warn"
export CARGO_TARGET_DIR="$PWD/harness/target"
build() {
  cargo build --release --offline --manifest-path harness/Cargo.toml >harness/build.log 2>&1 || {
    tail -40 harness/build.log >&2; echo "harness build failed" >&2; exit 2; }
}
build
case "$1" in
  setup) exit 0 ;;
  replay) exec harness/target/release/vharness replay "$2" ;;
  *) harness/target/release/vharness run "$@"
     rc=$?
     if [ "$2" != thorough ] || [ $rc -ne 0 ]; then exit $rc; fi ;;
esac
# thorough: then search guided by branch coverage, from a second build with coverage counters
# (--target keeps the counters out of build scripts)
export RUSTFLAGS="$RUSTFLAGS --cfg vh_cov -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters"
export CARGO_TARGET_DIR="$PWD/harness/target-cov"
cargo build --release --offline --target x86_64-unknown-linux-gnu --manifest-path harness/Cargo.toml >harness/build-cov.log 2>&1 || {
  tail -40 harness/build-cov.log >&2; echo "harness build with coverage failed" >&2; exit 2; }
exec harness/target-cov/x86_64-unknown-linux-gnu/release/vharness guided "$@"
