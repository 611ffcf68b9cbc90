#!/bin/bash
# Builds the simulator from /repo's working tree. Output goes to stderr.
set -e
. /opt/vp/env.sh
cd "$(dirname "$0")/harness"
export CARGO_TARGET_DIR=${VSIM_TARGET:-/verif/target} CARGO_INCREMENTAL=0
export RUSTFLAGS="-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard"
cargo build --release --offline --target x86_64-unknown-linux-gnu 1>&2
