#!/bin/bash
# b.sh [target dir]: build the harness IR
export CARGO_TARGET_DIR=${1:-/verif/harness/target}
cd /verif/harness && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS="-Awarnings --cap-lints allow" cargo rustc --offline --release -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp > /tmp/b.log 2>&1 || { grep -E "^error" -A12 /tmp/b.log; exit 1; }
