#!/bin/bash
# usage: ir.sh FEATURE OUT.ll TARGET_DIR — compiles one property module and everything it calls to one LLVM module
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR="$3" CARGO_INCREMENTAL=0
[ -e "$2" ] || rm -rf "$3/release/.fingerprint"/hx-*
cargo rustc --offline --release --lib --crate-type staticlib --features "ir,$1" -- --emit=llvm-ir="$2" -C no-vectorize-loops -C no-vectorize-slp
