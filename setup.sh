#!/bin/bash
# builds the engine from the committed sources (checks rebuild whatever is missing)
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable RUSTFLAGS="-Awarnings" CARGO_INCREMENTAL=0
cargo build --release --offline -q --manifest-path symx/Cargo.toml --target-dir .work/symx
