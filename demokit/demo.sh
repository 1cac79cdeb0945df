#!/bin/bash
# builds the little program in demo/ against the repository in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp -r "$here/demo/." "$t/" && sed -i "s|@REPO@|$repo|" "$t/Cargo.toml" || exit 1
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_INCREMENTAL=0 RUSTFLAGS=-Awarnings
unset CARGO_TARGET_DIR
(cd "$t" && cargo build --offline -q --target-dir "$t/target") || exit 1
timeout 60 "$t/target/debug/demo"
