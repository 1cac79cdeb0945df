#!/bin/bash
# development helper: registers module pNN in hx
cd "$(dirname "$0")"
grep -q "\"$1\"" hx/src/props.rs || sed -i "s/^}\$/    $1 \"$1\" \"$1.rs\"\n}/" hx/src/props.rs
grep -q "^$1 = " hx/Cargo.toml || sed -i "s/^p01 = \[\]/p01 = []\n$1 = []/" hx/Cargo.toml
