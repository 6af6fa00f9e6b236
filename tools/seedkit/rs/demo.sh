#!/bin/bash
# Compiles the library's Rust modules (with stand-ins for third-party crates) and runs demo.rs against them.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp -r src/rust_wrapper "$D/root.rs" "$D/pq.rs" "$T/" || exit 2; find "$T/rust_wrapper" -name '*.rs' -exec sed -i 's/^fn /pub fn /' {} +
R="rustc --edition 2021 -O -C debug-assertions=on -A warnings --out-dir $T"
$R --crate-type rlib --crate-name qrs "$T/root.rs" && $R --crate-name demo --extern qrs="$T/libqrs.rlib" "$D/demo.rs" || { echo "does not build"; exit 2; }
cd "$T"; timeout 250 ./demo
