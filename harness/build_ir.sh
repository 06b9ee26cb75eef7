#!/bin/bash
# build_ir.sh CRATE_DIR OUT.ll : the whole-program LLVM IR of a harness crate
set -e
cd "$1"
export RUSTUP_TOOLCHAIN=1.85 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -C save-temps ${VS_RUSTFLAGS}"
export CARGO_TARGET_DIR="${VS_TARGET:-$PWD/target}/ir"
name=$(basename "$1")
rm -f "$CARGO_TARGET_DIR"/release/deps/$name-*.ll
cargo rustc --release --offline -- --emit=llvm-ir >"$2.log" 2>&1 || true
f=$(ls "$CARGO_TARGET_DIR"/release/deps/$name-*.ll 2>/dev/null | grep -v rcgu | head -1)
[ -n "$f" ] || { tail -40 "$2.log"; exit 2; }
cp "$f" "$2"
