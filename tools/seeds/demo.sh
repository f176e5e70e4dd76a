#!/bin/bash
# Build the demonstration against the crate in the current folder and run it.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$PWD/target"
rm -rf target/debug/.fingerprint/subtile-*
cargo build --offline --quiet >/dev/null 2>&1 || { echo "build failed"; exit 3; }
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
img="$(ls -t target/debug/deps/libimage-*.rlib | head -1)"
rustc --edition 2021 -A warnings -L dependency=target/debug/deps \
    --extern subtile=target/debug/libsubtile.rlib --extern image="$img" \
    -o "$out/demo" "$here/demo.rs" || { echo "demo does not build"; exit 4; }
mkdir "$out/scratch"
timeout 60 "$out/demo" "$out/scratch"
