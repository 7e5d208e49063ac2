#!/bin/bash
# Builds the library in the current directory with sets of features, in a scratch directory (the dependencies keep their default backend).
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
cp -a "$repo/Cargo.toml" "$repo/build.rs" "$repo/src" "$d/" || exit 2
for x in benches examples tests README.md; do if [ -e "$repo/$x" ]; then cp -a "$repo/$x" "$d/"; fi; done
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$d/Cargo.lock"; else cp "$here/lock.txt" "$d/Cargo.lock"; fi
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= TMPDIR="$d"
unset RUSTFLAGS
cd "$d" || exit 2
# every feature selects the backend that can be built here
sed -i 's|^\(rust-zlib\|zlib\|zlib-ng\) *=.*|\1 = ["flate2/rust_backend"]|' Cargo.toml
try() { cargo check --lib --offline -q --no-default-features --features "$1" > "$d/log" 2>&1; }
try rust-zlib || { cat "$d/log"; echo "the library does not build"; exit 3; }
. "$here/features.inc"
