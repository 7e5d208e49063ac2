#!/bin/bash
# Builds a small program against the crate in the current directory and runs it, in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$here/pb.rs" "$d/src/pb.rs" || exit 2
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[dependencies]
osmpbf = { path = "$repo" }

[workspace]
EOF
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$d/Cargo.lock"; else cp "$here/lock.txt" "$d/Cargo.lock"; fi
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= TMPDIR="$d" DEMO_DIR="$d"
unset RUSTFLAGS
cd "$d" || exit 2
cargo build --offline -q || { echo "the demonstration does not build"; exit 3; }
timeout 120 "$d/target/debug/demo"
