#!/bin/bash
# Checks, in a scratch directory, that the program demo.rs is rejected by the compiler and its twin twin.rs accepted.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[dependencies]
osmpbf = { path = "$repo" }

[workspace]
EOF
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$d/Cargo.lock"; else cp "$here/lock.txt" "$d/Cargo.lock"; fi
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= TMPDIR="$d"
unset RUSTFLAGS
cd "$d" || exit 2
cp "$here/twin.rs" "$d/src/main.rs"
cargo check --offline -q || { echo "the twin does not compile"; exit 3; }
cp "$here/demo.rs" "$d/src/main.rs"
touch "$d/src/main.rs"
if cargo check --offline -q 2> "$d/err"; then
    echo "the program is accepted"
    exit 1
fi
tail -n 20 "$d/err"
exit 0
