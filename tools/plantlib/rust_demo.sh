#!/bin/bash
# Run in /repo after a build: exits 0 if the behaviour in demo.rs holds, nonzero otherwise.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[dependencies]
bytes = "1"
mabo = { path = "$repo/crates/mabo" }

[workspace]
EOF
cd "$t" && cargo run --offline -q --target-dir "$t/target"
