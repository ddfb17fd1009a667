#!/bin/bash
# Run in /repo after a build: exits 0 if the behaviour in demo.rs holds for the code that is
# generated from demo.mabo, nonzero otherwise.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/demo.mabo" "$t/"
cp "$repo/Cargo.lock" "$t/"
printf '[package]\nname = "p"\nfiles = ["*.mabo"]\n' > "$t/Mabo.toml"
printf 'fn main() {\n    mabo_build::Compiler::default().compile(".").unwrap();\n}\n' > "$t/build.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo-gen"
version = "0.0.0"
edition = "2024"

[dependencies]
bytes = "1"
mabo = { path = "$repo/crates/mabo" }

[build-dependencies]
mabo-build = { path = "$repo/crates/mabo-build" }

[workspace]
EOF
cd "$t" && cargo run --offline -q --target-dir "$t/target"
