#!/bin/bash
# Builds every simulator, offline, from the committed files.
set -eu
cd "$(dirname "$0")/sim"
bash ../tools/build_shim.sh
CARGO_TARGET_DIR="$PWD/target" cargo build --offline --workspace
mkdir -p ../evidence ../replays
