#!/bin/bash
# Run in /repo after a build: exits 0 if the behaviour in demo.py holds, nonzero otherwise.
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cargo build --offline --locked -q -p mabo-lsp --target-dir "$t/target" || exit 1
XDG_CACHE_HOME="$t/cache" SERVER="$t/target/debug/mabo-lsp" SCRATCH="$t" PYTHONPATH="$here" PYTHONDONTWRITEBYTECODE=1 \
  timeout 60 python3 "$here/demo.py"
