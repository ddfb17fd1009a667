#!/bin/bash
# run.sh PROPERTY [--replay FILE | further simulator arguments]
# Rebuilds the simulator of PROPERTY against /repo's working tree and runs it.
set -u
cd "$(dirname "$0")" || exit 2
id="$1"; shift
case "$id" in
  W*) pkg=wiresim ;;
  L*) pkg=lspsim ;;
  F*) pkg=fssim ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
tier="${VERIF_TIER:-quick}"
for a in "$@"; do [ "$a" = thorough ] && tier=thorough; done
build() {
  local more=""
  if [ "$pkg" = fssim ]; then
    more="-p fstools"
    bash tools/build_shim.sh >build.log 2>&1 || { tail -40 build.log >&2; return 1; }
  fi
  ( cd sim && CARGO_TARGET_DIR="$PWD/target" cargo build --offline -q -p "$pkg" $more 2>../build.log ) && return 0
  echo "build of $pkg failed:" >&2; tail -40 build.log >&2; return 1
}
start() {
  if [ "$pkg" != lspsim ]; then exec "sim/target/debug/$pkg" "$id" "$@"; fi
  # the executable is the language server itself; the simulator's arguments travel in the environment
  export XDG_CACHE_HOME="$PWD/sim/target/lspcache" SIM_PROJECTS="$PWD/sim/target/lspprojects" HOME="${HOME:-/root}"
  python3 tools/lspfiles.py "$XDG_CACHE_HOME" "$SIM_PROJECTS" || exit 2
  export RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0 # symbolising every reported error would take most of the time
  SIM_ARGS="$id"
  for a in "$@"; do SIM_ARGS="$SIM_ARGS"$'\n'"$a"; done
  export SIM_ARGS
  exec "sim/target/debug/$pkg" --stdio
}
if [ "${1:-}" = --replay ]; then
  WIRE_SCHEMA_SEED=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get("schema_seed","1"))' "$2") || exit 2
  export WIRE_SCHEMA_SEED
  build || exit 2
  start "$@"
fi
if [ "$pkg" = wiresim ] && [ "$tier" = thorough ]; then
  # the same exploration over several schema sets, one after another
  rm -f evidence/"$id".part.*.json
  for s in 1 2 3 4 5 6; do
    export WIRE_SCHEMA_SEED=$s
    build || exit 2
    "sim/target/debug/$pkg" "$id" --tier thorough "$@"
    rc=$?
    [ $rc -eq 0 ] || exit $rc
    cp evidence/"$id".json evidence/"$id".part.$s.json
  done
  python3 tools/merge_evidence.py evidence/"$id".json evidence/"$id".part.*.json
  rm -f evidence/"$id".part.*.json
  unset WIRE_SCHEMA_SEED
  exit 0
fi
build || exit 2
start "$@"
