#!/bin/bash
# catch.sh NAME...: apply each planted change to /repo, run its property's check, undo
for n in "$@"; do
  d=/verif/seeded/$n
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)
  git -C /repo apply $d/patch.diff || { echo "$n: does not apply"; continue; }
  ( cd /verif && ./run.sh $p ) > /tmp/catch.$n.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$n ($p): rc=$rc $(grep -m1 '^violation' /tmp/catch.$n.log | cut -c1-200) $(grep -c '^VIOLATION' /tmp/catch.$n.log)"
done
