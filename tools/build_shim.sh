#!/bin/bash
# Builds the file system simulator's preloaded shim and the gofmt stand-in.
set -eu
cd "$(dirname "$0")/../sim"
out=target/shim
mkdir -p $out/bin
if [ ! -e $out/shim.so ] || [ fssim/shim/shim.c -nt $out/shim.so ] || [ ../tools/build_shim.sh -nt $out/shim.so ]; then
  gcc -O1 -Wall -Wno-nonnull-compare -Wno-unused-parameter -fno-delete-null-pointer-checks -shared -fPIC -o $out/shim.so.new fssim/shim/shim.c -ldl
  mv $out/shim.so.new $out/shim.so
fi
if [ ! -e $out/bin/gofmt ] || [ fssim/shim/gofmt.c -nt $out/bin/gofmt ]; then
  gcc -O1 -Wall -o $out/bin/gofmt.new fssim/shim/gofmt.c
  mv $out/bin/gofmt.new $out/bin/gofmt
fi
