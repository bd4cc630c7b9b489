#!/bin/bash
# Builds demo.c with the library's sources and runs it: 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
flags=$(grep -o -m1 -w -e avx512f /proc/cpuinfo | sed 's/^/-m/')
[ -z "$flags" ] && flags=$(grep -o -m1 -w -e avx2 /proc/cpuinfo | sed 's/^/-m/')
[ -z "$flags" ] && flags=$(grep -o -m1 -w -e avx /proc/cpuinfo | sed 's/^/-m/')
fma=$(grep -o -m1 -w -e fma /proc/cpuinfo | sed 's/^/-m/')
gcc -std=gnu99 -w -g -O2 -fopenmp $flags $fma $DEMO_FLAGS -I/repo/src -I/repo/npy_array "$here/demo.c" /repo/src/*.c /repo/npy_array/*.c -o "$t/demo" -lzip -lm -ldl -rdynamic || exit 3
cd "$t" && timeout 250 ./demo
