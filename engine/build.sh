#!/bin/bash
# Builds the symbolic executor into $1 (default: ./build next to this script).
set -e
D=$(cd "$(dirname "$0")" && pwd)
O=${1:-$D/build}
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
mkdir -p "$O"
pids=()
for f in expr solver exec models main; do
    clang++-18 -std=c++20 -O2 -g0 -fno-rtti -DNDEBUG -c "$D/$f.cpp" -o "$O/$f.o" -I/usr/lib/llvm-18/include -I$Z/include &
    pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
clang++-18 -o "$O/vx.tmp" "$O"/{expr,solver,exec,models,main}.o -L/usr/lib/llvm-18/lib -lLLVM -L$Z/lib -lz3 -Wl,-rpath,$Z/lib
mv "$O/vx.tmp" "$O/vx"
