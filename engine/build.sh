#!/bin/bash
# builds the engine into $1 (default /verif/build/engine)
set -e
D=$(cd "$(dirname "$0")" && pwd); B=${1:-$D/../build/engine}; mkdir -p "$B"
CX="g++ -O2 -std=c++20 -fno-rtti -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
pids=()
for f in expr solver prog exec; do
  if [ "$f" = solver ]; then X="g++ -O2 -std=c++20 -w"; else X="$CX"; fi
  ( $X -c "$D/$f.cpp" -o "$B/$f.o" ) & pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
g++ -o "$B/vfsym.tmp" "$B"/{expr,solver,prog,exec}.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$B/vfsym.tmp" "$B/vfsym"
