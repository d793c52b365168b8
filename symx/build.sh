#!/bin/bash
# builds the symbolic executor into /verif/build/symx
set -e
cd "$(dirname "$0")"
OUT=${1:-../build}
mkdir -p "$OUT"
FL="-std=c++17 -O2 -g1 -fno-rtti -fexceptions $(llvm-config-18 --cppflags)"
g++ $FL -c expr.cpp -o "$OUT/expr.o" &
g++ $FL -c symx.cpp -o "$OUT/symx.o" &
g++ $FL -c lia.cpp -o "$OUT/lia.o" &
wait %1; wait %2; wait %3
g++ "$OUT/expr.o" "$OUT/symx.o" "$OUT/lia.o" -o "$OUT/symx.new" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3 -lpthread
mv "$OUT/symx.new" "$OUT/symx"
