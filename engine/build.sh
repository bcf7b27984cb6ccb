#!/bin/bash
# Builds the symbolic execution engine into $1 (default ../build)
set -e
cd "$(dirname "$0")"; OUT=${1:-../build}; mkdir -p "$OUT"
CXXF="$(llvm-config --cxxflags | sed 's/-fno-exceptions//;s/-std=[^ ]*//;s/-DNDEBUG//')"
g++ -O2 -c expr.cpp -o "$OUT/expr.o" &
g++ -std=c++17 -O2 $CXXF -fexceptions -c vfsym.cpp -o "$OUT/vfsym.o"
wait
g++ -o "$OUT/vfsym" "$OUT/vfsym.o" "$OUT/expr.o" $(llvm-config --ldflags --libs core irreader support bitreader) -lz3
