#!/bin/bash
# Builds the symbolic executor.
set -euo pipefail
cd "$(dirname "$0")"
out=../build/engine
mkdir -p $out
FL="-std=c++17 -O2 -g0 -Wall -Wno-unused-parameter $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//') -fexceptions"
clang++-18 $FL -c expr.cc -o $out/expr.o &
p1=$!
clang++-18 $FL -c symex.cc -o $out/symex.o &
p2=$!
wait $p1
wait $p2
clang++-18 $out/expr.o $out/symex.o -o $out/symex -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
