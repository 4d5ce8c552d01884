#!/bin/bash
# Builds the framework: the symbolic executor and the runtime library bitcode.
set -euo pipefail
cd "$(dirname "$0")"
mkdir -p build
exec 9> build/.lock
flock 9
bash engine/build.sh
RT="-O2 -DNDEBUG -gline-tables-only -fno-builtin -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -emit-llvm -c"
clang++-18 -std=c++17 $RT -D_GLIBCXX_EXTERN_TEMPLATE=0 -Iharness harness/runtime.cc -o build/runtime.bc
clang-18 $RT harness/runtime_c.c -o build/runtime_c.bc
/usr/lib/llvm-18/bin/llvm-link build/runtime.bc build/runtime_c.bc -o build/rt.bc
cat engine/*.cc engine/*.h harness/runtime.cc harness/runtime_c.c | sha256sum > build/stamp
