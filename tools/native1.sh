#!/bin/bash
# tools/native1.sh TU: native debug build of a harness at /tmp/vf/n_TU (asserts on)
set -e
cd /verif
B=/opt/vp/pydeps/lib/python3.12/site-packages/clingo
F="-std=c++17 -fno-access-control -D_GLIBCXX_ASSERTIONS -O0 -g -w -I/repo/libclingcon -I$B -I/repo/third_party/wide-integer -Iharness"
mkdir -p /tmp/vf/nat
for s in constraints solver propagator parsing clingcon; do
  if [ ! -f /tmp/vf/nat/$s.o ] || [ -n "$(find /repo/libclingcon -newer /tmp/vf/nat/$s.o -name '*.[ch]*')" ]; then g++ $F -c /repo/libclingcon/src/$s.cc -o /tmp/vf/nat/$s.o & fi
done
g++ $F -c harness/$1.cc -o /tmp/vf/nat/h_$1.o &
g++ $F -c harness/vf_native.cc -o /tmp/vf/nat/vf_native.o &
wait
g++ -rdynamic -no-pie -Wl,--unresolved-symbols=ignore-all -Wl,-z,lazy /tmp/vf/nat/h_$1.o /tmp/vf/nat/vf_native.o /tmp/vf/nat/{constraints,solver,propagator,parsing,clingcon}.o -ldl -o /tmp/vf/n_$1
