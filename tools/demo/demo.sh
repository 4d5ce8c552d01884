#!/bin/bash
# Solves the programs in case*.lp (options in the first line, expected output in case*.out) with the library built in /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
SP=/opt/vp/pydeps/lib/python3.12/site-packages/clingo
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O0 -I/repo/libclingcon -I$SP -I/repo/third_party/wide-integer "$here/run.cc" -o "$tmp/run" /repo/_build/lib/libclingcon_t.a -Wl,--no-as-needed,$SP/_clingo.cpython-312-x86_64-linux-gnu.so,-lpython3.12,-rpath,$SP || exit 2
rc=0
for lp in "$here"/case*.lp; do
    opts=$(head -1 "$lp" | sed 's/^%//')
    timeout 60 "$tmp/run" $opts < "$lp" > "$tmp/out" 2>&1 || echo "status $?" >> "$tmp/out"
    if ! diff "${lp%.lp}.out" "$tmp/out"; then echo "$(basename "$lp"): unexpected answers"; rc=1; fi
done
exit $rc
