#!/bin/bash
# tools/build1.sh TU [src...]: compiles a harness with the sources to /tmp/vf/m_TU.bc (for experiments)
set -e
cd "$(dirname "$0")/.."
mkdir -p /tmp/vf
python3 - "$@" <<'P'
import sys, os
sys.path.insert(0,'.'); sys.dont_write_bytecode=True
import check, concurrent.futures as cf
tu=sys.argv[1]; srcs=sys.argv[2:]
def bc(src,out):
    if os.path.exists(out) and os.path.getmtime(out)>max(os.path.getmtime(src), max(os.path.getmtime(os.path.join(d,f)) for d in (check.REPO+'/libclingcon/clingcon', 'harness') for f in os.listdir(d))): return out
    check.run([check.CXX]+check.BCFLAGS+check.INC+[src,'-o',out]); return out
with cf.ThreadPoolExecutor(8) as ex:
    fs=[ex.submit(bc,f'harness/{tu}.cc',f'/tmp/vf/h_{tu}.bc')]+[ex.submit(bc,f'{check.REPO}/libclingcon/src/{s}.cc',f'/tmp/vf/{s}.bc') for s in srcs]
    r=[f.result() for f in fs]
check.run([check.LINK]+r+['build/rt.bc','-o',f'/tmp/vf/m_{tu}.bc'])
P
