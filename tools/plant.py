#!/usr/bin/env python3
"""Plants the bugs described in a spec file (python: BUGS = [dict(id, prop, file, old, new, cases=[(opts, program)], needs, breaks[, demo])]).
For each: demo passes on the clean tree, patch builds, stable tests pass, demo fails, and what the check says."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
spec = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
stable = json.load(open('/opt/vp/BASELINE.json'))
stable = set(stable.get('stable') or stable.get('passed') or stable.get('tests') or [])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def tests():
    r = sh('bash /opt/vp/test.sh /tmp/plant_t.json')
    t = json.load(open('/tmp/plant_t.json'))
    return [x for x in stable if x not in set(t['passed'])], r
assert sh('git -C /repo status --porcelain -uno').stdout.strip() == ''
b = sh('bash /opt/vp/build.sh'); assert b.returncode == 0, b.stdout + b.stderr
for bug in spec['BUGS']:
    if only and bug['id'] not in only: continue
    d = f"{V}/seeded/{bug['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in ('run.cc', 'demo.sh'): shutil.copy(f'{V}/tools/demo/{f}', d)
    os.chmod(f'{d}/demo.sh', 0o755)
    if 'demo' in bug:
        for n, t in bug['demo'].items(): open(f'{d}/{n}', 'w').write(t)
    for i, (o, p) in enumerate(bug.get('cases', [])):
        open(f'{d}/case{i}.lp', 'w').write(f'%{o}\n{p}\n'); open(f'{d}/case{i}.out', 'w').write('')
    if bug.get('cases'):
        SP = '/opt/vp/pydeps/lib/python3.12/site-packages/clingo'
        if not os.path.exists('/tmp/plant_run_built'):
            r = sh(f'g++ -std=c++17 -O0 -I/repo/libclingcon -I{SP} -I/repo/third_party/wide-integer {V}/tools/demo/run.cc -o /tmp/plant_run /repo/_build/lib/libclingcon_t.a -Wl,--no-as-needed,{SP}/_clingo.cpython-312-x86_64-linux-gnu.so,-lpython3.12,-rpath,{SP}'); assert r.returncode == 0, r.stderr
            open('/tmp/plant_run_built', 'w')
        for i, (o, p) in enumerate(bug['cases']):
            r = sh(f'/tmp/plant_run {o} < {d}/case{i}.lp'); open(f'{d}/case{i}.out', 'w').write(r.stdout)
            print(bug['id'], 'clean:', r.stdout.replace('\n', ' | ')[-150:], flush=True)
    json.dump(dict(property=bug['prop'], needs=bug['needs'], what_it_breaks=bug['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
    edits = bug['edits'] if 'edits' in bug else [(bug['file'], bug['old'], bug['new'])]
    ok = True
    try:
        for f, o, n in edits:
            path = f'{R}/{f}'; s = open(path).read()
            if s.count(o) != 1: print(bug['id'], f'PATTERN occurs {s.count(o)} times in {f}'); ok = False; break
            open(path, 'w').write(s.replace(o, n))
        if not ok: continue
        open(f'{d}/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        bad, r = tests()
        if bad: print(bug['id'], 'TESTS FAIL', bad[:3], r.stderr[-500:] if len(bad) > 30 else ''); continue
        r = sh(f'cd {R} && bash {d}/demo.sh')
        demo = r.returncode
        c = sh(f"cd {V} && timeout 900 python3 check.py {bug['prop']} quick")
        line = [x for x in c.stdout.splitlines() if 'VIOLATION' in x or 'holds' in x or 'rror' in x]
        print(f"{bug['id']}: demo={demo} check={c.returncode} {line[:1]} {'' if c.returncode in (0,1) else c.stdout[-400:]+c.stderr[-400:]}", flush=True)
        if demo == 0: print('   DEMO DOES NOT FAIL')
    finally:
        sh('git -C /repo checkout -- .')
sh('bash /opt/vp/build.sh')
for bug in spec['BUGS']:
    if only and bug['id'] not in only: continue
    d = f"{V}/seeded/{bug['id']}"
    r = sh(f'cd {R} && bash {d}/demo.sh')
    if r.returncode: print(bug['id'], 'DEMO FAILS ON CLEAN TREE', r.stdout[-300:], r.stderr[-300:])
