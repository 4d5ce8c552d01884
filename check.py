#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decides one property of /repo by symbolic execution of its code.

Exit status: 0 the property holds on everything explored, 1 violated (VIOLATION line), 2 no verdict (error, time-out).
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import props  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
CLINGO_INC = "/opt/vp/pydeps/lib/python3.12/site-packages/clingo"
CXX = "clang++-18"
LINK = "/usr/lib/llvm-18/bin/llvm-link"
CORES = 8
INC = [f"-I{VERIF}/harness/shadow", f"-I{REPO}/libclingcon", f"-I{CLINGO_INC}", f"-I{REPO}/third_party/wide-integer", f"-I{VERIF}/harness"]
COMMON = ["-std=c++17", "-fno-access-control", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS"]
BCFLAGS = COMMON + ["-O2", "-DNDEBUG", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
                    "-fno-pic", "-emit-llvm", "-c", "-fsanitize=signed-integer-overflow,shift", "-fsanitize-trap=signed-integer-overflow,shift",
                    "-DVF_SYMBOLIC", "-w"]
SOURCES = ["constraints", "solver", "propagator", "parsing", "clingcon"]


class Error(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise Error("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def setup():
    stamp = os.path.join(VERIF, "build", "stamp")
    h = hashlib.sha256()
    for f in sorted(os.path.join(VERIF, "engine", x) for x in os.listdir(VERIF + "/engine") if x.endswith(".cc")) + \
            sorted(os.path.join(VERIF, "engine", x) for x in os.listdir(VERIF + "/engine") if x.endswith(".h")) + \
            [VERIF + "/harness/runtime.cc", VERIF + "/harness/runtime_c.c"]:
        h.update(open(f, "rb").read())
    try:
        if open(stamp).read().split()[0] == h.hexdigest() and os.path.exists(VERIF + "/build/engine/symex"):
            return
    except OSError:
        pass
    run(["bash", VERIF + "/setup.sh"])


class Job:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.cfg = props.PROPS[prop]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.dir = os.path.join(VERIF, "build", "run", prop + "." + tier)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.pool = ThreadPoolExecutor(CORES)
        self.native_lock = threading.Lock()
        self.native = {}
        self.known = load_known(prop)
        self.stop = threading.Event()
        self.running = {}

    # ---------------------------------------------------------------- building
    def bitcode(self, src, name, extra=()):
        out = os.path.join(self.dir, name + ".bc")
        run([CXX] + BCFLAGS + list(extra) + INC + [src, "-o", out])
        return out

    def compile_all(self):
        tus = sorted({u["tu"] for u in self.units})
        srcs = self.cfg.get("sources", SOURCES)
        self.tus, self.srcs = tus, srcs
        fs = {s: self.pool.submit(self.bitcode, f"{REPO}/libclingcon/src/{s}.cc", s) for s in srcs}
        ft = {t: self.pool.submit(self.bitcode, f"{VERIF}/harness/{t}.cc", "h_" + t) for t in tus}
        src_bc = [fs[s].result() for s in srcs]
        self.mod = {}
        for t in tus:
            out = os.path.join(self.dir, "m_" + t + ".bc")
            run([LINK, ft[t].result()] + src_bc + [VERIF + "/build/rt.bc", "-o", out])
            self.mod[t] = out

    def native_build(self, mode):
        """mode: 'plain' (gcc -O1) or 'san' (clang -O1 with address and undefined-behaviour checks)"""
        d = os.path.join(self.dir, "native_" + mode)
        os.makedirs(d, exist_ok=True)
        if mode == "plain":
            base = ["g++"] + COMMON + ["-O1", "-w", "-DNDEBUG"]
        else:
            base = ["g++"] + COMMON + ["-O1", "-g1", "-w", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize=vptr,null,alignment", "-fno-sanitize-recover=all"]
        # the library sources are compiled with the real string streams; the shadow headers are for the encoding only
        inc = [i for i in INC if not i.endswith("/shadow")]
        fs = []
        for s in self.srcs:
            fs.append(self.pool.submit(run, base + inc + ["-c", f"{REPO}/libclingcon/src/{s}.cc", "-o", f"{d}/{s}.o"]))
        for t in self.tus:
            fs.append(self.pool.submit(run, base + inc + ["-c", f"{VERIF}/harness/{t}.cc", "-o", f"{d}/h_{t}.o"]))
        fs.append(self.pool.submit(run, base + inc + ["-c", f"{VERIF}/harness/vf_native.cc", "-o", f"{d}/vf_native.o"]))
        for f in fs:
            f.result()
        exe = {}
        for t in self.tus:
            exe[t] = f"{d}/replay_{t}"
            run(base + ["-rdynamic", "-no-pie", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy", f"{d}/h_{t}.o", f"{d}/vf_native.o"] + [f"{d}/{s}.o" for s in self.srcs] + ["-ldl", "-o", exe[t]])
        return exe

    def get_native(self, mode):
        with self.native_lock:
            if mode not in self.native:
                self.native[mode] = self.native_build(mode)
            return self.native[mode]

    def replay(self, mode, u, inputs):
        exe = self.get_native(mode)[u["tu"]]
        cmd = [exe, u["entry"], inputs] + ["%s=%d" % kv for kv in sorted(u["params"].items())]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60,
                               env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return -999, "TIMEOUT", ""

    # ---------------------------------------------------------------- running
    def run_unit(self, u):
        d = os.path.join(self.dir, "u_" + u["name"])
        u["dir"] = d
        os.makedirs(d)
        cmd = [VERIF + "/build/engine/symex", self.mod[u["tu"]], "--entry", "harness_" + u["entry"], "--out", d, "--jobs", str(u["jobs"]),
               "--timeout", str(u["timeout"]), "--seed", str(self.seed), "--samples", str(u["samples"])]
        for k, v in sorted(u["params"].items()):
            cmd += ["--param", "%s=%d" % (k, v)]
        for k in sorted(self.known):
            cmd += ["--known", k]
        p = subprocess.Popen(cmd, stdout=open(d + "/out", "w"), stderr=subprocess.STDOUT)
        self.running[id(p)] = p
        if self.stop.is_set():
            p.terminate()
        p.wait()
        self.running.pop(id(p), None)
        if self.stop.is_set() and p.returncode < 0:
            return None  # a violation was found elsewhere
        try:
            r = json.load(open(d + "/result.json"))
        except (OSError, ValueError):
            raise Error("engine failed on %s (status %d): %s" % (u["name"], p.returncode, open(d + "/out", errors="replace").read()[-2000:]))
        r["functions"] = sorted(set(r["functions"]))
        u["result"] = r
        return u

    def samples(self, u):
        """Replays sampled completed paths on the natively compiled code and compares what both executions observed."""
        ok, texts = 0, []
        for i in range(u["result"]["samples"]):
            f = os.path.join(u["dir"], "sample.%d" % i)
            if not os.path.exists(f):
                continue
            txt = open(f).read()
            want = [l for l in txt.split("=== observe\n", 1)[1].splitlines() if l] if "=== observe\n" in txt else []
            rc, out, err = self.replay("plain", u, f)
            got = [l[4:] for l in out.splitlines() if l.startswith("OBS ")]
            if rc == 0 and got == want:
                ok += 1
            else:
                raise Error("encoding and native execution disagree on %s sample %d (exit %d)\nwant %s\ngot %s\n%s" % (u["name"], i, rc, want[:20], got[:20], (out + err)[-1500:]))
            if len(texts) < 2:
                texts.append({"unit": u["name"], "inputs": compact(txt.split("===")[0]), "observed": want[:12]})
        return ok, texts

    def main(self):
        t0 = time.time()
        self.units = expand(self.cfg, self.tier)
        only = os.environ.get("VERIF_UNIT")
        if only:
            self.units = [u for u in self.units if re.search(only, u["name"])]
        self.compile_all()
        t_compile = time.time() - t0
        nat = threading.Thread(target=lambda: self.try_native())
        nat.start()
        slots = threading.Semaphore(CORES)
        results, errors = [], []
        order = threading.Lock()

        def one(u):
            n = u["jobs"]
            with order:  # take all slots of a unit at once
                for _ in range(n):
                    slots.acquire()
            try:
                if self.stop.is_set():
                    return
                if self.run_unit(u) is None:
                    return
                results.append(u)
                if u["result"]["result"] == "violation":
                    self.stop.set()
                    for p in list(self.running.values()):
                        p.terminate()
                if os.environ.get("VERIF_VERBOSE"):
                    r = u["result"]
                    print("%-40s %-9s %7.1fs paths %7d pruned %6d forks %7d queries %7d solver %7.1fs instr %10d %s %s" % (
                        u["name"], r["result"], r["wall_s"], r["paths"], r["pruned"], r["forks"], r["queries"], r["solver_s"], r["instructions"], r["message"], r["missing"]), flush=True)
            except Error as e:
                errors.append(str(e))
            finally:
                for _ in range(n):
                    slots.release()

        with ThreadPoolExecutor(len(self.units) or 1) as ex:
            list(ex.map(one, self.units))
        nat.join()
        violations = [u for u in results if u["result"]["result"] == "violation"]
        for u in violations:
            rep = self.confirm(u)
            if rep:
                self.evidence(results, t0, t_compile, 1, 0, [])
                r = u["result"]
                print("property %s: unit %s: %s: %s" % (self.prop, u["name"], r["violation_id"], r["message"]))
                print("\n".join("  " + l for l in open(rep).read().splitlines()[:60]))
                print("VIOLATION property=%s replay=%s" % (self.prop, rep))
                return 1
            errors.append("counterexample of %s (%s: %s) does not reproduce natively" % (u["name"], u["result"]["violation_id"], u["result"]["message"]))
        for u in results:
            r = u["result"]["result"]
            if r not in ("complete", "violation"):
                errors.append("%s: %s %s %s" % (u["name"], r, u["result"]["message"], u["result"]["missing"]))
        validated, texts = 0, []
        if not errors:
            try:
                with ThreadPoolExecutor(CORES) as ex:
                    for n, t in ex.map(self.samples, results):
                        validated += n
                        texts += t
            except Error as e:
                errors.append(str(e))
        if errors:
            for e in errors:
                print("ERROR property=%s %s" % (self.prop, e))
            return 2
        self.evidence(results, t0, t_compile, 0, validated, texts)
        hit = set()
        for u in results:
            hit |= {f[6:] for f in os.listdir(u["dir"]) if f.startswith("known.")}
        for k in sorted(self.known):
            print("KNOWN-FINDING: property=%s %s: %s%s" % (self.prop, k, self.known[k], "" if k in hit else " (not reached in this tier)"))
        n = sum(u["result"]["paths"] for u in results)
        q = sum(u["result"]["queries"] for u in results)
        print("property %s holds within the stated bounds: %d units, %d paths, %d solver queries, %d native replays agree, %.1fs" % (self.prop, len(results), n, q, validated, time.time() - t0))
        return 0

    def try_native(self):
        try:
            self.get_native("plain")
        except Error as e:
            print("native build failed: %s" % e)

    def confirm(self, u):
        """Replays a counterexample on the natively compiled code; only a reproduced one is reported."""
        inp = os.path.join(u["dir"], "violation.inputs")
        if not os.path.exists(inp):
            return None
        rdir = os.path.join(VERIF, "build", "replay")
        os.makedirs(rdir, exist_ok=True)
        for mode in ("plain", "san"):
            rc, out, err = self.replay(mode, u, inp)
            if rc in (0, 11, 12, 2):
                continue
            path = os.path.join(rdir, "%s.%s.txt" % (self.prop, u["name"]))
            shutil.copy(inp, path + ".inputs")
            with open(path, "w") as f:
                r = u["result"]
                f.write("property %s\nunit %s entry %s params %s\nviolated: %s: %s\n" % (self.prop, u["name"], u["entry"], u["params"], r["violation_id"], r["message"]))
                f.write("inputs (replayed on the natively compiled code, %s build, exit status %d):\n" % (mode, rc))
                f.write(open(inp).read())
                f.write("native output:\n" + out[-3000:] + "\n" + err[-3000:] + "\n")
                vt = os.path.join(u["dir"], "violation.txt")
                if os.path.exists(vt):
                    f.write("engine report:\n" + open(vt).read()[-4000:])
            return path
        return None

    def evidence(self, results, t0, t_compile, violations, validated, texts):
        R = [u["result"] for u in results]
        s = lambda k: sum(r[k] for r in R)
        checks = {}
        for r in R:
            for k, v in r["checks"].items():
                c = checks.setdefault(k, {"evaluated": 0, "decided_by_solver": 0})
                c["evaluated"] += v["evaluated"]
                c["decided_by_solver"] += v["decided_by_solver"]
        funcs = demangle(sorted({f for r in R for f in r["functions"]}))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": s("paths"), "transitions": s("forks"), "traces_validated_against_impl": validated, "samples": texts[:8],
                "pruned_infeasible_paths": s("pruned"), "instructions_executed": s("instructions"),
                "solver_queries": s("queries"), "queries_sat": s("sat"), "queries_unsat": s("unsat"), "assertion_queries": s("check_queries"), "queries_decided_in_linear_integer_arithmetic": s("int_queries"),
                "solver_s": round(s("solver_s"), 3), "max_query_s": max([r["max_query_s"] for r in R] or [0]), "concretizations": s("concretizations"),
                "assertions": checks,
                "witnesses_reached": {k: sum(r["reached"].get(k, 0) for r in R) for k in sorted({k for r in R for k in r["reached"]})},
                "functions_encoded": funcs, "functions_encoded_count": len(funcs),
                "bounds": self.cfg.get("bounds", ""),
                "units": [{"unit": u["name"], "entry": u["entry"], "params": u["params"], "result": u["result"]["result"], "paths": u["result"]["paths"],
                           "queries": u["result"]["queries"], "wall_s": round(u["result"]["wall_s"], 2)} for u in results],
                "known_finding_paths": s("known_hits"),
                "compile_s": round(t_compile, 2),
            },
            "assumptions": self.cfg.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 2), "violations": violations,
        }
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)


def compact(txt):
    return " ".join("%s=%s" % tuple(l.rsplit(" ", 1)) for l in txt.splitlines() if l and not l.startswith("#"))[:600]


def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return sorted({re.sub(r"\s+", " ", x)[:160] for x in p.stdout.splitlines() if x})


def expand(cfg, tier):
    units = []
    for u in cfg["units"]:
        if tier == "quick" and u.get("tier") == "thorough":
            continue
        sets = u.get(tier, u.get("quick", [{}]))
        for i, ps in enumerate(sets):
            ps = dict(ps)
            name = u["entry"] + ("" if not ps else "_" + "_".join("%s%d" % (k, v) for k, v in sorted(ps.items())))
            units.append({"name": name.replace("-", "m"), "tu": u["tu"], "entry": u["entry"], "params": ps, "jobs": u.get("jobs", 2),
                          "timeout": u.get("timeout", 600 if tier == "quick" else 3600), "samples": u.get("samples", 12)})
    return units


def load_known(prop):
    known = {}
    try:
        for l in open(VERIF + "/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    except OSError:
        pass
    return known


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    job = None
    try:
        setup()
        job = Job(prop, tier)
        return job.main()
    except Error as e:
        print("ERROR property=%s %s" % (prop, e))
        return 2
    finally:
        if job and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(job.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
