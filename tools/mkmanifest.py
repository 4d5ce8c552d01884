#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": p.get("technique", "symbolic execution of the compiled code's LLVM IR, every branch and assertion decided by an SMT solver (Z3)"),
            "level": "model_checking",
            "level_note": "Bounded: " + p["bounds"] + ". Trusted: clang 18 -O2 code generation, the symbolic executor (cross-checked by native replay of sampled paths), Z3, the harness oracle and stubs"
                          + ("; " + "; ".join(p["assumptions"]) if p.get("assumptions") else "") + "."})
na = [{"property": i, "reason": props.NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in props.PROPS]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed: the checks compile /repo's sources unmodified (see DESIGN.md). Checks exit 2 when they reach no verdict."},
          open(V + "/MANIFEST.json", "w"), indent=1)
