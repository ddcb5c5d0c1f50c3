#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every harness directory, from properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    d = os.path.join(V, "harness", i.lower())
    f = os.path.join(d, "check.json")
    if not os.path.exists(f):
        na.append({"property": i, "reason": "no check built yet"})
        continue
    meta = json.load(open(f))
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": "symbolic execution of the Go SSA of /repo with SMT (z3, cvc5 cross-check), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Holds for all values within: " + "; ".join(meta["bounds"]) + ". Outside: " + "; ".join(meta["outside"]) + ".",
    })
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": checks,
     "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
