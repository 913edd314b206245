#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P.values():
        f.write(json.dumps(p) + "\n")
checks = []
for k in P:
    assert os.path.exists(os.path.join(V, "harness", k.lower() + ".py")), k
    checks.append({
        "property": k, "quick_cmd": f"python3-vt check.py {k} --tier quick",
        "thorough_cmd": f"python3-vt check.py {k} --tier thorough",
        "technique": "bounded symbolic execution of the real Python code, decided by z3",
        "level": "other",
        "level_note": "Every path of the instrumented sources within the bounds stated in the evidence is explored; z3 decides "
                      "each branch and each assertion over all inputs of the path; counterexamples are replayed on the plain "
                      "code. Trusts z3, the instrumentation and the models of C library functions (cross-checked by replaying "
                      "path models on the plain code); outside the bounds nothing is claimed.",
        "evidence_file": f"evidence/{k}.json"})
m = {"version": 1, "setup_cmd": "python3-vt check.py S00 --tier quick --budget 30", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the sources are instrumented in memory when they are imported by a check. S00 is a self-test of the "
              "symbolic engine against concrete Python."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
