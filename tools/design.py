#!/usr/bin/env python3
"""rewrites the generated section of DESIGN.md (between the markers): property, harnesses, bounds, oracle"""
import ast
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from oracles import ORACLE
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def text(node, src):
    if isinstance(node, ast.Constant):
        return str(node.value)
    return re.sub(r"\{[^}]*\}", "all", ast.get_source_segment(src, node).replace('f"', '').replace('"', ''))


out = []
for k, p in P.items():
    src = open(os.path.join(V, "harness", k.lower() + ".py")).read()
    out.append(f"### {k} {p['title']}\n\nOracle: {ORACLE[k]}")
    for f in ast.parse(src).body:
        if not isinstance(f, ast.FunctionDef):
            continue
        for d in f.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness":
                kw = {x.arg: x.value for x in d.keywords}
                b = text(kw["bounds"], src) if "bounds" in kw else ""
                q = "; ".join(f"{t} {ast.unparse(kw[t])}" for t in ("quick", "thorough") if t in kw)
                out.append(f"* `{f.name}`: {' '.join(b.split())}" + (f" ({q})" if q else ""))
    out.append("")
D = os.path.join(V, "DESIGN.md")
s = open(D).read()
A, B = "<!-- generated: properties -->", "<!-- end generated -->"
if A not in s:
    s += f"\n## The properties, one by one\n\n{A}\n{B}\n"
s = s[:s.index(A) + len(A)] + "\n" + "\n".join(out) + s[s.index(B):]
open(D, "w").write(s)
