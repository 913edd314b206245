#!/usr/bin/env python3-vt
"""Decides one property by symbolic execution of /repo's code.

  check.py C01 [--tier quick|thorough] [--harness NAME] [--budget S] [-v]

exit 0: held on everything explored; exit 1: VIOLATION line(s), each replayed on
the plain code; exit 2: the check itself failed (nothing to believe).
"""
import argparse
import json
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(6000)

from symx import api, explore as ex, instr  # noqa: E402
from symx.util import load_harness  # noqa: E402

REPO = os.environ.get("SYMX_REPO", "/repo")
JOBS = int(os.environ.get("SYMX_JOBS", str(min(8, os.cpu_count() or 1))))
EVID = os.environ.get("SYMX_EVIDENCE", os.path.join(HERE, "evidence"))

STUBS = [
    "text of error/issue messages is formatted lazily and only when the code inspects it",
    "functools.lru_cache / cache of the code under test are modelled by an unbounded cache with symbolic keys",
    "C functions of the standard library: str methods, re matching, int()/float() of text, base64 have models "
    "(differentially tested in symx/selftest.py); any other C function called on a symbolic value gets every "
    "feasible concrete value (complete enumeration by the solver)",
    "characters range over ASCII plus 15 representatives of the other Unicode classes (symx/alphabet.py)",
    "floats are exact rationals with a bounded power-of-two denominator where symbolic",
]


def replay_batch(items, jobs):
    """runs items through replay.py --batch on plain code"""
    if not items:
        return []
    n = max(1, min(jobs, (len(items) + 19) // 20))
    chunks = [items[i::n] for i in range(n)]
    env = dict(os.environ, PYTHONHASHSEED="0")
    procs = []
    for ch in chunks:
        p = subprocess.Popen([sys.executable, os.path.join(HERE, "replay.py"), "--batch"], env=env,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        procs.append(p)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n) as tp:
        outs = list(tp.map(lambda pc: pc[0].communicate("".join(json.dumps(c) + "\n" for c in pc[1])),
                           zip(procs, chunks)))
    res = [None] * len(items)
    for k, (o, err) in enumerate(outs):
        lines = [json.loads(x) for x in o.splitlines()]
        if len(lines) != len(chunks[k]):
            raise RuntimeError("replay failed: " + err[-2000:])
        for i, l in enumerate(lines):
            res[k + i * n] = l
    return res


def obs_match(a, b):
    for x in (a, b):
        if isinstance(x, str) and ("<lazy>" in x or "<bytes>" in x):
            return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(obs_match(x, y) for x, y in zip(a, b))
    return a == b


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--harness")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--stop", type=int, default=3)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    total = args.budget or float(os.environ.get("SYMX_BUDGET", 0)) or (240.0 if tier == "quick" else 1500.0)

    instr.install({"src": REPO, "harness": HERE})
    instr.load_lib("urllib.parse", ["urlparse", "urlsplit"])
    try:
        hs = load_harness(args.prop)
    except Exception:  # noqa
        import traceback
        traceback.print_exc()
        print(f"{args.prop}: the harness can not be loaded over the current sources: no verdict")
        sys.exit(2)
    runs = []
    for h in hs.values():
        if args.harness and h.name != args.harness:
            continue
        for p in (h.quick if tier == "quick" else h.thorough):
            runs.append((h, p))
    known = {}
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf))["findings"]:
            if e["property"] == args.prop:
                known[e["id"]] = e

    violations, inconclusive, samples, details = [], [], [], []
    tot = {k: 0 for k in ("paths", "ok", "queries", "assertions", "unknown", "fast", "concretised", "validated",
                          "assumed_away")}
    solver_s = 0.0
    funcs = set()
    exhaustive = True
    vac = []
    known_hit = {}
    runs.sort(key=lambda r: r[0].budget or 1.0)        # the heaviest last: they get the time others left over
    weight = [h.budget or 1.0 for h, _ in runs]
    for k, (h, params) in enumerate(runs):
        left = total - (time.time() - t0)
        share = max(4.0, left * weight[k] / max(0.001, sum(weight[k:])))
        got = []

        def on_result(res):
            if res["outcome"] == "ok" and "inputs" in res:
                got.append(res)

        S = ex.explore(h.fn, params, share, jobs=JOBS, stop_on_viol=args.stop, on_result=on_result, seed=seed)
        # --- replay: symbolic violations, and the models of passing paths
        cap = 400 if tier == "quick" else 4000
        if len(got) > cap:
            step = len(got) / cap
            sel = [got[int(i * step)] for i in range(cap)]
        else:
            sel = got
        items = [{"property": args.prop, "harness": h.name, "params": params, "inputs": r["inputs"]}
                 for r in S["viols"] + sel if "inputs" in r]
        src = [r for r in S["viols"] + sel if "inputs" in r]
        rr = replay_batch(items, JOBS)
        nv = 0
        for it, r, c in zip(items, src, rr):
            bad = c["status"] in ("viol", "exc", "hang", "harness-error")
            if r["outcome"] == "ok":
                tot["validated"] += 1
                if bad:
                    violations.append((it, c, "concrete run of an explored path"))
                    nv += 1
                elif c["status"] != "ok":
                    inconclusive.append((it, c, r, "replay " + c["status"]))
                elif not obs_match(r.get("obs"), c["obs"]):
                    inconclusive.append((it, c, r, "observations differ"))
            elif bad:
                violations.append((it, c, r["detail"]))
                nv += 1
            else:
                inconclusive.append((it, c, r, "counterexample does not reproduce: " + r["detail"]))
            for kid in c.get("known", ()):
                known_hit.setdefault(kid, it)
        for o, lst in S["aborts"].items():
            if o != "abort:infeasible":
                exhaustive = False
        if not S["exhausted"]:
            exhaustive = False
        if S["unknown"]:
            exhaustive = False
        missing = [l for l in h.reach if l not in S["reach"]]
        if missing and not S["viols"] and not nv:
            # a label that no path can reach means the harness is vacuous; when time ran out, it says nothing
            vac.append((h.name, params, missing, S["exhausted"] or not S["ok"]))
        for q in ("paths", "ok", "queries", "assertions", "unknown", "fast", "concretised", "assumed_away"):
            tot[q] += S[q]
        solver_s += S["solver_s"]
        funcs |= {f for f in S["funcs"] if f.startswith("src")}
        d = {"harness": h.name, "params": params, "bounds": h.bounds, "paths": S["paths"], "completed": S["ok"],
             "queries": S["queries"], "assertions": S["assertions"], "solver_s": round(S["solver_s"], 2),
             "wall_s": round(S["wall_s"], 2), "exhausted": S["exhausted"], "unexplored_prefixes": S["left"],
             "aborted": {o: len(l) for o, l in S["aborts"].items()}, "max_depth": S["max_depth"],
             "reached": S["reach"]}
        details.append(d)
        if got:
            samples.append({"harness": h.name, "params": params, "inputs": got[len(got) // 2]["inputs"]})
        if args.v:
            print(f"  {h.name} {params}: paths={S['paths']} ok={S['ok']} viol={len(S['viols'])}/{nv} "
                  f"aborts={d['aborted']} q={S['queries']} solver={S['solver_s']:.1f}s wall={S['wall_s']:.1f}s "
                  f"exh={S['exhausted']} left={S['left']} reach={S['reach']}", flush=True)
            for o, l in S["aborts"].items():
                for x in l[:2]:
                    print("     ", o, x)

    # --- report
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    seen = set()
    out = []
    for it, c, why in violations:
        key = (it["harness"], c["detail"][:80])
        if key in seen:
            continue
        seen.add(key)
        p = os.path.join(rdir, f"{args.prop}-{len(out) + 1}.json")
        json.dump({**it, "detail": c["detail"], "why": why}, open(p, "w"), indent=1)
        out.append((p, it, c))
    for kid, it in sorted(known_hit.items()):
        e = known.get(kid)
        if e is None:
            print(f"internal: known finding {kid} is not listed")
            sys.exit(2)
        print(f"KNOWN-FINDING: property={args.prop} {kid}: {e['what']}")
    ev = {
        "property": args.prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of /repo's Python sources (re-instrumented on this run): "
                           "every path within the bounds is enumerated, each branch decided by z3, and each assertion "
                           "decided over all inputs of its path.",
            "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs),
            "bounds": [f"{d['harness']}: {d['bounds']} {d['params']}" for d in details],
            "paths": tot["paths"], "paths_completed": tot["ok"], "assertions_discharged": tot["assertions"],
            "solver_queries": tot["queries"], "finite_domain_decisions": tot["fast"],
            "solver_unknown": tot["unknown"], "solver_s": round(solver_s, 2),
            "path_models_replayed_on_plain_code": tot["validated"],
            "inconclusive_paths": len(inconclusive), "exhaustive": exhaustive and not inconclusive,
            "harnesses": details, "samples": samples[:12],
        },
        "assumptions": STUBS, "wall_s": round(time.time() - t0, 2), "violations": len(out),
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, args.prop + ".json"), "w"), indent=1)
    for it, c, r, why in inconclusive[:(60 if args.v else 8)]:
        print("INCONCLUSIVE:", it["harness"], it["params"], why, json.dumps(it["inputs"]), c["status"], c["detail"][:200])
        if args.v:
            print("   sym", json.dumps(r.get("obs"))[:600], r.get("frames"))
            print("   con", json.dumps(c.get("obs"))[:600], c.get("frames"))
    for p, it, c in out:
        print(f"  {it['harness']}: {c['detail'][:300]}  inputs={json.dumps(it['inputs'])[:400]}")
        for f in c.get("frames", [])[-3:]:
            print("     ", f)
        print(f"VIOLATION property={args.prop} replay={p}")
    print(f"{args.prop} {tier}: {'VIOLATED' if out else 'held'}; paths={tot['paths']} assertions={tot['assertions']} "
          f"queries={tot['queries']} solver={solver_s:.1f}s replayed={tot['validated']} "
          f"exhaustive={ev['coverage']['exhaustive']} wall={ev['wall_s']}s")
    if out:
        sys.exit(1)
    for v in vac:
        print("VACUOUS:" if v[3] else "NOT REACHED IN TIME:", v[:3])
    if any(v[3] for v in vac) or not tot["ok"]:
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
