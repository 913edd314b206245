#!/usr/bin/env python3-vt
"""Runs harnesses on concrete inputs against the plain, un-instrumented code of /repo.

  replay.py FILE            one replay file written by check.py; exit 1 if it violates
  replay.py --batch         JSON lines on stdin -> JSON lines on stdout (fork per item)
"""
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("SYMX_REPO", "/repo"))
sys.setrecursionlimit(3000)

from symx import api  # noqa: E402
from symx.util import load_harness  # noqa: E402


def run(item):
    h = load_harness(item["property"])[item["harness"]]
    sx = api.ConcSx(item["inputs"])
    out = {"status": "ok", "detail": ""}
    try:
        h.fn(sx, **item["params"])
    except api.ConcreteViolation as e:
        out = {"status": "viol", "detail": str(e)}
    except api.AssumeFailed:
        out = {"status": "assume", "detail": ""}
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1].filename if tb else ""
        own = os.path.abspath(last).startswith(HERE + os.sep)
        try:
            msg = str(e)
        except Exception:  # noqa
            msg = "?"
        out = {"status": "harness-error" if own else "exc",
               "detail": f"unexpected {type(e).__name__}: {msg[:300]}",
               "frames": [f"{os.path.relpath(f.filename, '/')}:{f.lineno}:{f.name}" for f in tb[-6:]]}
    try:
        out["obs"] = [[l, api.canon(v)] for l, v in sx.obs]
    except Exception as e:  # noqa
        out["obs"] = [["canon", type(e).__name__]]
    out["reach"] = sorted(sx.reached)
    out["known"] = sorted(sx.knowns)
    return out


def batch():
    stdin = sys.stdin
    for line in stdin:
        item = json.loads(line)
        load_harness(item["property"])
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                import signal
                signal.alarm(60)
                res = run(item)
            except BaseException as e:  # noqa
                res = {"status": "harness-error", "detail": repr(e), "obs": [], "reach": [], "known": []}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(res))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            data = json.dumps({"status": "hang", "detail": "no answer in 60 s", "obs": [], "reach": [], "known": []})
        sys.stdout.write(data + "\n")
        sys.stdout.flush()


def main():
    if sys.argv[1:] == ["--batch"]:
        return batch()
    item = json.load(open(sys.argv[1]))
    res = run(item)
    print(json.dumps({k: res[k] for k in ("status", "detail") if k in res}, ensure_ascii=True))
    for f in res.get("frames", []):
        print("   ", f)
    print("inputs:", json.dumps(item["inputs"], ensure_ascii=True))
    sys.exit(1 if res["status"] in ("viol", "exc", "hang") else 0)


if __name__ == "__main__":
    main()
