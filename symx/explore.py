"""Path exploration: every path of a harness runs in its own forked process."""
import gc
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

import z3

from . import api, core, rt
from .containers import SxDict
from .core import Ctx, EngineAbort, PropertyViolation, Proxy, SymBool, SymInt, SymReal
from .models import SymBytes
from .strings import ExprChar, LazyStr, SymChar, SymStr


def model_eval(m):
    def ch(it):
        if type(it) is int:
            return it
        if type(it) is SymChar and it.map is not None:
            c = m.eval(it.var.z, model_completion=True).as_long()
            return it.map.table[c]
        return m.eval(it.z(), model_completion=True).as_long()

    def ev(v):
        t = type(v)
        if t is SymStr:
            return True, "".join(chr(ch(i)) for i in v.items)
        if t is SymBool:
            return True, z3.is_true(m.eval(v.z(), model_completion=True))
        if t is SymInt or t is SymReal:
            x = core.num_value(m.eval(v.e, model_completion=True))
            return True, (float(x) if t is SymReal else x)
        if t is rt.SymEnum:
            return True, v.members[m.eval(v.e, model_completion=True).as_long()]
        if t is LazyStr:
            return True, "<lazy>"
        if t is SymBytes:
            return True, "<bytes>"
        return False, v

    return ev


def frames(tb):
    out = []
    for f in traceback.extract_tb(tb):
        if "/symx/" in f.filename:
            continue
        out.append(f"{os.path.basename(f.filename)}:{f.name}")
    return out[-6:]


def run_path(fn, params, prefix, limits):
    c = Ctx(prefix, limits)
    core.set_ctx(c)
    rt.FUNCS.clear()
    sx = api.SymSx(c)
    t0 = time.perf_counter()
    out = {"outcome": "ok", "detail": ""}
    model = None
    try:
        fn(sx, **params)
    except PropertyViolation as e:
        out["outcome"], out["detail"] = "viol", e.detail
        model = e.model
    except EngineAbort as e:
        out["outcome"], out["detail"] = "abort:" + e.kind, e.detail
    except RecursionError as e:
        out["outcome"], out["detail"] = "exc", "RecursionError"
    except Exception as e:  # noqa: an exception escaping the harness
        try:
            msg = str(e)
        except BaseException:
            msg = "?"
        out["outcome"] = "exc"
        out["detail"] = f"{type(e).__name__}: {msg[:200]}"
        out["frames"] = frames(e.__traceback__)
    try:
        if out["outcome"] not in ("abort:infeasible", "abort:assume", "abort:harness"):
            if model is None:
                model = None
                r, model = c.check()
                if r == z3.unsat:
                    out["outcome"] = "abort:infeasible"
                elif model is None:
                    out["outcome"] = "abort:unknown"
        if model is not None:
            out["inputs"] = {n: ev(model) for n, ev in c.input_names.items()}
            e = model_eval(model)
            out["obs"] = [[l, api.canon(v, e)] for l, v in c.obs]
    except EngineAbort as e:
        out["outcome"] = "abort:" + e.kind
    out["alts"] = c.alts
    out["depth"] = len(c.trail)
    out["reach"] = sorted(c.reach)
    out["funcs"] = sorted(rt.FUNCS)
    out["stats"] = (c.queries, c.solver_s, c.unknown, c.fast, c.concretised, c.assertions)
    out["secs"] = time.perf_counter() - t0
    return out


def _child(w, fn, params, prefix, limits, tmo, batch):
    # A child runs one path, then up to batch-1 of the sibling paths it discovered.
    # A verdict of a path that was not the child's first is never used as such: the
    # parent explores that prefix again in a process of its own.
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    todo = [prefix]
    caches = [(x, x.d) for x in rt.CACHES]
    t0 = time.perf_counter()
    try:
        for k in range(batch):
            prefix = todo.pop()
            signal.alarm(int(tmo))
            for x, d in caches:
                x.d = SxDict(d)
            for x in rt.CACHES[len(caches):]:
                x.d = SxDict()
            try:
                res = run_path(fn, params, prefix, limits)
            except BaseException as e:  # noqa
                res = {"outcome": "abort:crash", "detail": repr(e)[:300] + traceback.format_exc()[-600:],
                       "alts": [], "depth": 0, "reach": [], "funcs": [],
                       "stats": (0, 0.0, 0, 0, 0, 0), "secs": 0.0}
            res["prefix"] = prefix
            res["first"] = k == 0
            bad = k > 0 and res["outcome"] not in ("ok", "abort:assume", "abort:infeasible")
            todo.extend(res.pop("alts") if not bad else ())
            last = bad or not todo or k == batch - 1 or time.perf_counter() - t0 > 1.0
            res["alts"] = todo if last else []
            res["last"] = last
            data = pickle.dumps(res, protocol=4)
            mv = memoryview(struct.pack("<I", len(data)) + data)
            while mv:
                n = os.write(w, mv[:65536])
                mv = mv[n:]
            if last:
                break
    finally:
        os._exit(0)


def explore(fn, params, budget_s, limits=None, jobs=8, stop_on_viol=4, path_timeout=60, on_result=None, seed=1,
            batch=32):
    """Explores all paths; returns summary dict."""
    gc.collect()
    gc.freeze()
    gc.disable()
    t0 = time.time()
    frontier = [()]
    running = {}
    S = {"paths": 0, "ok": 0, "viols": [], "aborts": {}, "assumed_away": 0, "queries": 0, "solver_s": 0.0,
         "unknown": 0, "fast": 0, "concretised": 0, "assertions": 0, "reach": {}, "funcs": set(),
         "exhausted": True, "max_depth": 0, "samples": []}
    poll = select.poll()
    fresh = set()            # prefixes to explore in a process of their own
    rng = random.Random(seed)
    while frontier or running:
        if time.time() - t0 > budget_s or (len(S["viols"]) >= stop_on_viol):
            S["exhausted"] = False
            break
        while frontier and len(running) < jobs:
            if len(frontier) > 16 and rng.random() < 0.5:
                j = rng.randrange(len(frontier))
                frontier[j], frontier[-1] = frontier[-1], frontier[j]
            prefix = frontier.pop()
            alone = prefix in fresh
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                _child(w, fn, params, prefix, limits, path_timeout, 1 if alone else batch)
            os.close(w)
            running[r] = [pid, [], prefix, time.time()]
            poll.register(r, select.POLLIN | select.POLLHUP)
        for fd, _ev in poll.poll(200):
            data = os.read(fd, 1 << 20)
            if data:
                running[fd][1].append(data)
                continue
            pid, chunks, prefix, st = running.pop(fd)
            poll.unregister(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            buf = b"".join(chunks)
            results, off = [], 0
            while off + 4 <= len(buf):
                n = struct.unpack_from("<I", buf, off)[0]
                if off + 4 + n > len(buf):
                    break
                results.append(pickle.loads(buf[off + 4:off + 4 + n]))
                off += 4 + n
            done = bool(results) and "alts" in results[-1] and results[-1].get("last")
            if not done:
                if not results and prefix in fresh or batch == 1:
                    results.append({"outcome": "abort:timeout", "detail": "", "alts": [], "depth": 0, "reach": [],
                                    "funcs": [], "stats": (0, 0.0, 0, 0, 0, 0), "secs": time.time() - st,
                                    "prefix": prefix, "first": True})
                else:                       # a batch that died: again, one path per process
                    fresh.add(prefix)
                    frontier.append(prefix)
                    results = []
            for res in results:
                frontier.extend(res["alts"])
                o = res["outcome"]
                if not res["first"] and o not in ("ok", "abort:assume", "abort:infeasible"):
                    fresh.add(res["prefix"])
                    frontier.append(res["prefix"])
                    continue
                S["paths"] += 1
                q, ss, u, f, cz, asr = res["stats"]
                S["queries"] += q
                S["solver_s"] += ss
                S["unknown"] += u
                S["fast"] += f
                S["concretised"] += cz
                S["assertions"] += asr
                S["funcs"].update(res["funcs"])
                S["max_depth"] = max(S["max_depth"], res["depth"])
                if o == "ok":
                    S["ok"] += 1
                    for l in res["reach"]:
                        S["reach"][l] = S["reach"].get(l, 0) + 1
                elif o in ("viol", "exc"):
                    S["viols"].append(res)
                elif o == "abort:assume":
                    S["assumed_away"] += 1
                else:
                    S["aborts"].setdefault(o, []).append((res.get("detail", ""), res.get("inputs")))
                if on_result:
                    on_result(res)
    for fd, (pid, _, _, _) in running.items():
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        os.close(fd)
    S["left"] = len(frontier) + len(running)
    S["wall_s"] = time.time() - t0
    gc.unfreeze()
    gc.enable()
    return S
