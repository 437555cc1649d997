"""Executes one simulated run: a forked child runs the spec against the real
code, a second pristine fork evaluates the oracle, and both are compared."""
from __future__ import annotations

import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import sys
import time
import traceback

import numpy as np

from . import contain, core
from .core import HarnessError, diff_close, diff_exact

RUN_TIMEOUT = 150.0   # a run takes well under a second; this is a no-progress bound
SCRATCH = ["/tmp"]
HERE = os.path.dirname(os.path.abspath(__file__))


def fork_call(fn, timeout=RUN_TIMEOUT):
    """fn() in a forked process group -> ('ok', value) | ('timeout',) | ('dead', status)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            os.close(r)
            devnull = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(devnull, fd)
            data = pickle.dumps(fn(), protocol=4)
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:
            try:
                with os.fdopen(w, "wb") as f:
                    f.write(b"!" + traceback.format_exc().encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    chunks, end = [], time.monotonic() + timeout
    timed = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if timed:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    if timed:
        return ("timeout",)
    data = b"".join(chunks)
    if st != 0 or not data:
        return ("dead", st, data[:4000].decode("utf8", "replace"))
    return ("ok", pickle.loads(data))


def _blame(tb):
    """True when the exception came out of pycba code below the last harness frame."""
    files = [f.filename for f in traceback.extract_tb(tb)]
    last = max([i for i, f in enumerate(files) if f.startswith(HERE)], default=-1)
    return any(f.startswith(core.PYCBA_DIR[0]) for f in files[last + 1:])


def _child_run(spec, scratch):
    from .registry import REGISTRY

    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    contain.enter(SCRATCH[0])
    ctx = core.Ctx(spec)
    ctx.scratch = scratch
    core.CLOCK[0] = 0.0
    harness = None
    try:
        REGISTRY[spec["property"]](ctx).run()
    except HarnessError:
        harness = traceback.format_exc()
    except BaseException as e:
        if _blame(e.__traceback__):
            ctx.check(False, "unexpected-exception",
                      f"{type(e).__name__}: {e} [" + traceback.format_exc()[-600:] + "]")
        elif isinstance(e, (TypeError, ValueError, AttributeError, LookupError, ArithmeticError)):
            # what pycba handed out is not of the form every run of the unchanged
            # code hands out: the observation itself is impossible
            ctx.check(False, "unreadable-object",
                      f"{type(e).__name__}: {e} [" + traceback.format_exc()[-600:] + "]")
        else:
            harness = traceback.format_exc()
    if contain.BLOCKED[0]:
        ctx.stats["contained"] = ctx.stats.get("contained", 0) + contain.BLOCKED[0]
    return {"violations": ctx.violations, "queries": ctx.queries, "stats": ctx.stats,
            "faults": ctx.faults, "checks": ctx.checks, "sig": ctx.sig, "events": ctx.events,
            "clock": core.CLOCK[0], "harness": harness}


# ------------------------------------------------------------------ comparing
def compare(q, exp):
    """None when the observation agrees with the oracle's answer, else a text."""
    obs, mode, rtol, floor = q["observed"], q["mode"], q["rtol"], q["floor"]
    if mode in ("outcome", "modal"):
        if obs[0] != exp[0]:
            return f"observed {brief(obs)}, a fresh one gives {brief(exp)}"
        if obs[0] == "err":
            return None if obs[1] == exp[1] else \
                f"observed error {obs[1]}, a fresh one gives error {exp[1]}"
        e = exp[1]
        if mode == "modal":
            e = {k: v for k, v in e.items() if k in obs[1]}
        return diff_close(obs[1], e, rtol, floor)
    if mode == "exact":
        return diff_exact(obs, exp)
    from .modes import MODES, cases
    if mode.startswith("cases:"):
        return cases(q, exp)
    return MODES[mode](q, exp)


def brief(o):
    return o[1] if o[0] == "err" else "a result"


def _child_oracle(queries, property_id):
    from . import world
    from .registry import ORACLES

    contain.enter(SCRATCH[0])
    out = []
    for i in reversed(range(len(queries))):
        q = queries[i]
        try:
            exp = ORACLES[q["fn"]](*q["args"])
            d = compare(q, exp)
        except BaseException as e:
            if _blame(e.__traceback__):
                d = f"oracle raised {type(e).__name__}: {e}"
            else:
                return {"harness": traceback.format_exc()}
        if d is not None:
            out.append((i, d))
    return {"diffs": list(reversed(out))}


_counter = [0]


def execute(spec):
    """-> result dict with 'violations' (possibly empty), 'digest', 'harness'."""
    _counter[0] += 1
    scratch = os.path.join(SCRATCH[0], f"run-{os.getpid()}-{_counter[0]}")
    scratch_sim = os.path.join(SCRATCH[0], f"w{os.getpid()}")
    try:
        got = fork_call(lambda: _child_run(spec, scratch_sim))
    finally:
        shutil.rmtree(scratch_sim, ignore_errors=True)
    if got[0] == "timeout":
        return _fail(spec, "no-progress",
                     f"the run made no progress within {RUN_TIMEOUT:.0f} s")
    if got[0] == "dead":
        if "Traceback" in got[2]:
            return dict(_empty(spec), harness=got[2])
        return _fail(spec, "process-died", f"the process ended with status {got[1]}")
    res = got[1]
    if res["harness"]:
        return dict(_empty(spec), harness=res["harness"])
    queries = res.pop("queries")
    res["nqueries"] = len(queries)
    if queries:
        o = fork_call(lambda: _child_oracle(queries, spec["property"]), 300)
        if o[0] == "timeout":
            return _fail(spec, "no-progress", "the reference computation made no progress")
        if o[0] == "dead":
            if "Traceback" in o[2]:
                return dict(_empty(spec), harness=o[2])
            return _fail(spec, "process-died", f"the reference ended with status {o[1]}")
        if o[1].get("harness"):
            return dict(_empty(spec), harness=o[1]["harness"])
        for i, d in o[1]["diffs"]:
            q = queries[i]
            res["violations"].append({"op": q["op"], "class": q["class"],
                                      "message": f"{q['message']} {d}"})
    # the oracle reports in operation order
    res["violations"].sort(key=lambda v: v["op"])
    res["digest"] = hashlib.sha256(json.dumps(
        [res["events"], [[v["op"], v["class"]] for v in res["violations"]],
         sorted(res["stats"].items()), sorted(res["faults"].items())],
        default=str).encode()).hexdigest()[:20]
    return res


def _empty(spec):
    return {"violations": [], "stats": {}, "faults": {}, "checks": 0, "sig": [], "events": [],
            "clock": 0.0, "harness": None, "nqueries": 0, "digest": "none"}


def _fail(spec, cls, msg):
    r = _empty(spec)
    r["violations"] = [{"op": -1, "class": cls, "message": msg}]
    r["digest"] = cls
    return r


# ------------------------------------------------------------------ minimising
def minimise(spec, cls, budget=160, seconds=150.0):
    """ddmin over the operation list, then over faults and numeric arguments."""
    end = time.monotonic() + seconds
    used = [0]

    def bad(ops):
        if used[0] >= budget or time.monotonic() > end:
            return False
        used[0] += 1
        r = execute(dict(spec, ops=ops))
        return not r["harness"] and any(v["class"] == cls for v in r["violations"][:1])

    ops = list(spec["ops"])
    n = 2
    while len(ops) > 1:
        size = max(1, len(ops) // n)
        cut = False
        for a in range(0, len(ops), size):
            rest = ops[:a] + ops[a + size:]
            if rest and bad(rest):
                ops, n, cut = rest, max(n - 1, 2), True
                break
        if not cut:
            if size == 1:
                break
            n = min(len(ops), n * 2)
    for i in range(len(ops)):
        if ops[i].get("fault"):
            o = dict(ops[i])
            o["fault"] = None
            t = ops[:i] + [o] + ops[i + 1:]
            if bad(t):
                ops = t
    # simpler definitions: drop loads and special properties one at a time
    for i in range(len(ops)):
        d = ops[i].get("d")
        if isinstance(d, dict):
            for key, val in (("LM", []), ("GAv", None), ("kf", None), ("D", None)):
                if d.get(key):
                    o = dict(ops[i], d=dict(d, **{key: val}))
                    t = ops[:i] + [o] + ops[i + 1:]
                    if bad(t):
                        ops, d = t, o["d"]
    return dict(spec, ops=ops), used[0]
