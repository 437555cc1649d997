#!/opt/venv/bin/python
"""Deterministic simulation of pycba.

  run.py check  <property> [--tier quick|thorough] [--runs N] [--seed S] [--jobs J]
  run.py replay <file>
  run.py one    <property> <index> [--seed S] [--tier T]     print one run
  run.py selftest [--runs N]                                determinism of the simulator
  run.py setup                                              import check, nothing to build
"""
import argparse
import ctypes
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYCBA_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
MARK = "PYCBA_SIM_ENV"


def clean_env():
    """Re-execute once in a fixed environment without address randomisation."""
    if os.environ.get(MARK) == "1":
        return
    import tempfile
    scratch = tempfile.mkdtemp(prefix="pycba-sim-")
    env = {
        "PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": scratch, "LC_ALL": "C.UTF-8",
        MARK: "1", "PYCBA_SIM_SCRATCH": scratch, "PYCBA_REPO": REPO,
        "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "MPLCONFIGDIR": scratch + "/mpl",
        "PYTHONHASHSEED": os.environ.get("PYCBA_SIM_HASHSEED", "0"),
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "PYTHONPATH": REPO + "/src:" + HERE, "PYTHONWARNINGS": "ignore", "TMPDIR": scratch,
        "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
        "VERIF_TIER": os.environ.get("VERIF_TIER", "quick"),
    }
    try:
        ctypes.CDLL(None).personality(0x0040000)  # ADDR_NO_RANDOMIZE
    except Exception:
        pass
    pid = os.fork()
    if pid == 0:
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
    import shutil
    import signal

    def stop(sig, frame):
        try:
            os.kill(pid, signal.SIGTERM)
        except OSError:
            pass
    signal.signal(signal.SIGTERM, stop)
    while True:
        try:
            _, st = os.waitpid(pid, 0)
            break
        except InterruptedError:
            continue
    shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(os.waitstatus_to_exitcode(st) if st >= 0 and os.WIFEXITED(st) else 2)


def load():
    """Import pycba once, behind the seams; every run forks from here."""
    import gc
    import warnings
    warnings.simplefilter("ignore")
    from sim import core
    core.PYCBA_DIR[0] = os.path.join(REPO, "src", "pycba")
    core.install_seams()
    from sim.threads import install_lock_seam
    install_lock_seam()
    import pycba
    if not os.path.abspath(pycba.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit(f"pycba was imported from {pycba.__file__}, not from {REPO}")
    import matplotlib
    matplotlib.use("Agg")
    core.install_plot_seams()
    core.preload()
    core.install_id_seam()
    from sim import disk
    disk.install()
    from sim import engine
    engine.SCRATCH[0] = os.environ["PYCBA_SIM_SCRATCH"]
    from sim.registry import REGISTRY
    gc.collect()
    gc.freeze()
    return engine, REGISTRY


def spec_for(reg, prop, seed, index, tier):
    from sim import gen
    rng = gen.rng_for(seed, prop, index)
    s = reg[prop].gen(rng, tier)
    s.update(property=prop, seed=seed, index=index, tier=tier)
    return json.loads(json.dumps(s))


# ------------------------------------------------------------------ batch
def batch(engine, reg, prop, seed, tier, n, jobs, cap, stop_on=lambda r: bool(r["violations"]),
          keep=None):
    """Runs 0..n-1 over forked workers; returns {index: result}, complete up to
    the lowest index that stops the batch."""
    import fcntl
    import mmap
    import pickle
    import select
    import struct

    shared = mmap.mmap(-1, 16)
    struct.pack_into("qq", shared, 0, 0, n)
    lockpath = os.path.join(os.environ["PYCBA_SIM_SCRATCH"], "lock")
    open(lockpath, "w").close()
    pipes, pids = [], []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for q in pipes:
                    os.close(q)
                lk = open(lockpath, "r+")
                out = os.fdopen(w, "wb")
                while True:
                    fcntl.lockf(lk, fcntl.LOCK_EX)
                    i, lim = struct.unpack_from("qq", shared, 0)
                    if i < lim:
                        struct.pack_into("q", shared, 0, i + 1)
                    fcntl.lockf(lk, fcntl.LOCK_UN)
                    if i >= lim:
                        break
                    spec = spec_for(reg, prop, seed, i, tier)
                    res = engine.execute(spec)
                    if not keep:
                        res.pop("events", None)
                    if stop_on(res):
                        fcntl.lockf(lk, fcntl.LOCK_EX)
                        lim = struct.unpack_from("q", shared, 8)[0]
                        struct.pack_into("q", shared, 8, min(lim, i))
                        fcntl.lockf(lk, fcntl.LOCK_UN)
                    d = pickle.dumps((i, res, len(spec["ops"])))
                    out.write(struct.pack("q", len(d)) + d)
                    out.flush()
                os._exit(0)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(4)
        os.close(w)
        pipes.append(r)
        pids.append(pid)
    results, bufs, live = {}, {r: b"" for r in pipes}, set(pipes)
    end = time.monotonic() + cap
    capped = False
    while live:
        left = end - time.monotonic()
        if left <= 0:
            capped = True
            break
        rd, _, _ = select.select(list(live), [], [], min(left, 5))
        for r in rd:
            b = os.read(r, 1 << 20)
            if not b:
                live.discard(r)
                continue
            bufs[r] += b
            while len(bufs[r]) >= 8:
                k = struct.unpack("q", bufs[r][:8])[0]
                if len(bufs[r]) < 8 + k:
                    break
                i, res, nops = pickle.loads(bufs[r][8:8 + k])
                res["nops"] = nops
                results[i] = res
                bufs[r] = bufs[r][8 + k:]
    import signal
    codes = []
    for p in pids:
        if capped:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        _, st = os.waitpid(p, 0)
        codes.append(st)
    for r in pipes:
        os.close(r)
    if capped and not any(stop_on(r) for r in results.values()):
        raise SystemExit("ERROR: the wall-clock cap was reached before the runs were done")
    if any(codes) and not capped:
        raise SystemExit("ERROR: a simulator worker died")
    return results


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                f = json.loads(line[len("known: "):])
                if f["property"] == prop:
                    out.append(f)
    return out


def split_known(res, known):
    """(violations not listed, [finding])."""
    new, hit = [], []
    for v in res["violations"]:
        for f in known:
            if v["class"] == f["class"] and f["match"] in v["message"]:
                hit.append(f)
                break
        else:
            new.append(v)
    return new, hit


# ------------------------------------------------------------------ check
def check(prop, tier, seed, runs, jobs):
    import subprocess
    t0 = time.monotonic()
    engine, reg = load()
    from sim.budget import RUNS
    cls = reg[prop]
    n = runs or RUNS[prop][0 if tier == "quick" else 1]
    cap = 780 if tier == "quick" else 4 * 3600
    print(f"seed={seed} property={prop} tier={tier} runs={n} jobs={jobs}", flush=True)
    known = known_findings(prop)
    results = batch(engine, reg, prop, seed, tier, n, jobs, cap,
                    stop_on=lambda r: bool(split_known(r, known)[0]))
    hits = {}
    first = failed = None
    for i in sorted(results):
        r = results[i]
        if r["harness"]:
            failed = failed or (i, r["harness"])
            continue
        new, hit = split_known(r, known)
        for f in hit:
            hits[f["what"]] = hits.get(f["what"], 0) + 1
        if new:
            first = (i, new[0])
            break
    rc = 0
    violation = None
    if first is not None:
        i, v = first
        violation = report(engine, reg, prop, seed, tier, i, v)
        rc = 1
    elif failed is not None:
        print(failed[1])
        print(f"ERROR: the simulator failed in run {failed[0]} (not a verdict on {prop})")
        return 2
    elif len(results) != n:
        print("ERROR: not every run was completed")
        return 2
    for f in known:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    from sim import evidence
    evidence.write(HERE, prop, tier, seed, cls, reg, results, n, time.monotonic() - t0, jobs,
                   violation, spec_for)
    if rc == 0:
        print(f"OK property={prop} runs={len(results)} wall={time.monotonic() - t0:.1f}s")
    return rc


def report(engine, reg, prop, seed, tier, index, v):
    """Minimise, write the replay file, confirm it in a fresh process."""
    import subprocess
    spec = spec_for(reg, prop, seed, index, tier)
    small, used = engine.minimise(spec, v["class"])
    path = os.path.join(HERE, "replays", f"{prop}-seed{seed}-run{index}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)

    def write(sp):
        r = engine.execute(sp)
        vs = r["violations"] or [v]
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "index": index, "tier": tier,
                       "class": v["class"], "message": vs[0]["message"],
                       "digest": r["digest"], "minimise_runs": used,
                       "original_ops": len(spec["ops"]), "ops": len(sp["ops"]),
                       "faults": [o["fault"] for o in sp["ops"] if o.get("fault")],
                       "spec": sp, "events": r["events"]}, f, indent=1)
        e = {k: val for k, val in os.environ.items() if k != MARK}
        e["PYCBA_SIM_HASHSEED"] = "77"
        p = subprocess.run([PY, os.path.abspath(__file__), "replay", path], env=e,
                           capture_output=True, text=True)
        return p.returncode == 1

    ok = write(small)
    if not ok:
        ok = write(spec)
    d = json.load(open(path))
    print(f"run {index} (seed {seed}) breaks {prop}: [{v['class']}] {d['message']}")
    print(f"minimised from {len(spec['ops'])} to {d['ops']} operations; replay in a fresh "
          f"process {'reproduced the violation' if ok else 'DID NOT reproduce it'}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return dict(v, index=index, replay=path, reproduced=ok, message=d["message"])


def replay(path):
    d = json.load(open(path))
    engine, reg = load()
    r = engine.execute(d["spec"])
    if r["harness"]:
        print(r["harness"])
        return 2
    same = [v for v in r["violations"] if v["class"] == d["class"]]
    for e in r["events"]:
        print(" ", e)
    if same:
        print(f"[{same[0]['class']}] {same[0]['message']}")
        print("event log identical" if r["digest"] == d["digest"] else "event log differs")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("the violation did not occur")
    return 0


def one(prop, index, seed, tier):
    engine, reg = load()
    spec = spec_for(reg, prop, seed, index, tier)
    r = engine.execute(spec)
    print(json.dumps(spec, indent=None)[:6000])
    for e in r["events"]:
        print(" ", e)
    print(r["stats"], r["faults"], "checks", r["checks"], "queries", r["nqueries"])
    print(r["violations"], r["digest"])
    if r["harness"]:
        print(r["harness"])
    return 0


def digests(prop, runs, jobs, seed):
    engine, reg = load()
    out = {}
    for p in ([prop] if prop else sorted(reg)):
        res = batch(engine, reg, p, seed, "quick", runs, jobs, 3600, stop_on=lambda r: False)
        for i in sorted(res):
            if res[i]["harness"]:
                print(res[i]["harness"])
            out[f"{p}/{i}"] = [res[i]["digest"], [v["class"] for v in res[i]["violations"]]]
    print("DIGESTS " + json.dumps(out))
    return 0


def selftest(prop, runs):
    """Every run twice: other worker count, other hash seed, fresh interpreter."""
    import subprocess
    outs = []
    for jobs, hs in ((8, "0"), (3, "4242"), (5, "1")):
        e = {k: v for k, v in os.environ.items() if k != MARK}
        e["PYCBA_SIM_HASHSEED"] = hs
        p = subprocess.run([PY, os.path.abspath(__file__), "digests", prop or "all", "--runs",
                            str(runs), "--jobs", str(jobs)], env=e, capture_output=True,
                           text=True)
        line = [x for x in p.stdout.splitlines() if x.startswith("DIGESTS ")]
        if not line:
            print(p.stdout[-3000:], p.stderr[-3000:])
            return 2
        outs.append(json.loads(line[0][8:]))
    bad = [k for k in outs[0] if any(o.get(k) != outs[0][k] for o in outs[1:])]
    viol = [k for k in outs[0] if outs[0][k][1]]
    print(f"selftest: {len(outs[0])} runs x {len(outs)} executions, "
          f"{len(bad)} diverged, {len(viol)} with violations")
    for k in bad[:20]:
        print("  diverged", k, [o[k] for o in outs])
    for k in viol[:20]:
        print("  violation", k, outs[0][k][1])
    return 1 if bad else 0


def main():
    clean_env()
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("args", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=0)
    a = ap.parse_args()
    jobs = a.jobs or max(1, min(8, len(os.sched_getaffinity(0))))
    if a.cmd == "check":
        return check(a.args[0], a.tier, a.seed, a.runs, jobs)
    if a.cmd == "replay":
        return replay(a.args[0])
    if a.cmd == "one":
        return one(a.args[0], int(a.args[1]), a.seed, a.tier)
    if a.cmd == "digests":
        return digests(None if a.args[0] == "all" else a.args[0], a.runs or 20, jobs, a.seed)
    if a.cmd == "selftest":
        return selftest(a.args[0] if a.args else None, a.runs or 20)
    if a.cmd == "setup":
        load()
        print("pycba imports behind the seams; nothing to build")
        return 0
    ap.error("unknown command")


def guarded():
    """Exit 1 is reserved for a verdict; every failure of the machinery is 2."""
    try:
        return main()
    except SystemExit as e:
        if isinstance(e.code, str):
            print(e.code)
            return 2
        raise
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(guarded())
