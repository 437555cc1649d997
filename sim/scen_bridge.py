"""Moving-load histories: C05 C06."""
from __future__ import annotations

import copy

import numpy as np

from . import gen
from .base import (LINE_FAULTS, SEAM_FAULTS, ModelLedger, ModelOps, interleave, number, scenario)
from .core import diff_close, diff_exact, digest, outcome, spoil

DRAW_FAULTS = ["draw-error", "draw-interrupt", "draw-memory"]


class BridgeLedger(ModelLedger):
    def __init__(self, rng, m, c, **kw):
        super().__init__(rng, m, c, **kw)
        self.vehs = []
        self.last = None
        self.emit("bridge", b=0)
        self.nb = 1
        self.newveh(0)
        self.edited = False

    def newveh(self, b):
        if self.vehs and self.rng.random() < 0.4:
            v = gen.near_vehicle(self.rng, self.vehs[-1])
        else:
            v = gen.vehicle(self.rng)
        self.emit("veh", b=b, veh=v, how=self.rng.choice(["set", "add"]))
        self.vehs.append(v)

    def span_len(self):
        return sum(self.d["L"])

    def rebuild(self, tier):
        """Another bridge model for the same analysis objects."""
        old = self.last
        self.d = gen.beam(self.rng, **self.kw)
        self.emit("newbridge", d=copy.deepcopy(self.d))
        self.last = None
        if old is not None:  # the next run may well carry the lane load of the last one
            a = self.new_args(0, tier)
            a["lane"], a["clear"] = old["lane"], old["clear"]
            self.last = a

    def run_args(self, b, tier, lane=None):
        """Arguments of one traverse; often those of the previous one but for one of them."""
        a = self.new_args(b, tier, lane)
        if self.last is not None and self.rng.random() < 0.35:
            old = dict(copy.deepcopy(self.last), b=b)
            k = self.rng.choice(["step", "shear", "dv", "lane", "clear", "start", None])
            if k == "start":
                old["start"], old["end"], old["step"] = a["start"], a["end"], a["step"]
            elif k == "clear":
                old["clear"] = a["clear"] if old["lane"] else None
            elif k == "step":
                old["step"] = round(old["step"] * self.rng.choice([0.8, 1.25, 1.0 + 1e-3]), 5)
            elif k == "lane" and old["lane"]:
                old["lane"] = gen.nudge(self.rng, old["lane"])
            elif k:
                old[k] = a[k]
            if lane is None or old["lane"] or not lane:
                a = old
        self.last = a
        return copy.deepcopy(a)

    def new_args(self, b, tier, lane=None):
        """Arguments of one traverse with a bounded number of positions."""
        rng = self.rng
        T = self.span_len()
        a = {"b": b, "start": None, "end": None, "shear": None, "dv": None, "lane": None,
             "clear": None}
        reach = T + sum(self.vehs[-1]["axs"])
        n = rng.randint(3, 9 if tier == "quick" else 14)
        if rng.random() < 0.5:
            lo = rng.uniform(-1.0, 0.6 * T)
            hi = rng.uniform(lo + 0.3, reach + 2.0)
            a["start"], a["end"] = round(lo + 0.00137, 5), round(hi, 3)
            a["step"] = round(max((hi - lo) / n, 0.05), 4)
            if rng.random() < 0.3:
                a["end"] = None
                a["step"] = round(max((reach - lo) / n, 0.05), 4)
        else:
            a["step"] = round(reach / n + 0.00071, 5)
        if rng.random() < 0.35:
            nodes = [0.0]
            for l in self.d["L"]:
                nodes.append(nodes[-1] + l)
            pts = []
            for _ in range(rng.randint(1, 3)):
                x = round(rng.uniform(0.04, 0.96) * T + 0.00023, 5)
                if min(abs(x - q) for q in nodes) > 0.02:
                    pts.append(x)
            if pts:
                if rng.random() < 0.25:
                    sp = {}
                    for x in pts:
                        i = max(j for j in range(len(nodes) - 1) if x > nodes[j])
                        sp.setdefault(str(i), []).append(round(x - nodes[i], 5))
                    a["shear"] = {"dict": sp}
                else:
                    a["shear"] = pts if len(pts) > 1 or rng.random() < 0.6 else pts[0]
        if rng.random() < 0.15:
            a["dv"] = round(rng.uniform(0.1, 0.9), 4)
        if rng.random() < (0.4 if lane is None else lane):
            a["lane"] = round(rng.uniform(1, 20), 2)
            if rng.random() < 0.6:
                a["clear"] = [rng.choice([0.0, round(rng.uniform(0.2, 8), 3)]),
                              rng.choice([0.0, round(rng.uniform(0.2, 8), 3)])]
        return a


def shear_dict(d, sh, dv):
    """{span: local coordinates} and global coordinates: the harness's own rule."""
    nodes = [0.0]
    for l in d["L"]:
        nodes.append(nodes[-1] + l)
    if isinstance(sh, dict):
        return {int(k): list(v) for k, v in sh["dict"].items()}, []
    g = []
    if sh is not None:
        g += list(sh) if isinstance(sh, list) else [sh]
    if dv is not None:
        for j in range(len(nodes)):
            if d["R"][2 * j] != 0:
                g += [nodes[j] - dv, nodes[j] + dv]
    g = sorted({x for x in g if 0 < x < nodes[-1]})
    out = {}
    for x in g:
        i = max(j for j in range(len(nodes) - 1) if x > nodes[j])
        out.setdefault(i, []).append(x - nodes[i])
    return out, g


class BridgeOps(ModelOps):
    """Executor of bridge operations; hooks `ran`, `failed`."""

    def op_bridge(self, op):
        import pycba as cba
        s = self.slot(op)
        if s is None:
            return
        if not hasattr(s, "br"):
            s.br = {}
        out, _ = self.ctx.call(op, lambda: cba.BridgeAnalysis(s.obj))
        if out[0] == "ok":
            s.br[op["b"]] = {"o": out[1], "veh": None}

    def op_veh(self, op):
        import pycba as cba
        s = self.slot(op)
        b = s.br.get(op["b"]) if s is not None and hasattr(s, "br") else None
        if b is None:
            return
        v = op["veh"]

        def go():
            if op["how"] == "add":
                b["o"].add_vehicle(list(v["axs"]), list(v["axw"]))
            else:
                b["o"].set_vehicle(cba.Vehicle(list(v["axs"]), list(v["axw"])))

        out, _ = self.ctx.call(op, go)
        if out[0] == "ok":
            b["veh"] = copy.deepcopy(v)

    def bridge(self, op):
        s = self.slot(op)
        b = s.br.get(op["b"]) if s is not None and hasattr(s, "br") else None
        if b is None or b["veh"] is None:
            return None, None
        return s, b

    def op_rebridge(self, op):
        """set_loads on the model, then tell the bridge about it."""
        s = self.slot(op)
        if s is None or not hasattr(s, "br"):
            return
        LM = [list(r) for r in op["LM"]]

        def go():
            s.obj.set_loads([list(r) for r in LM])
            for b in s.br.values():
                b["o"].set_bridge(s.obj)

        out, _ = self.ctx.call(op, go)
        if out[0] == "ok":
            s.d["LM"] = LM

    def op_newbridge(self, op):
        """Every bridge analysis of the client is given another model."""
        from . import world
        s = self.slot(op)
        if s is None or not hasattr(s, "br"):
            return
        d = copy.deepcopy(op["d"])

        def go():
            o = world.build(d)
            if d["npts"] != 100:
                o.npts = d["npts"]
            for b in s.br.values():
                b["o"].set_bridge(o)
            return o

        out, _ = self.ctx.call(op, go)
        if out[0] == "ok":
            s.obj, s.d, s.res, s.resdef = out[1], d, None, None
            self.ctx.stat("probe:another-bridge")

    def _do(self, b, a):
        sh = a["shear"]
        if isinstance(sh, dict):
            sh = {int(k): np.array(v, float) for k, v in sh["dict"].items()}
        kw = dict(pos_start=a["start"], pos_end=a["end"], shear_points=sh, dv=a["dv"])
        if a.get("plot_env"):
            kw["plot_env"] = True
        if a["lane"] is None:
            if a.get("plot_all"):
                kw["plot_all"] = True
            return b["o"].run_vehicle(a["step"], **kw)
        if a["clear"] is not None:
            kw["clearances"] = tuple(a["clear"])
        return b["o"].run_load_model(a["step"], a["lane"], **kw)

    def op_run(self, op):
        from . import world
        s, b = self.bridge(op)
        if s is None:
            return
        if op.get("plot_env") and -1 not in s.d["R"][::2]:
            op = dict(op, plot_env=False)  # the reactions diagram refuses a beam with none
        self.before_run(s, b, op)
        out, fired = self.ctx.call(op, lambda: self._do(b, op))
        snap = None
        if out[0] == "ok":
            snap = {"pos": [float(p) for p in b["o"].pos],
                    "res": [world.snap(r) for r in b["o"].vResults],
                    "env": world.snap_env(out[1], deep=False)}
            self.ctx.log("run", len(snap["pos"]), digest(snap))
            s.res = world.snap(s.obj.beam_results)
            s.env = out[1]
        self.after_run(s, b, op, out, fired, snap)

    def op_static(self, op):
        from . import world
        s, b = self.bridge(op)
        if s is None:
            return
        self.before_run(s, b, op)
        if op.get("plot"):  # the drawing analyses the position again, without sections
            op = dict(op, shear=None)
        sh = op["shear"]

        def go():
            r = b["o"].static_vehicle(op["pos"], plotflag=bool(op.get("plot")), shear_points=sh)
            return world.snap(r)

        out, fired = self.ctx.call(op, go)
        snap = None
        if out[0] == "ok":
            snap = {"pos": [op["pos"]], "res": [out[1]], "env": None}
            s.res = out[1]
        self.after_run(s, b, op, out, fired, snap)

    def op_anim(self, op):
        """An animation: one traverse, then (if saved) every frame drawn."""
        import os
        import warnings
        from . import world
        s, b = self.bridge(op)
        if s is None:
            return
        self.before_run(s, b, op)
        kw = dict(pos_start=op["start"], pos_end=op["end"])
        if op.get("save"):
            kw.update(save=os.path.join(self.ctx.scratch, "anim.gif"), dpi=15)

        def go():
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                b["o"].animate(op["step"], **kw)
            return [world.snap(r) for r in b["o"].vResults]

        out, fired = self.ctx.call(op, go)
        snap = None
        if out[0] == "ok":
            snap = {"pos": [float(p) for p in b["o"].pos], "res": out[1], "env": None}
            s.res = world.snap(s.obj.beam_results)
            self.ctx.stat("probe:animated")
        self.after_run(s, b, op, out, fired, snap)

    def before_run(self, s, b, op):
        pass

    def after_run(self, s, b, op, out, fired, snap):
        pass

    def ask_positions(self, s, b, op, out, snap, cls, msg):
        d = s.d
        if snap is not None:
            pos = snap["pos"]
        else:
            pos = want_positions(d, b["veh"], op)
        sh, _ = shear_dict(d, op["shear"], op.get("dv"))
        F = 1e-9 * max(gen.fscale(d), sum(b["veh"]["axw"]),
                       (op.get("lane") or 0) * sum(d["L"]))
        obs = ["err", out[1]] if out[0] == "err" else \
            ["ok", [["ok", r] for r in snap["res"]]]
        self.ctx.query("positions",
                       [d, pos, b["veh"], op.get("lane"), op.get("clear"), sh or None],
                       obs, cls, msg, mode="positions",
                       floor={"*": F, "x": 1e-9, "D": 1e-11, "rot": 1e-11, "d": 1e-11})


def want_positions(d, veh, op):
    if op["op"] == "static":
        return [op["pos"]]
    start = 0.0 if op["start"] is None else op["start"]
    end = sum(d["L"]) + sum(veh["axs"]) if op["end"] is None else op["end"]
    n = round((end - start) / op["step"]) + 1
    return [start + i * op["step"] for i in range(n)]


def extreme_ok(got, vals, sign, tol):
    """`got` must be the extreme of vals, or that extreme bounded by zero."""
    e = np.max(sign * vals, axis=0)
    g = sign * np.asarray(got)
    return bool(np.all((np.abs(g - e) <= tol) | (np.abs(g - np.maximum(e, 0.0)) <= tol)))


def check_envelope(ctx, snap, cls="envelope"):
    """The envelope is the pointwise extreme of the reported positions."""
    env, res = snap["env"], snap["res"]
    M = np.array([r["M"] for r in res])
    V = np.array([r["V"] for r in res])
    R = np.array([r["R"] for r in res])
    sM, sV, sR = (1e-9 * (np.abs(a).max() if a.size else 0.0) for a in (M, V, R))
    ctx.check(diff_close(env["x"], res[0]["x"], 1e-12), cls, "envelope stations:")
    for nm, vals, sg, tol in (("Mmax", M, 1, sM), ("Mmin", M, -1, sM), ("Vmax", V, 1, sV),
                              ("Vmin", V, -1, sV)):
        ctx.check(env[nm].shape == vals.shape[1:] and extreme_ok(env[nm], vals, sg, tol), cls,
                  f"{nm} is not the extreme of the positions of this run")
    if R.size:
        for nm, sg in (("Rmaxval", 1), ("Rminval", -1)):
            ctx.check(extreme_ok(env[nm], R, sg, sR), cls,
                      f"{nm} is not the extreme reaction of this run")
        for nm, sg in (("Rmax", 1), ("Rmin", -1)):
            if ctx.check(env[nm].shape == R.T.shape, cls, f"{nm} has the wrong shape"):
                g, e = sg * env[nm], sg * R.T
                ok = (np.abs(g - e) <= sR) | (np.abs(g - np.maximum(e, 0)) <= sR)
                ctx.check(bool(np.all(ok)), cls, f"{nm} does not list this run's reactions")
    for nm, main, other, sg, so, tol in (
            ("Vco_Mmax", M, V, 1, sV, sM), ("Vco_Mmin", M, V, -1, sV, sM),
            ("Mco_Vmax", V, M, 1, sM, sV), ("Mco_Vmin", V, M, -1, sM, sV)):
        e = np.max(sg * main, axis=0)
        cand = (np.abs(sg * main - e) <= 10 * tol + 1e-12) & \
               (np.abs(other - env[nm][None, :]) <= so + 1e-12)
        ok = cand.any(axis=0) | (e <= 10 * tol + 1e-12)
        ctx.check(bool(ok.all()), cls,
                  f"{nm} is not the effect that goes with the extreme of this run")
    ctx.check(env["nres"] == len(res), cls, "envelope result count")


def check_critical(ctx, b, s, op, env, snap):
    """Critical values belong to the current run."""
    if op.get("spoil"):
        spoil(outcome(lambda: b["o"].critical_values(env)))
    out = outcome(lambda: b["o"].critical_values(env))
    M = np.array([r["M"] for r in snap["res"]])
    V = np.array([r["V"] for r in snap["res"]])
    ext = {"Mmax": M.max(), "Mmin": M.min(), "Vmax": V.max(), "Vmin": V.min()}
    floored = ext["Mmax"] <= 0 or ext["Mmin"] >= 0 or ext["Vmax"] <= 0 or ext["Vmin"] >= 0
    if out[0] == "err":
        ctx.stat("probe:critical-refused")
        ctx.check(floored, "critical-refused",
                  f"critical values of the current run refused: {out[2]}")
        return
    ctx.stat("probe:critical")
    c = out[1]
    for k, A, sg in (("Mmax", M, 1), ("Mmin", M, -1), ("Vmax", V, 1), ("Vmin", V, -1)):
        tol = 1e-8 * np.abs(A).max() + 1e-9
        e = ext[k]
        if sg * e <= 0:
            continue
        ctx.check(abs(c[k]["val"] - e) <= tol, "critical-value", f"{k} {c[k]['val']} != {e}")
        peak = (sg * A).max(axis=1)
        loose = 1e-4 * abs(e) + 1e-6
        ok = [p for i, p in enumerate(snap["pos"]) if peak[i] >= sg * e - loose]
        best = [p for i, p in enumerate(snap["pos"]) if peak[i] >= sg * e - tol]
        got = [float(p) for p in c[k]["pos"]]
        ctx.check(all(any(abs(g - p) < 1e-9 for p in ok) for g in got) and
                  any(abs(g - p) < 1e-9 for g in got for p in best), "critical-position",
                  f"{k} occurs at {best}, reported {got}")
        col = (sg * A).max(axis=0)
        at = snap["res"][0]["x"][col >= sg * e - tol]
        ctx.check(bool(np.any(np.abs(at - c[k]["at"]) < 1e-9)), "critical-station",
                  f"{k} station {c[k]['at']} is not where the extreme is")
    R = np.array([r["R"] for r in snap["res"]])
    n = R.shape[1]
    ctx.check(int(c["nsup"]) == n, "critical-value", "support count")
    for i in range(n):
        for k, sg in ((f"Rmax{i}", 1), (f"Rmin{i}", -1)):
            e = max((sg * R[:, i]).max(), 0.0)
            tol = 1e-8 * np.abs(R).max() + 1e-9
            ctx.check(abs(sg * c[k]["val"] - e) <= tol, "critical-value",
                      f"{k} {c[k]['val']} is not this run's extreme {sg * e}")
            if e > tol:
                ok = [p for j, p in enumerate(snap["pos"]) if sg * R[j, i] >= e - tol]
                ctx.check(any(abs(c[k]["pos"] - p) < 1e-9 for p in ok), "critical-position",
                          f"{k} occurs at {ok}, reported {c[k]['pos']}")
    _, g = shear_dict(s.d, op["shear"], op.get("dv"))
    got = sorted(float(x) for x in c.get("shear_points", {}))
    x = snap["res"][0]["x"]

    def bracketed(q):
        return np.any((x < q) & (q - x < 1e-6)) and np.any((x > q) & (x - q < 1e-6))

    if isinstance(op["shear"], dict):
        return
    ctx.check(len(got) == len(g) and np.allclose(got, g, atol=1e-9), "critical-sections",
              f"sections reported {got}, requested {g}")
    for q in got:
        if not bracketed(q):
            continue
        e = [v for k, v in c["shear_points"].items() if abs(float(k) - q) < 1e-12][0]
        near = (np.abs(x - q) < 1e-6)
        tol = 1e-8 * np.abs(V).max() + 1e-9
        ctx.check(abs(e["Vmax"] - max(V[:, near].max(), 0)) <= tol and
                  abs(e["Vmin"] - min(V[:, near].min(), 0)) <= tol or
                  (abs(e["Vmax"] - V[:, near].max()) <= tol and
                   abs(e["Vmin"] - V[:, near].min()) <= tol), "critical-sections",
                  f"shear at {q}: {e['Vmax']}, {e['Vmin']}")


def bswarm(rng):
    return dict(max_spans=rng.choice([1, 2, 3]), sections=rng.choice([0, 0, 0, 0.5]),
                gav=rng.choice([0, 0, 0.4]), kf=rng.choice([0, 0, 0, 0.5]),
                springs=rng.choice([0, 0.3]), settle=rng.choice([0, 0.2]),
                hinges=rng.choice([0, 0.4]), loads=rng.choice([0, 1, 2]))


# =========================================================================== C05
@scenario
class C05(BridgeOps):
    id = "C05"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.4 else rng.sample(SEAM_FAULTS + LINE_FAULTS,
                                                         rng.randint(1, 4))
        streams = []
        for c in range(rng.choice([1, 1, 2])):
            led = BridgeLedger(rng, c, c, **bswarm(rng))
            if rng.random() < 0.3:
                led.emit("bridge", b=1)
                led.newveh(1)
                led.nb = 2
            for _ in range(rng.randint(3, 5) if tier == "quick" else rng.randint(4, 9)):
                q = rng.random()
                b = rng.randrange(led.nb)
                if q < 0.08 and led.nb == 1:
                    row = gen.load(rng, led.d)
                    led.d["LM"].append(row)
                    led.emit("load", row=row, how="api")
                elif q < 0.14:
                    LM = [gen.load(rng, led.d) for _ in range(rng.randint(0, 2))]
                    led.d["LM"] = [list(r) for r in LM]
                    led.emit("rebridge", LM=LM)
                elif q < 0.24:
                    led.newveh(b)
                elif q < 0.30:
                    led.restr()
                elif q < 0.34:
                    led.disp()
                elif q < 0.38:
                    R0 = list(led.d["R"])
                    if led.restr("mechanism"):
                        led.emit("run", **dict(led.run_args(b, tier), fault=None))
                        led.d["R"] = R0
                        led.emit("R", R=R0)
                elif q < 0.48:
                    led.emit("static", b=b, fault=gen.pick_fault(rng, kinds, 0.2), dv=None,
                             pos=round(rng.uniform(0.02, 1.2) * led.span_len() + 0.00031, 5),
                             shear=rng.choice([None, None, [round(0.37 * led.span_len(), 4)]]))
                elif q < 0.53:
                    led.emit("analyze", npts=rng.choice([None, 20, 40]), check=True, fault=None)
                elif q < 0.59:
                    led.rebuild(tier)
                else:
                    led.emit("run", **dict(led.run_args(b, tier),
                                           fault=gen.pick_fault(rng, kinds, 0.3),
                                           crit=rng.random() < 0.7,
                                           spoil=rng.random() < 0.3))
            led.emit("run", **dict(led.run_args(0, tier), fault=None, crit=True))
            streams.append(led.ops)
        return {"ops": number(interleave(rng, streams)), "faults": kinds}

    def after_run(self, s, b, op, out, fired, snap):
        if out[0] == "err" and fired:
            return
        if gen.stability(s.d) is None:
            return
        if snap is not None:
            want = want_positions(s.d, b["veh"], op)
            got = snap["pos"]
            ok = len(got) == len(want) == len(snap["res"]) and \
                np.allclose(got, want, rtol=0, atol=1e-9)
            self.ctx.check(ok, "positions", f"positions {got} with {len(snap['res'])} results, "
                                            f"expected {want}")
            if self.ctx.violations:
                return
        elif not [p for p in want_positions(s.d, b["veh"], op)]:
            return
        self.ask_positions(s, b, op, out, snap, "traverse",
                           "a traverse differs from separate static analyses:")
        if snap is None or op["op"] == "static":
            return
        check_envelope(self.ctx, snap)
        if op.get("crit") and not self.ctx.violations:
            check_critical(self.ctx, b, s, op, s.env, snap)


# =========================================================================== C06
@scenario
class C06(BridgeOps):
    id = "C06"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.2 else SEAM_FAULTS + DRAW_FAULTS
        streams = []
        for c in range(rng.choice([1, 1, 2])):
            led = BridgeLedger(rng, c, c, **bswarm(rng))
            for _ in range(rng.randint(4, 6) if tier == "quick" else rng.randint(5, 10)):
                q = rng.random()
                if q < 0.15:
                    row = gen.load(rng, led.d)
                    led.d["LM"].append(row)
                    led.emit("load", row=row, how=rng.choice(["api", "raw"]))
                elif q < 0.2:
                    led.restr()
                elif q < 0.26:
                    led.newveh(0)
                elif q < 0.30:
                    led.rebuild(tier)
                elif q < 0.38:
                    led.emit("analyze", npts=rng.choice([None, 20, 40]), check=True, fault=None)
                elif q < 0.46:
                    led.emit("draw", b=0, fault=gen.pick_fault(rng, DRAW_FAULTS if kinds else [],
                                                               0.5),
                             pos=round(rng.uniform(0.02, 1.2) * led.span_len(), 4))
                elif q < 0.50:
                    a = led.run_args(0, tier, lane=0)
                    a["step"] = round(a["step"] * 2.5, 4)
                    save = rng.random() < 0.12
                    led.emit("anim", **dict(a, shear=None, dv=None, lane=None, clear=None,
                                            save=save, fault=gen.pick_fault(
                                                rng, (SEAM_FAULTS + DRAW_FAULTS if save
                                                      else SEAM_FAULTS) if kinds else [], 0.6)))
                elif q < 0.54:
                    R0 = list(led.d["R"])
                    if led.restr("mechanism"):
                        led.emit("run", **dict(led.run_args(0, tier), fault=None))
                        led.d["R"] = R0
                        led.emit("R", R=R0)
                elif q < 0.60:
                    led.emit("badrun", b=0, what=rng.choice(["step0", "clear", "neg", "shear"]),
                             a=led.run_args(0, tier, lane=0.5))
                elif q < 0.68:
                    led.emit("static", b=0, fault=gen.pick_fault(rng, SEAM_FAULTS, 0.4)
                             if kinds else None, dv=None, plot=rng.random() < 0.15,
                             pos=round(rng.uniform(0.02, 1.2) * led.span_len() + 0.00031, 5),
                             shear=rng.choice([None, [round(0.37 * led.span_len(), 4)]]))
                else:
                    a = led.run_args(0, tier)
                    pl = rng.random()
                    if pl < 0.12 and a["lane"] is None:
                        a["plot_all"] = True
                        a["step"] = round(a["step"] * 2.5, 4)
                    elif pl < 0.25:
                        a["plot_env"] = True
                    ks = kinds if (a.get("plot_all") or a.get("plot_env")) else \
                        [k for k in kinds if not k.startswith("draw")]
                    led.emit("run", **dict(a, fault=gen.pick_fault(rng, ks, 0.55)))
            led.emit("run", **dict(led.run_args(0, tier), fault=None))
            led.emit("analyze", npts=None, check=True, fault=None)
            streams.append(led.ops)
        return {"ops": number(interleave(rng, streams)), "faults": kinds}

    def _veh(self, b):
        v = b["o"].veh
        return [np.array(v.axs, float), np.array(v.axw, float), np.array(v.axle_coords, float),
                float(v.L), float(v.W), int(v.NoAxles)]

    def before_run(self, s, b, op):
        from . import world
        s.pre = [world.definition(s.obj), self._veh(b)]

    def _left_as_found(self, s, b, op, out, what):
        from . import world
        how = "" if out[0] == "ok" else f" (ended with {out[1]})"
        what = "an animation" if op["op"] == "anim" else what
        self.ctx.check(diff_exact(world.definition(s.obj), s.pre[0]), "bridge-changed",
                       f"{what}{how} changed the bridge model:")
        self.ctx.check(s.obj.shear_points is None or len(s.obj.shear_points) == 0,
                       "sections-left-armed", f"{what}{how} left shear sections armed")
        self.ctx.check(diff_exact(self._veh(b), s.pre[1]), "vehicle-changed",
                       f"{what}{how} changed the vehicle:")
        if out[0] == "err":
            self.ctx.stat("probe:ended-by-error")

    def after_run(self, s, b, op, out, fired, snap):
        import matplotlib.pyplot as plt
        plt.close("all")
        self._left_as_found(s, b, op, out, "a traverse")
        if fired or self.ctx.violations or gen.stability(s.d) is None:
            return
        if snap is None and not want_positions(s.d, b["veh"], op):
            return
        self.ask_positions(s, b, op, out, snap, "later-run",
                           "a run after earlier runs differs from separate analyses:")

    def op_draw(self, op):
        import matplotlib.pyplot as plt
        s, b = self.bridge(op)
        if s is None:
            return
        self.before_run(s, b, op)
        out, fired = self.ctx.call(op, lambda: b["o"].plot_static(op["pos"]))
        plt.close("all")
        self._left_as_found(s, b, op, out, "drawing a vehicle")

    def op_badrun(self, op):
        s, b = self.bridge(op)
        if s is None:
            return
        self.before_run(s, b, op)
        a = dict(op["a"])
        w = op["what"]

        def go():
            if w == "step0":
                return self._do(b, dict(a, step=0.0))
            if w == "clear":
                return b["o"].run_load_model(a["step"], 3.0, clearances=(1.0,),
                                             shear_points=[1.0])
            if w == "neg":  # a range that holds no position
                return b["o"].run_vehicle(a["step"], pos_start=5.0, pos_end=5.0 - 3 * a["step"],
                                          shear_points=[1.0])
            return b["o"].run_vehicle(a["step"], shear_points=["x"])

        out, _ = self.ctx.call(op, go)
        self._left_as_found(s, b, op, out, "a run that cannot start")

    def analyzed(self, s, op, out, fired, snap, d_try, before):
        if gen.stability(d_try) is None:
            return
        self.ask_static(d_try, True, [out[0], snap if out[0] == "ok" else out[1]],
                        "analysis-after-run",
                        "an analysis of the bridge after runs differs from a fresh model:")
