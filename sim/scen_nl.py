"""Nonlinear collapse histories: C11."""
from __future__ import annotations

import copy

import numpy as np

from . import gen
from .base import Scenario, interleave, number, scenario
from .core import diff_exact, digest, spoil

NL_FAULTS = ["num-memory", "num-interrupt", "alloc-memory", "alloc-interrupt"]
NL_LINE = ["line-interrupt", "line-memory"]


def nl_beam(rng):
    n = rng.choice([1, 1, 2, 2, 3])
    L = [gen.r2(rng.uniform(4.0, 10.0)) for _ in range(n)]
    if rng.random() < 0.4:
        L = [L[0]] * n
    R = []
    for j in range(n + 1):
        R += [-1, -1 if j in (0, n) and rng.random() < 0.5 else 0]
    if n == 1 and rng.random() < 0.2:
        R = [-1, -1, 0, 0]
    Mp = [gen.r2(rng.uniform(80, 300)) for _ in range(n)]
    return {"L": L, "EI": [float(round(rng.uniform(1e4, 5e4))) for _ in range(n)], "R": R,
            "Mp": Mp, "My": None if rng.random() < 0.5 else
            [gen.r2(m * rng.uniform(0.75, 0.95)) for m in Mp],
            "q": rng.choice([0.0, 0.0, 0.02, 0.1]),
            "mesh": round(sum(L) / rng.randint(4, 9), 3)}


def nl_args(rng, n, vehs):
    """Arguments of one analysis; loads scaled so that collapse is near factor 0.2-1."""
    Lm, Mp = max(n["L"]), min(n["Mp"])
    if rng.random() < 0.5:
        LM = []
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(len(n["L"]))
            if rng.random() < 0.5:
                LM.append([i + 1, 1, gen.r2(rng.uniform(10, 40) * Mp / Lm ** 2)])
            else:
                LM.append([i + 1, 2, gen.r2(rng.uniform(4, 24) * Mp / Lm),
                           gen.r2(n["L"][i] * rng.uniform(0.1, 0.9))])
        return {"kind": "static", "LM": LM, "lmax": rng.choice([0.3, 0.6, 0.9, 1.2]),
                "rec": rng.choice([0, 0, 7]), "share": rng.random() < 0.5}
    T = sum(n["L"])
    a = {"step": round(T / rng.randint(4, 10), 4), "n_sub": rng.choice([1, 2, 3]),
         "rec": rng.choice([0, 1, 3])}
    if rng.random() < 0.5 or not vehs:
        return dict(a, kind="P", P=gen.r2(rng.uniform(1.5, 14) * Mp / Lm))
    k = rng.choice(sorted(vehs))
    return dict(a, kind="veh", v=k, veh=vehs[k])


def near_args(rng, n, a, vehs):
    """The same analysis but for one argument."""
    a = copy.deepcopy(a)
    if a["kind"] == "static":
        q = rng.choice(["lmax", "rec", "LM", "LM", "swap"])
        if q == "lmax":
            a["lmax"] = rng.choice([0.3, 0.6, 0.9, 1.2])
        elif q == "rec":
            a["rec"] = rng.choice([0, 3, 7, 12])
        elif q == "swap":
            i = rng.randrange(len(a["LM"]))
            a["LM"][i][0] = rng.randint(1, len(n["L"]))
            if len(a["LM"][i]) > 3:
                a["LM"][i][3] = gen.r2(n["L"][a["LM"][i][0] - 1] * rng.uniform(0.1, 0.9))
        else:
            i = rng.randrange(len(a["LM"]))
            a["LM"][i][2] = gen.r2(a["LM"][i][2] * rng.choice([0.5, 0.8, 1.02, 1.5]))
        return a
    q = rng.choice(["step", "n_sub", "rec", "load", "load"])
    if q == "step":
        a["step"] = round(a["step"] * rng.choice([0.7, 0.9, 1.3]), 4)
    elif q == "n_sub":
        a["n_sub"] = a["n_sub"] % 3 + 1
    elif q == "rec":
        a["rec"] = rng.choice([x for x in (0, 1, 3) if x != a["rec"]])
    elif a["kind"] == "P":
        a["P"] = gen.r2(a["P"] * rng.choice([0.5, 0.8, 1.02, 1.5]))
    elif vehs:
        a["v"] = rng.choice(sorted(vehs))
        a["veh"] = vehs[a["v"]]
    return a


@scenario
class C11(Scenario):
    id = "C11"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.25 else list(NL_FAULTS)
        vehs = {}
        setup, streams = [], []
        for k in range(rng.randint(0, 2)):
            if vehs and rng.random() < 0.6:
                vehs[f"v{k}"] = v = gen.near_vehicle(rng, vehs["v0"])
                setup.append({"op": "veh", "c": 0, "v": f"v{k}", "veh": v})
                continue
            v = gen.vehicle(rng, 3)
            f = rng.uniform(0.5, 2)
            v["axw"] = [gen.r2(w * f) for w in v["axw"]]
            vehs[f"v{k}"] = v
            setup.append({"op": "veh", "c": 0, "v": f"v{k}", "veh": v})
        base, shared = nl_beam(rng), None
        for c in range(rng.choice([1, 2, 2, 3])):
            # beams of different clients are often equal or differ in one property
            n = copy.deepcopy(base) if rng.random() < 0.5 else nl_beam(rng)
            if rng.random() < 0.4:
                n["q"] = rng.choice([0.0, 0.05])
            if rng.random() < 0.3:
                n["Mp"] = [gen.r2(m * 1.3) for m in n["Mp"]]
                n["My"] = None
            if rng.random() < 0.2:
                i = rng.randrange(len(n["L"]))
                n["EI"][i] = float(round(n["EI"][i] * rng.choice([0.5, 1.1, 2.0])))
            q = rng.random()
            if q < 0.15 and len(n["L"]) > 1:
                n["R"][1] = -1 - n["R"][1]
            elif q < 0.35:  # the supports of the two ends change places
                n["R"][0:2], n["R"][-2:] = n["R"][-2:], n["R"][0:2]
            elif q < 0.42:
                n["mesh"] = round(n["mesh"] * rng.choice([0.6, 0.8, 1.3]), 3)
            m = f"n{c}"
            how = rng.choice(["list", "array", "reuse", "reuse"])
            ops = [{"op": "new", "c": c, "m": m, "n": n, "how": how}]
            pool = [nl_args(rng, n, vehs) for _ in range(rng.randint(1, 2))]
            if len(n["L"]) == len(base["L"]):  # the same request on several beams
                shared = shared or pool[:1]
                pool += copy.deepcopy(shared)
            for _ in range(rng.choice([0, 1, 1, 2])):
                pool.append(near_args(rng, n, rng.choice(pool), vehs))
            for _ in range(rng.randint(3, 5) if tier == "quick" else rng.randint(4, 9)):
                q = rng.random()
                a = rng.choice(pool)
                if q < 0.78:
                    fault = gen.pick_fault(rng, kinds, 0.35)
                    if fault is None and kinds and rng.random() < 0.1 and \
                            (a["kind"] != "static" or a["lmax"] <= 0.6):
                        fault = {"kind": rng.choice(NL_LINE), "frac": round(rng.random(), 4)}
                    ops.append({"op": "run", "c": c, "m": m, "a": a, "fault": fault,
                                "spoil": rng.random() < 0.25})
                    if fault and rng.random() < 0.7:
                        ops.append({"op": "run", "c": c, "m": m, "a": a, "fault": None})
                elif q < 0.88:
                    bad = rng.choice([{"kind": "bad", "LM": [[1, 2, 5.0]]},
                                      {"kind": "bad", "LM": [[len(n["L"]) + 2, 1, 5.0]]},
                                      {"kind": "noveh"}])
                    ops.append({"op": "reject", "c": c, "m": m, "a": bad})
                else:
                    ops.append({"op": "new", "c": c, "m": m, "n": n, "how": how})
                if rng.random() < 0.12:
                    ops.append({"op": "refill", "c": c, "f": round(rng.uniform(0.3, 1.6), 3)})
            ops.append({"op": "run", "c": c, "m": m, "a": rng.choice(pool), "fault": None})
            streams.append(ops)
        return {"ops": number(setup + interleave(rng, streams)), "faults": kinds}

    def __init__(self, ctx):
        super().__init__(ctx)
        self.held = []
        self.vehs = {}
        self.LM = []
        self.given = {}

    def _give(self, how):
        # the caller's own arrays; "reuse": one array, refilled for every beam
        def give(name, v):
            if how == "list" or name == "R" and how == "array":
                return list(v)
            key = (name, len(v))
            if how == "reuse" and key in self.given:
                self.given[key][:] = v
            else:
                self.given[key] = list(v) if name == "R" else np.array(v, float)
            return self.given[key]
        return give

    def op_refill(self, op):
        """The caller puts other numbers into the arrays it gave."""
        for (name, _), a in sorted(self.given.items()):
            a[:] = [0.0 if name == "R" else x * op["f"] for x in a]
        self._held()

    def op_veh(self, op):
        import pycba as cba
        out, _ = self.ctx.call(op, lambda: cba.Vehicle(list(op["veh"]["axs"]),
                                                       list(op["veh"]["axw"])))
        if out[0] == "ok":
            self.vehs[op["v"]] = out[1]

    def op_new(self, op):
        from . import world
        out, _ = self.ctx.call(op, lambda: world.build_nl(op["n"],
                                                          self._give(op.get("how", "list"))))
        if out[0] == "ok":
            self.s[op["m"]] = {"o": out[1], "n": copy.deepcopy(op["n"]), "broken": False}

    def _go(self, s, a, LM):
        from . import world
        if a["kind"] == "static":
            return s["o"].analyze(LM, lambda_max=a["lmax"], record_every=a["rec"])
        if a["kind"] == "veh" and a["v"] in self.vehs:
            return s["o"].analyze_moving(vehicle=self.vehs[a["v"]], step=a["step"],
                                         n_sub=a["n_sub"], record_every=a["rec"])
        return world.run_nl(s["o"], a)

    def op_run(self, op):
        from . import world
        s = self.slot(op)
        if s is None or (op["a"]["kind"] == "static" and
                         any(r[0] > len(s["n"]["L"]) for r in op["a"]["LM"])):
            return
        a = op["a"]
        LM = [list(r) for r in a["LM"]] if a["kind"] == "static" else None
        if LM is not None and a.get("share"):
            # the user keeps one list and refills it for every analysis
            self.LM[:] = LM
            LM = self.LM
        keep = copy.deepcopy(LM)
        out, fired = self.ctx.call(op, lambda: self._go(s, a, LM))
        if LM is not None:
            self.ctx.check(LM == keep, "loads-changed", "the load list was modified")
        if a["kind"] == "veh" and a["v"] in self.vehs:
            v = self.vehs[a["v"]]
            self.ctx.check(diff_exact([np.array(v.axs, float), np.array(v.axw, float)],
                                      [np.array(a["veh"]["axs"], float),
                                       np.array(a["veh"]["axw"], float)]),
                           "vehicle-changed", "the vehicle was modified:")
        if out[0] == "ok":
            snap = world.snap_nl(out[1])
            self.held.append((out[1], snap, op["i"]))
            self.ctx.log("nl", digest(snap))
            self.ctx.stat("probe:collapsed" if snap["collapsed"] else "probe:not-collapsed")
            self.ctx.query("nl", [s["n"], {k: v for k, v in a.items() if k != "v"}],
                           ["ok", snap], "independent",
                           "the analysis differs from a first one in a fresh process:",
                           mode="outcome", rtol=1e-9)
            if op.get("spoil"):
                self.held.pop()
                spoil(out[1])
        else:
            self.ctx.stat("probe:interrupted" if fired else "probe:refused")
            if not fired:
                self.ctx.query("nl", [s["n"], {k: v for k, v in a.items() if k != "v"}],
                               ["err", out[1]], "independent",
                               "the analysis fails:", mode="outcome")
        self._held()

    def op_reject(self, op):
        s = self.slot(op)
        if s is None:
            return
        a = op["a"]
        if a["kind"] == "bad":
            out, _ = self.ctx.call(op, lambda: s["o"].analyze([list(r) for r in a["LM"]]))
        else:
            out, _ = self.ctx.call(op, lambda: s["o"].analyze_moving())
        self._held()

    def _held(self):
        from . import world
        for r, snap, i in self.held:
            if not self.ctx.check(diff_exact(world.snap_nl(r), snap), "earlier-result-changed",
                                  f"the result of operation {i} changed:"):
                return
