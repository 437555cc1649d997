"""Scenario base class and the model-history machinery shared by scenarios."""
from __future__ import annotations

import copy

import numpy as np

from . import gen
from .core import diff_exact, digest

SEAM_FAULTS = ["linalg", "num-memory", "num-interrupt", "alloc-memory", "alloc-interrupt"]
LINE_FAULTS = ["line-interrupt", "line-memory"]

REGISTRY = {}


def scenario(cls):
    REGISTRY[cls.id] = cls
    return cls


class Slot:
    """Ledger entry of one model: what the harness knows it must be."""

    def __init__(self, obj, d):
        self.obj = obj
        self.d = d
        self.res = None       # bit-exact snapshot of the last completed results
        self.resdef = None


class Scenario:
    id = ""
    real = "pycba (all modules), numpy, scipy"
    stub = "none"

    # -------- generation (static; never touches pycba)
    @classmethod
    def gen(cls, rng, tier):
        raise NotImplementedError

    # -------- execution
    def __init__(self, ctx):
        self.ctx = ctx
        self.s = {}

    def run(self):
        for i, op in enumerate(self.ctx.spec["ops"]):
            self.ctx.iop = op.get("i", i)
            f = getattr(self, "op_" + op["op"], None)
            if f is None:
                from .core import HarnessError
                raise HarnessError("unknown op " + op["op"])
            f(op)
            if self.ctx.violations:
                return
        self.ctx.iop = 10 ** 6
        self.finish()

    def finish(self):
        pass

    def slot(self, op):
        return self.s.get(op["m"])


def number(ops):
    for i, o in enumerate(ops):
        o["i"] = i
    return ops


def interleave(rng, streams):
    """Seeded interleaving of several clients' operation streams."""
    out = []
    streams = [list(s) for s in streams]
    while any(streams):
        live = [s for s in streams if s]
        s = rng.choice(live)
        for _ in range(rng.randint(1, 3)):
            if s:
                out.append(s.pop(0))
    return out


class ModelLedger:
    """Generator-side symbolic state of one model."""

    def __init__(self, rng, m, c, **kw):
        self.rng, self.m, self.c = rng, m, c
        self.kw = kw
        self.d = gen.beam(rng, **kw)
        self.ops = [{"op": "new", "c": c, "m": m, "d": copy.deepcopy(self.d)}]

    def emit(self, op, **kw):
        o = {"op": op, "c": self.c, "m": self.m}
        o.update(kw)
        self.ops.append(o)
        return o

    def stable(self):
        return gen.stability(self.d)

    # edits ---------------------------------------------------------------
    def load(self):
        row = gen.load(self.rng, self.d)
        self.d["LM"].append(row)
        self.emit("load", row=row, how=self.rng.choice(["api", "api", "raw"]))

    def loads(self):
        if self.rng.random() < 0.45:
            LM = gen.near_loads(self.rng, self.d, self.d["LM"])
        else:
            LM = [gen.load(self.rng, self.d) for _ in range(self.rng.randint(0, 3))]
        self.d["LM"] = [list(r) for r in LM]
        self.emit("loads", LM=LM)

    def restr(self, want="stable"):
        R = None
        if want == "stable" and self.rng.random() < 0.4:
            R = gen.near_R(self.rng, self.d)
        if R is None:
            R = gen.restraint_edit(self.rng, self.d, want)
        if R is None:
            return False
        self.d["R"] = R
        self.emit("R", R=R)
        return True

    def disp(self):
        D = gen.near_D(self.rng, self.d) if self.rng.random() < 0.4 else None
        if D is None:
            D = gen.disp_edit(self.rng, self.d)
        if D is None:
            return False
        self.d["D"] = D
        self.emit("D", D=D)
        return True

    def poison(self):
        """A load the next analysis must refuse; returns an undo."""
        q = self.rng.random()
        d = self.d
        LM = [list(r) for r in d["LM"]]
        bad = None
        kfs = [i for i, k in enumerate(d.get("kf") or []) if k is not None]
        sp = [i for i, r in enumerate(d["R"]) if r > 0]
        if kfs and q < 0.6:
            bad = [self.rng.choice(kfs) + 1, 4, 10.0, 1.0]
        elif q < 0.5:
            bad = {"t": [1, 1, 5.0]}
        elif q < 0.7:
            bad = [1, 2, 50.0]          # point load without a position
        else:
            bad = [len(d["L"]) + 3, 6, 1e-3]  # curvature on a span that does not exist
        self.emit("load", row=bad, how="raw")
        return LM

    def undo(self, LM):
        self.d["LM"] = [list(r) for r in LM]
        self.emit("loads", LM=[list(r) for r in LM])

    def analyze(self, fault=None, npts=None, check=True):
        if npts and npts > 3 and not fault:
            self.d["npts"] = npts
        self.emit("analyze", npts=npts, check=check, fault=fault)


def results_ok(slot):
    """diff string when the model's results are not the ledger's, else None."""
    from . import world
    br = slot.obj.beam_results
    if br is None:
        return None if slot.res is None else " results disappeared"
    if slot.res is None:
        return " results appeared"
    return diff_exact(world.snap(br), slot.res)


class ModelOps(Scenario):
    """Executor of the model operations with an exact ledger."""

    def op_new(self, op):
        from . import world
        d = copy.deepcopy(op["d"])

        def go():
            ba = world.build(d)
            return ba

        out, _ = self.ctx.call({k: v for k, v in op.items() if k != "fault"}, go)
        if out[0] == "ok":
            s = Slot(out[1], d)
            if d["npts"] != 100:
                s.obj.npts = d["npts"]
            self.s[op["m"]] = s
            self.made(s)

    def made(self, s):
        pass

    def op_load(self, op):
        from . import world
        s = self.slot(op)
        if s is None:
            return
        row = op["row"]
        if isinstance(row, list) and isinstance(row[0], int) and row[0] <= len(s.d["L"]) \
                and len(row) > 3 and row[1] in (2, 4) and row[3] > s.d["L"][row[0] - 1]:
            return
        out, _ = self.ctx.call(op, lambda: world.apply_load(s.obj, row, op["how"]))
        if out[0] == "ok":
            s.d["LM"].append(copy.deepcopy(row) if isinstance(row, list) else tuple(row["t"]))
        self.after_edit(s, op)

    def op_loads(self, op):
        s = self.slot(op)
        if s is None:
            return
        LM = [list(r) for r in op["LM"]]
        out, _ = self.ctx.call(op, lambda: s.obj.set_loads([list(r) for r in LM]))
        if out[0] == "ok":
            s.d["LM"] = LM
        self.after_edit(s, op)

    def op_R(self, op):
        from . import world
        s = self.slot(op)
        if s is None or len(op["R"]) != len(s.d["R"]):
            return

        def go():
            s.obj.beam.restraints = world.shape_R(s.d, op["R"])

        out, _ = self.ctx.call(op, go)
        if out[0] == "ok":
            s.d["R"] = list(op["R"])
        self.after_edit(s, op)

    def op_D(self, op):
        from . import world
        s = self.slot(op)
        if s is None or len(op["D"]) != len(s.d["R"]):
            return

        def go():
            s.obj.beam.prescribed_displacements = world.shape_D(s.d, op["D"])

        out, _ = self.ctx.call(op, go)
        if out[0] == "ok":
            s.d["D"] = list(op["D"])
        self.after_edit(s, op)

    def op_analyze(self, op):
        from . import world
        s = self.slot(op)
        if s is None:
            return
        kw = {} if op.get("check", True) else {"check_stability": False}
        npts = op.get("npts")
        before = s.d["npts"]
        d_try = dict(copy.deepcopy(s.d))
        if npts and npts > 3:
            d_try["npts"] = npts
        out, fired = self.ctx.call(op, lambda: s.obj.analyze(npts, **kw) if npts else
                                   s.obj.analyze(**kw))
        snap = None
        if out[0] == "ok":
            s.d["npts"] = d_try["npts"]
            snap = world.snap(s.obj.beam_results)
            s.res, s.resdef = snap, d_try
            self.ctx.log("res", digest(snap))
        elif fired and op["fault"]["kind"].startswith("line"):
            # an interrupt at one of the last lines may land while the outcome is being
            # published: the count is then the old or the new one, whichever is shown
            got = int(s.obj.npts)
            if got in (before, d_try["npts"]):
                s.d["npts"] = got
        self.analyzed(s, op, out, fired, snap, d_try, before)
        if fired and out[0] == "err" and op["fault"]["kind"].startswith("line"):
            br = s.obj.beam_results     # the new results may have been published (C02)
            if br is not None and results_ok(s) is not None:
                s.res, s.resdef = world.snap(br), None

    def analyzed(self, s, op, out, fired, snap, d_try, before):
        pass

    def after_edit(self, s, op):
        pass

    # ---- the standard query: a new model with this definition
    def ask_static(self, d, check, observed, cls, msg):
        from . import world
        F = 1e-9 * gen.fscale({"LM": [r for r in d["LM"] if isinstance(r, list)],
                               "L": d["L"]})
        fl = {"*": F, "x": 1e-9, "D": 1e-11, "rot": 1e-11, "d": 1e-11}
        self.ctx.query("static", [d, check], observed, cls, msg, floor=fl, mode="outcome")
