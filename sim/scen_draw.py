"""Drawing and display settings: C14 C15."""
from __future__ import annotations

import copy
import re
import sys

import numpy as np

from . import drawing, gen
from .base import LINE_FAULTS, ModelLedger, ModelOps, interleave, number, results_ok, scenario
from .core import LineFault, SimInterrupt, arr, diff_close, diff_exact, digest, outcome
from .scen_bridge import DRAW_FAULTS
from .scen_nl import nl_args, nl_beam

ALLOC = ["alloc-memory", "alloc-interrupt", "num-memory"]
NAMES = sorted(drawing.ALIAS)


def plain(d):
    """Definitions the vibration analysis and influence lines accept."""
    return not any(isinstance(e, dict) for e in d["EI"]) and not d.get("GAv") and \
        not d.get("kf") and all(e == 1 for e in d["eletype"])


def gen_units(rng, p=0.5, bad=0.1):
    if rng.random() > p:
        return None
    q = rng.random()
    if q < bad:
        return {"raw": rng.choice(["furlongs", "kN", 5, "SI units"])}
    if q < bad + 0.15:
        return {"custom": rng.choice(sorted(drawing.CUSTOM))}
    return rng.choice(NAMES)


def gen_profile(rng, L, cant):
    e = lambda: gen.r2(rng.uniform(-0.3, 0.4))
    t = rng.choice(["Parabola", "Parabola", "Harp", "DoubleHarp"] +
                   ([] if cant else ["CompoundParabola"]))
    if t == "Parabola":
        a = dict(e_left=e(), e_mid=e(), e_right=e())
    elif t == "Harp":
        a = dict(e_left=e(), e_mid=e(), e_right=e(), a=gen.r2(L * rng.uniform(0.3, 0.7)))
    elif t == "DoubleHarp":
        a = dict(e_left=e(), e_1=e(), e_2=e(), e_right=e(), a=gen.r2(0.3 * L), b=gen.r2(0.7 * L))
    else:
        a = dict(e_left=e(), e_mid=e(), e_right=e(), a=gen.r2(0.1 * L), b=gen.r2(0.12 * L),
                 c=gen.r2(0.5 * L))
    return {"t": t, "a": a}


class DrawLedger(ModelLedger):
    def __init__(self, rng, m, c, **kw):
        super().__init__(rng, m, c, **kw)
        d = self.d
        self.T = sum(d["L"])
        self.springs = any(r > 0 for r in d["R"])
        self.have = {"ba", "lc", "env", "veh", "nl", "tendon"}
        self.emit("env", sets=self.sets())
        self.emit("lc", cases=[["g", [[i + 1, 1, 4.0 + i] for i in range(len(d["L"]))]],
                               ["q", [gen.load(rng, d)]]])
        self.newveh()
        nl = nl_beam(rng)
        nl["mesh"] = round(sum(nl["L"]) / 5, 3)
        self.nlspec = nl
        self.emit("nl", n=nl, a=self.nlrun())
        n = len(d["L"])
        self.emit("tendon", profiles=[
            None if rng.random() < 0.2 else gen_profile(rng, d["L"][i], i in (0, n - 1))
            for i in range(n)])
        secs = [e for e in d["EI"] if isinstance(e, dict)]
        if secs:
            self.have.add("section")
        if not self.springs and not d.get("kf"):
            self.have.add("il")
            self.emit("il", step=round(self.T / rng.randint(4, 7), 4))
        if plain(d):
            self.have.add("modal")
            self.emit("modal", mass=rng.choice([500.0, 1200.0]), n=3)
        self.have.add("br")
        self.emit("bridge", step=round(self.T / rng.randint(2, 4) + 0.0007, 4))

    def sets(self):
        return [[gen.load(self.rng, self.d)] for _ in range(self.rng.randint(1, 3))]

    def nlrun(self):
        a = nl_args(self.rng, self.nlspec, {})
        if a["kind"] == "static":
            a["lmax"], a["rec"] = 0.4, 3
        return a

    def newveh(self):
        self.veh = gen.near_vehicle(self.rng, self.veh) \
            if getattr(self, "veh", None) and self.rng.random() < 0.4 else gen.vehicle(self.rng)
        self.emit("veh", veh=self.veh)

    def draw(self, kinds, units=None, backend=None, fault=None, again=None):
        rng, d, T = self.rng, self.d, self.T
        k = rng.choice(kinds)
        if drawing.NEEDS.get(k, "ba") not in self.have:
            k = "beam"
        a = {"kind": k, "units": units, "backend": backend}
        if k in ("beam", "beam-loads", "case"):
            a["opts"] = rng.choice([{}, {}, {"dimensions": True}, {"labels": False},
                                    {"load_values": False}, {"color": "k"},
                                    {"equal_aspect": False}, {"show_supports": False}])
            a["rows"] = [gen.load(rng, d) for _ in range(rng.randint(0, 3))]
        elif k == "tikz":
            a["opts"] = rng.choice([{}, {"dimensions": False}, {"labels": False},
                                    {"load_values": False}, {"standalone": False},
                                    {"scale": 0.5}])
        elif k == "results":
            a["opts"] = rng.choice([{}, {}, {"show_beam": False}, {"show_reactions": False},
                                    {"show": False}])
        elif k in ("bmd", "sfd", "dsd"):
            a["twice"] = rng.random() < 0.3
        elif k == "il":
            i = rng.randrange(len(d["L"]))
            a["x"] = round(sum(d["L"][:i]) + d["L"][i] * rng.uniform(0.1, 0.9), 4)
            a["eff"] = rng.choice(["M", "V"])
        elif k == "lc-env":
            a["resp"] = rng.choice(["M", "V", "D"])
        elif k == "nl-history":
            a["moving"] = rng.random() < 0.4
        elif k == "static":
            a["x"] = round(rng.uniform(0.02, 1.1) * T, 4)
        elif k == "animate":
            a["step"] = round(T / 1.5 + 0.0003, 4)
        elif k == "tendon":
            a["force"] = gen.r2(rng.uniform(500, 2000))
        self.emit("draw", a=a, fault=fault,
                  again=rng.random() < 0.5 if again is None else again)


ALL = ["beam", "beam", "beam-loads", "case", "comb", "tikz", "results", "results", "reactions",
       "bmd", "sfd", "dsd", "env", "env-each", "coincidents", "il", "lc-env", "lc-pat", "modes",
       "modal", "nl-moments", "nl-history", "nl-state", "nl-collapse", "vehicle", "static",
       "b-env", "ratios", "tendon", "section", "section"]
WITH_UNITS = [k for k in ALL if k not in ("lc-env", "lc-pat", "section")]


def swarm(rng):
    return dict(max_spans=rng.choice([1, 2, 2, 3]), sections=rng.choice([0, 0, 0.6]),
                gav=rng.choice([0, 0, 0.3]), kf=rng.choice([0, 0, 0, 0.5]),
                springs=rng.choice([0, 0, 0.4]), settle=rng.choice([0, 0.2]),
                hinges=rng.choice([0, 0, 0.4]))


class DrawOps(ModelOps):
    """Executor: one kit of long-lived objects per model."""

    def made(self, s):
        s.K = drawing.Kit()
        s.K.ba = s.obj
        s.t = {}
        secs = [i for i, e in enumerate(s.d["EI"]) if isinstance(e, dict)]
        if secs:
            s.K.section = s.obj.beam.mbr_EIs[secs[0]]
            s.t["section"] = s.d["EI"][secs[0]]

    def _put(self, op, name, fn, t):
        s = self.slot(op)
        if s is None:
            return None
        out, _ = self.ctx.call(op, lambda: fn(s))
        if out[0] == "ok":
            setattr(s.K, name, out[1])
            s.t[name] = t(s)
        return out

    def op_env(self, op):
        self._put(op, "env", lambda s: drawing.make_env(s.d, op["sets"]),
                  lambda s: [copy.deepcopy(s.d), op["sets"]])

    def op_lc(self, op):
        s = self.slot(op)
        if s is None:
            return
        s.K.lc_x = sum(s.d["L"])
        self._put(op, "lc", lambda s: drawing.make_lc(s.obj, op["cases"]),
                  lambda s: copy.deepcopy(op["cases"]))

    def op_lcadd(self, op):
        s = self.slot(op)
        if s is None or s.K.lc is None:
            return
        out, _ = self.ctx.call(op, lambda: s.K.lc.add_load("q", list(op["row"])))
        if out[0] == "ok":
            s.t["lc"][1][1].append(list(op["row"]))

    def op_veh(self, op):
        import pycba as cba
        self._put(op, "veh", lambda s: cba.Vehicle(list(op["veh"]["axs"]),
                                                   list(op["veh"]["axw"])),
                  lambda s: copy.deepcopy(op["veh"]))
        s = self.slot(op)
        if s is not None and s.K.br is not None and s.K.veh is not None:
            s.K.br.set_vehicle(s.K.veh)

    def op_reverse(self, op):
        s = self.slot(op)
        if s is None or s.K.veh is None:
            return
        out, _ = self.ctx.call(op, lambda: s.K.veh.reverse())
        if out[0] == "ok":
            v = s.t["veh"]
            s.t["veh"] = {"axs": v["axs"][::-1], "axw": v["axw"][::-1]}

    def op_nl(self, op):
        from . import world
        self._put(op, "nl", lambda s: world.run_nl(world.build_nl(op["n"]), op["a"]),
                  lambda s: {"n": op["n"], "a": op["a"]})

    def op_tendon(self, op):
        self._put(op, "tendon", lambda s: [None if p is None else drawing.profile(p)
                                           for p in op["profiles"]], lambda s: op["profiles"])

    def op_il(self, op):
        from . import world

        def go(s):
            il = world.build_il(s.d)
            il.create_ils(op["step"])
            return il
        self._put(op, "il", go, lambda s: {"d": copy.deepcopy(s.d), "step": op["step"]})

    def op_modal(self, op):
        self._put(op, "modal", lambda s: s.obj.modal(op["mass"], n_modes=op["n"]),
                  lambda s: {"d": copy.deepcopy(s.d), "mass": op["mass"], "n": op["n"]})

    def op_bridge(self, op):
        import pycba as cba
        s = self.slot(op)
        if s is None or s.K.veh is None:
            return

        def go():
            br = cba.BridgeAnalysis(s.obj, s.K.veh)
            return br, br.run_vehicle(op["step"])

        out, _ = self.ctx.call(op, go)
        if out[0] == "ok":
            s.K.br, s.K.benv = out[1]
            s.pos = s.K.br.pos
            s.t["br"] = {"run": {"d": copy.deepcopy(s.d), "veh": copy.deepcopy(s.t["veh"]),
                                 "step": op["step"]}}
            self._moved(s)

    def _moved(self, s):
        """An analysis outside the ledger replaced the results."""
        from . import world
        br = s.obj.beam_results
        s.res = None if br is None else world.snap(br)
        s.resdef = None

    def analyzed(self, s, op, out, fired, snap, d_try, before):
        if out[0] == "err":
            s.d["npts"] = s.obj.npts
        self.ctx.check(results_ok(s), "results-changed", f"an analysis ended {out[0]}:") \
            if out[0] == "err" else None

    # ---------------------------------------------------------------- state
    def state(self, s, results=True):
        from . import world
        K = s.K
        st = {"def": world.definition(s.obj),
              "sp": s.obj.shear_points is None}
        if results:
            st["res"] = None if s.obj.beam_results is None else world.snap(s.obj.beam_results)
        if K.env is not None:
            st["env"] = world.snap_env(K.env)
        if K.lc is not None:
            st["lc"] = [[c.name, world.norm_LM(c.to_LM()), repr(c.metadata)] for c in K.lc]
        if K.veh is not None:
            v = K.veh
            st["veh"] = [arr(v.axs), arr(v.axw), arr(v.axle_coords), float(v.L), float(v.W),
                         int(v.NoAxles)]
        if K.nl is not None:
            st["nl"] = world.snap_nl(K.nl)
        if K.modal is not None:
            st["modal"] = world.snap_modal(K.modal)
        if K.il is not None:
            st["il"] = [arr(K.il.pos), [world.snap(r) for r in K.il.vResults]]
        if K.tendon is not None:
            st["tendon"] = [repr(p) for p in K.tendon]
        if K.br is not None:
            st["benv"] = world.snap_env(K.benv)
            if results:
                st["pos"] = arr(K.br.pos)
                st["vres"] = [world.snap(r) for r in K.br.vResults]
        return st

    # ---------------------------------------------------------------- drawing
    def spec_of(self, s, a):
        """Definitions from which a pristine process can make the same drawing."""
        k = a["kind"]
        need = drawing.NEEDS.get(k)
        t = {"d": copy.deepcopy(s.d), "res": None}
        if k in ("results", "reactions", "bmd", "sfd", "dsd"):
            if s.resdef is None:
                return None
            t["res"] = copy.deepcopy(s.resdef)
        if need and need not in s.t:
            return None
        if need and need != "br":
            t[need] = s.t[need]
        if k == "nl-state":
            t["veh"] = s.t["veh"]
        if need == "br":
            t["br"] = {"veh": s.t["veh"]}
            if k in ("b-env", "ratios"):
                if s.K.br.pos is not s.pos:     # a later traverse (animation) moved the bridge on
                    return None
                t["br"]["run"] = s.t["br"]["run"]
        return t

    def usable(self, s, a):
        k = a["kind"]
        if getattr(s.K, drawing.NEEDS.get(k, "ba"), None) is None:
            return False
        if k in ("nl-state",) and s.K.veh is None:
            return False
        if any(r[0] > len(s.d["L"]) for r in a.get("rows") or []):
            return False
        return True

    def perform(self, s, a, fault, units=None):
        """One drawing call -> (outcome with shown data, fired, error)."""
        import os
        import matplotlib.pyplot as plt
        if drawing.NEEDS.get(a["kind"]) == "br":
            s.K.br.set_bridge(s.obj)
        path = os.path.join(self.ctx.scratch, "anim.gif")
        keep = copy.deepcopy(a)
        plt.close("all")
        style = dict(plt.rcParams)
        try:
            if fault and fault["kind"] == "no-plotly":
                saved = {m: sys.modules.get(m) for m in PLOTLY}
                try:
                    for m in PLOTLY:
                        sys.modules[m] = None
                    out = outcome(lambda: drawing.draw(s.K, a, path))
                finally:
                    for m, v in saved.items():
                        sys.modules[m] = v
                fired = out[0] == "err"
                if fired:
                    self.ctx.fault_fired("no-plotly")
                self.ctx.sig.append(f"draw!{a['kind']}:{out[0]}")
                self.ctx.log("op", self.ctx.iop, "draw", a["kind"], out[0])
            else:
                out, fired = self.ctx.call(
                    {"op": "draw-" + a["kind"], "c": 0, "fault": fault},
                    lambda: drawing.draw(s.K, a, path))
            data = drawing.shown(out[1]) if out[0] == "ok" else None
        finally:
            plt.close("all")
        self.ctx.check(a == keep, "input-changed",
                       f"drawing '{a['kind']}' changed the arguments it was given")
        now = dict(plt.rcParams)
        self.ctx.check(now == style, "setting-leaked",
                       f"drawing '{a['kind']}' (ended {out[0]}) changed matplotlib's own settings "
                       f"{sorted(k for k in now if now[k] != style.get(k))[:4]}")
        return out, fired, data


PLOTLY = ["plotly.graph_objects", "plotly.subplots", "plotly.graph_objs"]


# =========================================================================== C15
@scenario
class C15(DrawOps):
    id = "C15"
    real = "pycba (all modules), numpy, scipy, matplotlib (Agg), plotly, Pillow"
    stub = "the screen (figures are inspected, not displayed); pauses use the simulated clock"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.2 else rng.sample(DRAW_FAULTS + ALLOC + LINE_FAULTS,
                                                         rng.randint(2, 5))
        streams = []
        for c in range(rng.choice([1, 1, 2])):
            led = DrawLedger(rng, c, c, **swarm(rng))
            led.analyze()
            n = rng.randint(5, 8) if tier == "quick" else rng.randint(7, 14)
            pool = rng.sample(ALL, rng.randint(4, 12)) if rng.random() < 0.6 else list(ALL)
            if rng.random() < 0.1:
                pool = pool + ["animate"]
            for _ in range(n):
                q = rng.random()
                if q < 0.08:
                    led.load()
                elif q < 0.12:
                    led.loads()
                elif q < 0.16:
                    led.restr()
                elif q < 0.18:
                    led.disp()
                elif q < 0.27:
                    led.analyze(npts=rng.choice([None, None, 20, 40]))
                elif q < 0.30:
                    led.emit("lcadd", row=gen.load(rng, led.d))
                elif q < 0.34:
                    if rng.random() < 0.6:
                        led.emit("reverse")
                    else:
                        led.newveh()
                elif q < 0.37:
                    led.emit("env", sets=led.sets())
                elif q < 0.39:
                    led.emit("nl", n=led.nlspec, a=led.nlrun())
                fault = gen.pick_fault(rng, kinds, 0.4)
                led.draw(pool, units=gen_units(rng, 0.3, 0.05),
                         backend=rng.choice([None, None, "matplotlib", "plotly"]), fault=fault)
            led.analyze()
            streams.append(led.ops)
        return {"ops": number(interleave(rng, streams)), "faults": kinds}

    def op_draw(self, op):
        from . import world
        s = self.slot(op)
        if s is None or not self.usable(s, op["a"]):
            return
        ctx, a = self.ctx, op["a"]
        runs = a["kind"] in drawing.ANALYSES
        pre = self.state(s, not runs)
        out, fired, data = self.perform(s, a, op.get("fault"))
        ctx.check(diff_exact(self.state(s, not runs), pre), "drawing-changed",
                  f"drawing '{a['kind']}' (ended {out[0]}) changed the model, its results or the "
                  f"things drawn:")
        if runs:
            self._moved(s)
        ctx.stat("probe:draw-" + a["kind"])
        if op["again"] and not ctx.violations:
            out2, _, data2 = self.perform(s, a, None)
            ctx.check(diff_exact(self.state(s, not runs), pre), "drawing-changed",
                      f"drawing '{a['kind']}' a second time changed the model:")
            if runs:
                self._moved(s)
            if data is not None:
                ctx.check(out2[0] == "ok", "drawing-differs",
                          f"'{a['kind']}' was drawn once, the second time raised {out2[1]}")
                if data2 is not None:
                    ctx.check(diff_exact(data2, data), "drawing-differs",
                              f"the second '{a['kind']}' of the same state shows other data:")
                    ctx.stat("probe:drawn-twice")
            out, fired, data = out2, False, data2
        if fired or ctx.violations:
            return
        t = self.spec_of(s, a)
        if t is None:
            return
        ctx.query("draw", [t, dict(a, units="si" if a["units"] is None else a["units"],
                                   backend=a["backend"] or "matplotlib")],
                  ["ok", data] if out[0] == "ok" else ["err", out[1]], "drawing-differs",
                  f"drawing '{a['kind']}' differs from that of an equal, never drawn model:",
                  mode="figure")

    def analyzed(self, s, op, out, fired, snap, d_try, before):
        super().analyzed(s, op, out, fired, snap, d_try, before)
        self.ask_static(d_try, True, ["ok", snap] if out[0] == "ok" else ["err", out[1]],
                        "analysis-after-drawing",
                        "an analysis differs from that of a model that was never drawn:")


# =========================================================================== C14
LABEL = re.compile(r"^(?:Coincident )?(Bending Moment|Shear Force|Deflection|Distance along beam|"
                   r"Position of Front Axle|Position along vehicle|Front axle position|"
                   r"Reaction \d+|Reactions \[m..\])(?: \((.*)\))?$")
TOKEN = re.compile(r"(?<![A-Za-z·/])(kNm|N·mm|kip·ft|kip·in|MN·dm|kN/m|N/mm|kip/ft|kip/in|MN/dm|"
                   r"kN|kip|MN|tonf)(?![A-Za-z·/])")


def label_error(text, sys_):
    m = LABEL.match(text)
    if not m:
        return None
    force, length, moment, _, disp, _ = sys_
    q, u = m.group(1), m.group(2) or ""
    if q == "Bending Moment":
        want = moment
    elif q == "Shear Force":
        want = force
    elif q == "Deflection":
        want = disp
    elif q.startswith("Reaction"):
        want = f"{force}/{moment}" if force and moment else ""
    else:
        want = length
    return None if u == want else f"label {text!r} for units {want!r}"


def labels(data):
    """(axis labels, other texts) of a drawing."""
    ax, tx = [], []
    for f in data["figs"]:
        for a in f["axes"]:
            ax += [a["xl"], a["yl"]]
            tx += [t[0] for t in a["texts"]] + [a["t"]]

    def walk(o):
        if isinstance(o, dict):
            for k, v in o.items():
                if k == "title" and isinstance(v, dict) and isinstance(v.get("text"), str):
                    ax.append(v["text"])
                elif k == "hovertemplate" and isinstance(v, str):
                    tx.append(v.replace("<extra></extra>", ""))
                else:
                    walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)

    walk(data.get("plotly") or {})
    if "text" in data:
        tx.append(data["text"])
    return ax, tx


@scenario
class C14(DrawOps):
    id = "C14"
    real = "pycba (all modules), numpy, scipy, matplotlib (Agg), plotly"
    stub = "the screen; a missing plotly is simulated at import"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.2 else rng.sample(
            DRAW_FAULTS + ALLOC + LINE_FAULTS + ["no-plotly"] * 2, rng.randint(2, 5))
        streams = []
        for c in range(rng.choice([1, 1, 2])):
            led = DrawLedger(rng, c, c, **swarm(rng))
            led.analyze()
            pool = rng.sample(WITH_UNITS, rng.randint(4, 12)) if rng.random() < 0.6 else \
                list(WITH_UNITS)
            pool += list(drawing.BACKENDED)
            for _ in range(rng.randint(8, 12) if tier == "quick" else rng.randint(10, 22)):
                q = rng.random()
                if q < 0.2:
                    led.emit("units", u=gen_units(rng, 1.0, 0.25),
                             fault=gen.pick_fault(rng, [k for k in kinds if "line" in k], 0.3))
                elif q < 0.34:
                    led.emit("backend", b=rng.choice(
                        ["plotly", "matplotlib", "Plotly", "bokeh", "MATPLOTLIB", "", {"raw": 5}]),
                        fault={"kind": "no-plotly"} if "no-plotly" in kinds and rng.random() < 0.4
                        else gen.pick_fault(rng, [k for k in kinds if "line" in k], 0.3))
                elif q < 0.38:
                    led.load()
                elif q < 0.45:
                    led.analyze(npts=rng.choice([None, 20]))
                elif q < 0.55:
                    led.emit("numbers", x=round(rng.uniform(0.05, 0.95) * led.T, 4))
                else:
                    led.draw(pool, units=gen_units(rng, 0.5, 0.12),
                             backend=rng.choice([None, None, None, "matplotlib", "plotly",
                                                 "Plotly", "bokeh"]),
                             fault=gen.pick_fault(rng, kinds, 0.35), again=rng.random() < 0.3)
            led.analyze()
            led.emit("numbers", x=round(0.4 * led.T, 4))
            streams.append(led.ops)
        return {"ops": number(interleave(rng, streams)), "faults": kinds}

    def __init__(self, ctx):
        super().__init__(ctx)
        self.u, self.b = "si", "matplotlib"

    def run(self):
        for i, op in enumerate(self.ctx.spec["ops"]):
            self.ctx.iop = op.get("i", i)
            getattr(self, "op_" + op["op"])(op)
            self.globals(op["op"])
            if self.ctx.violations:
                return

    def globals(self, what):
        import pycba as cba
        g, w = cba.get_units(), drawing.system(self.u)
        got = (g.force, g.length, g.moment, g.distributed, g.disp_label, float(g.disp_scale))
        self.ctx.check(got == w, "setting-leaked",
                       f"after '{what}' the global units are {got}, set were {w}")
        self.ctx.check(cba.get_backend() == self.b, "setting-leaked",
                       f"after '{what}' the backend is {cba.get_backend()!r}, set was {self.b!r}")

    def op_units(self, op):
        import pycba as cba
        new = drawing.system(op["u"]) is not None
        out, fired = self.ctx.call(op, lambda: cba.set_units(drawing.units_arg(op["u"])))
        if out[0] == "ok":
            self.ctx.check(new, "bad-setting-accepted", f"units {op['u']} were accepted")
            self.u = op["u"] if new else self.u
            if new:
                self.ctx.check(out[1] == cba.get_units(), "setting-leaked",
                               "set_units returned another system than it set")
        else:
            self.ctx.check(fired or not new, "setting-rejected",
                           f"units {op['u']} were rejected: {out[2]}")
            if fired and new:      # an interrupted setting may have happened or not
                g = cba.get_units()
                if (g.force, g.length, g.moment, g.distributed, g.disp_label,
                        float(g.disp_scale)) == drawing.system(op["u"]):
                    self.u = op["u"]
            self.ctx.stat("probe:setting-rejected")

    def op_backend(self, op):
        import pycba as cba
        b = op["b"]["raw"] if isinstance(op["b"], dict) else op["b"]
        ok = isinstance(b, str) and b.lower() in ("matplotlib", "plotly")
        if op.get("fault") and op["fault"]["kind"] == "no-plotly":
            saved = {m: sys.modules.get(m) for m in PLOTLY}
            try:
                for m in PLOTLY:
                    sys.modules[m] = None
                out = outcome(lambda: cba.set_backend(b))
            finally:
                for m, v in saved.items():
                    sys.modules[m] = v
            fired = ok and b.lower() == "plotly"
            if fired:
                self.ctx.fault_fired("no-plotly")
            self.ctx.log("op", self.ctx.iop, "backend", out[0])
            self.ctx.check(not fired or out[0] == "err", "bad-setting-accepted",
                           "the plotly backend was accepted without plotly")
        else:
            out, fired = self.ctx.call(op, lambda: cba.set_backend(b))
        if out[0] == "ok":
            self.ctx.check(ok, "bad-setting-accepted", f"backend {b!r} was accepted")
            if ok:
                self.b = b.lower()
        else:
            self.ctx.check(fired or not ok, "setting-rejected", f"backend {b!r} was rejected")
            if fired and ok and op["fault"]["kind"] != "no-plotly":
                self.b = cba.get_backend() if cba.get_backend() in (self.b, b.lower()) else self.b
            self.ctx.stat("probe:setting-rejected")

    def op_draw(self, op):
        s = self.slot(op)
        if s is None or not self.usable(s, op["a"]):
            return
        ctx, a = self.ctx, op["a"]
        runs = a["kind"] in drawing.ANALYSES
        eff = a["units"] if a["units"] is not None else self.u
        back = a["backend"] or self.b
        out, fired, data = self.perform(s, a, op.get("fault"))
        self.globals("draw " + a["kind"])
        if op["again"]:
            out, fired, data = self.perform(s, a, None)
        if runs:
            self._moved(s)
        if fired:
            ctx.stat("probe:draw-failed")
            return
        ctx.stat("probe:override" if a["units"] is not None else "probe:global")
        t = self.spec_of(s, a)
        if t is not None:
            ctx.query("draw", [t, dict(a, units=eff, backend=back)],
                      ["ok", data] if out[0] == "ok" else ["err", out[1]], "presentation",
                      f"'{a['kind']}' with units {eff} and backend {back} is drawn differently in a "
                      f"fresh process with these settings given explicitly:", mode="figure")
        w = drawing.system(eff)
        if data is None:
            return
        ctx.check(w is not None, "bad-setting-accepted", f"drawing accepted units {eff}")
        if w is None:
            return
        if a["kind"] in drawing.BACKENDED and s.obj.beam_results is not None:
            ctx.check(("plotly" in data) == (back.lower() == "plotly"), "wrong-backend",
                      f"'{a['kind']}' was not drawn with {back}")
        ax, tx = labels(data)
        for x in ax:
            ctx.check(label_error(x, w), "wrong-units", f"'{a['kind']}' drawn with {eff}:")
        for x in tx:
            for tok in TOKEN.findall(x):
                ctx.check(tok in w[:4], "wrong-units",
                          f"'{a['kind']}' drawn with {eff} shows {tok!r} in {x[:80]!r}")
        if a["kind"] == "dsd" and "plotly" not in data and not a.get("twice") and data["figs"]:
            x, y = s.obj.beam_results.deflection_curve()
            got = data["figs"][0]["axes"][0]["lines"][-1]
            ctx.check(diff_close(got[1], np.asarray(y) * w[5], 1e-9, 1e-12), "wrong-units",
                      f"deflections drawn with {eff} are not scaled by {w[5]}:")
        ctx.stat("probe:labels-read", len(ax))

    def op_numbers(self, op):
        """Numbers read and exported do not depend on any display setting."""
        import io
        s = self.slot(op)
        if s is None or s.obj.beam_results is None or s.resdef is None:
            return

        def go():
            return numbers(s.obj, op["x"])

        out, _ = self.ctx.call(op, go)
        if out[0] == "ok":
            self.ctx.log("numbers", digest(out[1]))
        self.ctx.query("numbers", [copy.deepcopy(s.resdef), op["x"]],
                       ["ok", out[1]] if out[0] == "ok" else ["err", out[1]], "numbers-changed",
                       "numbers differ from those of a process with default display settings:",
                       mode="outcome", rtol=1e-7, floor={"*": 1e-9})

    def analyzed(self, s, op, out, fired, snap, d_try, before):
        super().analyzed(s, op, out, fired, snap, d_try, before)
        self.ask_static(d_try, True, ["ok", snap] if out[0] == "ok" else ["err", out[1]],
                        "numbers-changed",
                        "an analysis differs from one in a process with default settings:")


def numbers(ba, x):
    import io
    br = ba.beam_results
    buf = io.StringIO()
    br.to_csv(buf)
    lines = buf.getvalue().strip().split("\n")
    df = br.to_dataframe()
    at = br.at(x)
    if hasattr(at, "_asdict"):
        at = at._asdict()
    elif hasattr(at, "__dict__"):
        at = vars(at)
    return {"csv": [float(v) for ln in lines[1:] for v in ln.split(",")],
            "head": lines[0], "df": [np.asarray(df[c], float) for c in df.columns],
            "cols": [str(c) for c in df.columns],
            "at": {str(k): float(v) for k, v in dict(at).items()},
            "curve": [np.asarray(v, float) for v in br.deflection_curve()]}


def o_numbers(d, x):
    from . import world

    def go():
        ba = world.build(d)
        ba.npts = d["npts"]
        ba.analyze()
        return numbers(ba, x)

    return world.result(go)


from .world import ORACLES  # noqa: E402

ORACLES["numbers"] = o_numbers
