"""Results handed out earlier never change: C04."""
from __future__ import annotations

import copy

import numpy as np

from . import gen
from .base import LINE_FAULTS, SEAM_FAULTS, interleave, number, scenario
from .core import diff_close, diff_exact, digest
from .scen_bridge import DRAW_FAULTS, BridgeLedger, BridgeOps, bswarm
from .scen_nl import near_args, nl_args, nl_beam

PLOTS = ["results", "beam", "reactions", "env", "static", "il", "modal", "bmd-plotly", "vehicle",
         "coincident"]


def take(o):
    """A copy of every number reachable in a handed-out object."""
    import pycba as cba
    from . import world

    if isinstance(o, cba.BeamResults):
        return world.snap(o)
    if isinstance(o, cba.Envelopes):
        return world.snap_env(o)
    if type(o).__name__ == "NonlinearResult":
        return world.snap_nl(o)
    if type(o).__name__ == "ModalResults":
        return world.snap_modal(o)
    if isinstance(o, cba.BeamAnalysis):
        return {"def": world.definition(o), "res": world.snap(o.beam_results)}
    if isinstance(o, np.ndarray):
        return np.array(o, copy=True)
    if isinstance(o, dict):
        return {str(k): take(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [take(v) for v in o]
    if type(o).__name__ == "DataFrame":
        return {str(c): np.array(o[c], copy=True) for c in o.columns}
    return o


def reading(o, f, m):
    """What a held object says when it is asked (a fresh computation from its numbers)."""
    import pycba as cba
    if isinstance(o, cba.BeamResults):
        x = f * float(o.results.x[-1])
        c = o.deflection_curve()
        return {"at": o.at(x), "curve": [np.array(c[0]), np.array(c[1])],
                "df": take(o.to_dataframe())}
    if isinstance(o, cba.Envelopes):
        return {"at": o.at(f * float(o.x[-1])), "df": take(o.to_dataframe()),
                "spans": np.array(o.per_span(("Mmax", "Vmin")[m % 2]))}
    if type(o).__name__ == "ModalResults":
        x, v = o.mode_shape(m % o.n_modes)
        return {"x": np.array(x), "v": np.array(v)}
    return None


def expected_reading(o, sn, f, m):
    """The same reading, computed by the harness from the numbers as they were handed out."""
    import pycba as cba

    def at(keys):
        u, i = np.unique(sn["x"], return_index=True)
        return {a: float(np.interp(f * sn["x"][-1], u, sn[k][i])) for a, k in keys.items()}

    if isinstance(o, cba.BeamResults):
        cols = {"M": "M", "V": "V", "R": "rot", "D": "D"}
        return {"at": at(cols),
                "curve": [np.concatenate([q[k][1:-1] for q in sn["spans"]]) for k in ("x", "D")],
                "df": dict({"x": sn["x"]}, **{c: sn[k] for c, k in cols.items()})}
    if isinstance(o, cba.Envelopes):
        e4 = {k: k for k in ("Mmax", "Mmin", "Vmax", "Vmin")}
        nm, fn = (("Mmax", np.max), ("Vmin", np.min))[m % 2]
        cut = np.cumsum([len(q["x"]) for q in sn["res"][0]["spans"]])[:-1]
        return {"at": at(e4), "df": dict({"x": sn["x"]}, **{k: sn[k] for k in e4}),
                "spans": np.array([fn(q) for q in np.split(sn[nm], cut)])}
    v = sn["phi"][0::2, m % len(sn["f"])]
    v = v / (np.max(np.abs(v)) or 1.0)
    return {"x": sn["x"], "v": -v if v[np.argmax(np.abs(v))] < 0 else v}


@scenario
class C04(BridgeOps):
    id = "C04"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.25 else list(SEAM_FAULTS)
        line = LINE_FAULTS if kinds and rng.random() < 0.3 else []
        streams = []
        for c in range(rng.choice([1, 1, 2])):
            sw = bswarm(rng)
            springs = sw["springs"]
            led = BridgeLedger(rng, c, c, **sw)
            led.emit("lc", n=0)
            led.emit("pat", rows=[[gen.load(rng, led.d, span=i + 1)
                                   for i in range(len(led.d["L"]))] for _ in range(2)])
            led.emit("ilnew")
            nl = nl_beam(rng)
            nl["mesh"] = round(sum(nl["L"]) / 5, 3)
            led.emit("nlnew", n=nl)
            pool = [nl_args(rng, nl, {}) for _ in range(2)]
            if rng.random() < 0.4:
                pool[1] = near_args(rng, nl, pool[0], {})
            for a in pool:
                if a["kind"] == "static":
                    a["lmax"], a["rec"] = 0.3, 3
            led.analyze()
            T = led.span_len()

            def f(p=0.25, ks=None):
                return gen.pick_fault(rng, kinds if ks is None else (ks if kinds else []), p)

            for _ in range(rng.randint(7, 11) if tier == "quick" else rng.randint(10, 22)):
                q = rng.random()
                if q < 0.07:
                    led.load()
                elif q < 0.11:
                    led.loads()
                elif q < 0.16:
                    led.restr()
                elif q < 0.19:
                    led.disp()
                elif q < 0.22:
                    R0 = list(led.d["R"])
                    if led.restr("mechanism"):
                        led.analyze()
                        led.d["R"] = R0
                        led.emit("R", R=R0)
                elif q < 0.25:
                    led.newveh(0)
                elif q < 0.36:
                    led.analyze(fault=f(0.3, kinds + list(line)),
                                npts=rng.choice([None, None, 20, 40]))
                elif q < 0.47:
                    a = led.run_args(0, tier)
                    if rng.random() < 0.15:
                        a["plot_env"] = True
                    led.emit("run", **dict(a, fault=f()))
                elif q < 0.51:
                    led.emit("static", b=0, dv=None, pos=round(rng.uniform(0.02, 1.1) * T, 4),
                             shear=rng.choice([None, [round(0.37 * T, 4)]]), fault=f())
                elif q < 0.57 and not springs:
                    i = rng.randrange(len(led.d["L"]))
                    x = round(sum(led.d["L"][:i]) + led.d["L"][i] * rng.uniform(0.1, 0.9), 4)
                    led.emit("il", create=rng.random() < 0.6, step=round(T / rng.randint(3, 7), 4),
                             poi=x, eff=rng.choice(["M", "V"]), fault=f())
                elif q < 0.66:
                    led.emit("ask", what=rng.choice(["matrix", "one", "envelope", "combine",
                                                     "combination", "to_LM", "target"]),
                             resp=rng.choice(["M", "V", "D", "R"]), fault=f(),
                             row=gen.load(rng, led.d), add=rng.random() < 0.6)
                elif q < 0.71:
                    led.emit("pattern", npts=rng.choice([None, 15]), fault=f())
                elif q < 0.81:
                    led.emit("envop", what=rng.choice(["augment", "sum", "combine", "combine-sum",
                                                       "zero", "or", "add", "from", "self"]),
                             a=rng.randrange(20), b=rng.randrange(20), fault=f())
                elif q < 0.85:
                    for _ in range(rng.choice([1, 1, 2])):
                        led.emit("nl", a=rng.choice(pool),
                                 fault=f(0.2, ["num-memory", "alloc-memory"]))
                elif q < 0.88:
                    led.emit("modal", mass=rng.choice([500.0, 1200.0]), n=rng.choice([2, 4]),
                             fault=f())
                elif q < 0.94:
                    led.emit("touch", n=rng.randrange(60), f=round(rng.uniform(0.03, 0.97), 4),
                             m=rng.randrange(4), draw=rng.random() < 0.4,
                             fault=f(0.3, DRAW_FAULTS))
                elif q < 0.97:
                    led.emit("plot", what=rng.choice(PLOTS), fault=f(0.3, DRAW_FAULTS),
                             x=round(rng.uniform(0.1, 0.9) * T, 4))
                else:
                    led.emit("read", what=rng.choice(["csv", "df", "at", "curve", "per_span",
                                                      "ratios", "crit"]),
                             x=round(rng.uniform(0.1, 0.9) * T, 4))
            led.loads()
            led.analyze()
            streams.append(led.ops)
        return {"ops": number(interleave(rng, streams)), "faults": kinds}

    # ---------------------------------------------------------------- ledger
    def __init__(self, ctx):
        super().__init__(ctx)
        self.held = []      # [what, object, snapshot, operation]
        self.envs = []      # indices of held envelopes

    def hold(self, what, o):
        snap = take(o)
        self.held.append([what, o, snap, self.ctx.iop])
        self.ctx.log("held", what, digest(snap))
        self.ctx.stat("probe:held-" + what.split(" ")[0])
        import pycba as cba
        if isinstance(o, cba.Envelopes):
            self.envs.append(len(self.held) - 1)
        return o

    def run(self):
        for i, op in enumerate(self.ctx.spec["ops"]):
            self.ctx.iop = op.get("i", i)
            getattr(self, "op_" + op["op"])(op)
            self.verify(op["op"])
            if self.ctx.violations:
                return

    def verify(self, what):
        for name, o, snap, i in self.held:
            if not self.ctx.check(diff_exact(take(o), snap), "handed-out-result-changed",
                                  f"{name} handed out by operation {i} was changed by a later "
                                  f"'{what}':"):
                return

    # ------------------------------------------------------------- operations
    def analyzed(self, s, op, out, fired, snap, d_try, before):
        if out[0] == "ok":
            self.hold("results of an analysis", s.obj.beam_results)

    def after_run(self, s, b, op, out, fired, snap):
        import matplotlib.pyplot as plt
        plt.close("all")
        if out[0] != "ok":
            self.ctx.stat("probe:run-failed")
            return
        o = b["o"]
        if op["op"] == "static":
            self.hold("result of a static vehicle", s.obj.beam_results)
            return
        self.hold("positions of a traverse", o.pos)
        self.hold("results of a traverse", o.vResults)
        self.hold("envelope of a traverse", s.env)

    def op_lc(self, op):
        import pycba as cba
        s = self.slot(op)
        if s is None:
            return
        s.lc = cba.LoadCases(s.obj)
        s.lc.add("g", [[i + 1, 1, 4.0 + i] for i in range(len(s.d["L"]))])
        s.lc.add("q", [[1, 2, 25.0, 0.4 * s.d["L"][0]]])

    def op_pat(self, op):
        import pycba as cba
        s = self.slot(op)
        if s is None:
            return
        s.pat = cba.LoadPattern(s.obj)
        s.pat.set_dead_loads([list(r) for r in op["rows"][0]], 1.35, 1.0)
        s.pat.set_live_loads([list(r) for r in op["rows"][1]], 1.5, 0.0)

    def op_ilnew(self, op):
        from . import world
        s = self.slot(op)
        if s is None or any(r > 0 for r in s.d["R"]):
            return
        s.il = world.build_il(s.d)
        s.ilc = False

    def op_il(self, op):
        s = self.slot(op)
        if s is None or not hasattr(s, "il"):
            return

        def go():
            if op["create"] or not s.ilc:
                s.il.create_ils(op["step"])
                s.ilc = True
            return s.il.get_il(op["poi"], op["eff"])

        out, _ = self.ctx.call(op, go)
        if out[0] == "ok":
            self.hold("influence line", out[1])
            self.hold("influence positions", s.il.pos)

    def op_nlnew(self, op):
        from . import world
        s = self.slot(op)
        if s is not None:
            s.nl = world.build_nl(op["n"])

    def op_nl(self, op):
        from . import world
        s = self.slot(op)
        if s is None or not hasattr(s, "nl"):
            return
        out, _ = self.ctx.call(op, lambda: world.run_nl(s.nl, op["a"]))
        if out[0] == "ok":
            self.hold("nonlinear result", out[1])

    def op_modal(self, op):
        s = self.slot(op)
        if s is None:
            return
        out, _ = self.ctx.call(op, lambda: s.obj.modal(op["mass"], n_modes=op["n"]))
        if out[0] == "ok":
            self.hold("modal result", out[1])

    def op_ask(self, op):
        import pycba as cba
        s = self.slot(op)
        if s is None or not hasattr(s, "lc"):
            return
        if op["add"] and op["row"][0] <= len(s.d["L"]):
            s.lc.add_load("q", list(op["row"]))
        w, lc, r = op["what"], s.lc, op["resp"]

        def go():
            if w == "matrix":
                return lc.response_matrix(r)
            if w == "one":
                return cba.analyse_load_case(s.obj, lc[0], r)
            if w == "envelope":
                return lc.envelope()
            if w == "combine":
                return lc.combine([1.35, 1.5], r)
            if w == "combination":
                return lc.analyze_combination([1.0, -0.5])
            if w == "target":
                t = lc.target_combination("t", 0.4 * sum(s.d["L"]), response=r)
                return [t.response(response=r), t.factor_vector(), t.metadata]
            return lc.to_LM()

        out, _ = self.ctx.call(op, go)
        if out[0] == "ok":
            self.hold("case-" + w + " result", out[1])

    def op_pattern(self, op):
        s = self.slot(op)
        if s is None or not hasattr(s, "pat"):
            return
        out, _ = self.ctx.call(op, lambda: s.pat.analyze(op["npts"]))
        if out[0] == "ok":
            self.hold("pattern-envelope", out[1])
            if op["npts"]:
                s.d["npts"] = s.obj.npts
            s.res = take(s.obj.beam_results) if s.obj.beam_results is not None else None

    def _envs(self, op):
        """Two held envelopes of compatible shape, or None."""
        if not self.envs:
            return None
        i = self.envs[op["a"] % len(self.envs)]
        a = self.held[i]
        fit = [j for j in self.envs if self.held[j][2]["npts"] == a[2]["npts"] and
               self.held[j][2]["nsup"] == a[2]["nsup"]]
        return i, fit[op["b"] % len(fit)]

    def op_envop(self, op):
        import pycba as cba
        s = self.slot(op)
        p = self._envs(op)
        if s is None or p is None:
            return
        i, j = p
        a, b = self.held[i][1], self.held[j][1]
        w = op["what"]

        def go():
            if w == "augment":
                return a.augment(b)
            if w == "sum":
                return a.sum(b)
            if w == "self":
                return a.augment(a)
            if w == "combine":
                return cba.Envelopes.combine([a, b])
            if w == "combine-sum":
                return cba.Envelopes.combine([a, b], mode="sum")
            if w == "zero":
                return cba.Envelopes.zero_like(a)
            if w == "or":
                return a | b
            if w == "add":
                return a + b
            return cba.Envelopes.from_beam_analysis(s.obj)

        out, _ = self.ctx.call(op, go)
        if out[0] != "ok":
            return
        if w in ("augment", "sum", "self"):
            # only the extremes of the explicit target may change
            new = take(a)
            keep = {k: self.held[i][2][k] for k in ("x", "npts", "nsup", "res", "nres")}
            got = {k: new[k] for k in keep}
            self.ctx.check(diff_exact(got, keep), "handed-out-result-changed",
                           f"{w} changed the results behind its target:")
            for h in self.held:
                if h[1] is a:
                    h[2] = new
            self.ctx.stat("probe:target-changed")
        elif w == "from":
            self.hold("model-envelope", out[1])
        else:
            self.hold("combined-envelope", out[1])

    def op_plot(self, op):
        import matplotlib.pyplot as plt
        s = self.slot(op)
        if s is None:
            return
        w = op["what"]
        env = self.held[self.envs[-1]][1] if self.envs else None

        def go():
            if w == "results":
                s.obj.plot_results()
            elif w == "beam":
                s.obj.plot_beam()
            elif w == "reactions":
                s.obj.plot_reactions()
            elif w == "env" and env is not None:
                env.plot(each=True)
            elif w == "coincident" and env is not None:
                env.plot_coincidents(show=False)
            elif w == "static" and s.br[0]["veh"]:
                s.br[0]["o"].plot_static(op["x"])
            elif w == "il" and getattr(s, "ilc", False):
                s.il.plot_il(op["x"], "M")
            elif w == "modal":
                s.obj.modal(700.0, n_modes=2).plot_modes([0, 1])
            elif w == "bmd-plotly":
                s.obj.plot_bmd(backend="plotly")
            elif w == "vehicle" and s.br[0]["veh"]:
                s.br[0]["o"].veh.plot(show=False)

        self.ctx.call(op, go)
        plt.close("all")

    def op_touch(self, op):
        """An object handed out earlier is read or drawn now."""
        import matplotlib.pyplot as plt
        import pycba as cba
        kinds = (cba.BeamResults, cba.Envelopes)
        held = [h for h in self.held if isinstance(h[1], kinds) or
                type(h[1]).__name__ in ("ModalResults", "NonlinearResult")]
        if not held:
            return
        rare = [h for h in held if not isinstance(h[1], kinds)]
        if rare and op["n"] % 2:
            held = rare
        name, o, sn, i = held[(op["n"] // 2) % len(held)]
        m = op["m"]

        def draw():
            if isinstance(o, cba.Envelopes):
                o.plot(each=bool(m % 2)) if m else o.plot_coincidents(show=False)
            elif type(o).__name__ == "ModalResults":
                o.plot_results() if m == 0 else o.plot_modes(m % o.n_modes)
            elif type(o).__name__ == "NonlinearResult":
                (o.plot_moments, o.plot_hinge_history, o.plot_beam_state, o.plot_collapse)[m]()

        if op["draw"] or type(o).__name__ == "NonlinearResult":
            self.ctx.call(op, draw)
            plt.close("all")
            self.ctx.stat("probe:drawn-later")
            return
        if isinstance(o, cba.Envelopes) and not sn["res"]:
            return
        out, _ = self.ctx.call({k: v for k, v in op.items() if k != "fault"},
                               lambda: reading(o, op["f"], m))
        self.ctx.stat("probe:read-later")
        if self.ctx.check(out[0] == "ok", "held-object-unreadable",
                          f"{name} handed out by operation {i} cannot be read any more: "
                          f"{out[1:]}"):
            self.ctx.check(diff_close(out[1], expected_reading(o, sn, op["f"], m), 1e-9),
                           "handed-out-reading-changed",
                           f"{name} handed out by operation {i} reads differently now:")

    def op_read(self, op):
        s = self.slot(op)
        if s is None or s.obj.beam_results is None:
            return
        w, br = op["what"], s.obj.beam_results
        env = self.held[self.envs[-1]][1] if self.envs else None

        def go():
            if w == "csv":
                br.to_csv("out.csv")
                if env is not None:
                    env.to_csv("env.csv")
            elif w == "df":
                return br.to_dataframe()
            elif w == "at":
                return br.at(op["x"])
            elif w == "curve":
                return br.deflection_curve()
            elif w == "per_span" and env is not None:
                return env.per_span("Mmax")
            elif w == "ratios" and len(self.envs) > 1:
                return s.br[0]["o"].envelopes_ratios(env, self.held[self.envs[-2]][1])
            elif w == "crit" and env is not None:
                return s.br[0]["o"].critical_values(env)

        out, _ = self.ctx.call(op, go)
        if out[0] == "ok" and out[1] is not None:
            self.hold("reading-" + w, out[1])
