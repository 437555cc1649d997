"""Concurrent threads on separate models and shared read-only inputs: C16."""
from __future__ import annotations

import copy
import io
import sys
import threading

import numpy as np

from . import core, gen, world
from .base import Scenario, number, scenario
from .core import HarnessError, Seam, arr, diff_exact, digest, outcome
from .scen_bridge import shear_dict
from .scen_nl import nl_args, nl_beam
from .scen_share import LIB, as_kind, gen_profile, lib_get, lib_snap, profile, tendon_rows, \
    veh_snap
from .threads import Scheduler, ThreadFault

UNITS = ["SI", "US", None]
TF = {"linalg": (("numeric",), np.linalg.LinAlgError), "num-memory": (("numeric",), MemoryError),
      "alloc-memory": (("alloc",), MemoryError), "line-memory": None}
# rough number of source lines of pycba one operation executes (schedule horizon only)
COST = {"new": 100, "newsh": 100, "analyze": 800, "edit": 10, "run": 5500, "il": 3000, "nl": 1700,
        "cases": 1500, "pattern": 5000, "env": 150, "tikz": 300, "csv": 900, "tendon": 100,
        "veh": 30, "read": 20, "shask": 60, "modal": 210, "mech": 360, "bad": 30, "sec": 90}


def table(df):
    return {str(c): np.array(df[c]) for c in df.columns}


def spec_def(d):
    return {k: copy.deepcopy(d[k]) for k in ("L", "EI", "R", "eletype", "D", "GAv", "kf", "LM",
                                             "npts")}


# ------------------------------------------------------------------- shared
class Shared:
    """Objects all threads may read; built before the threads start."""

    def __init__(self, op):
        d = op["d"]
        self.d = d
        self.ba = world.build(d)
        self.ba.npts = d["npts"]
        self.res = []
        import pycba as cba
        for LM in op["sets"]:
            self.ba.set_loads([list(r) for r in LM])
            self.ba.analyze()
            self.res.append(self.ba.beam_results)
        self.ba.set_loads([list(r) for r in d["LM"]])
        self.ba.analyze()
        self.env = cba.Envelopes(self.res)
        self.veh = cba.Vehicle(list(op["veh"]["axs"]), list(op["veh"]["axw"]))
        g = op["g"]
        self.g = g
        self.gL, self.gR = list(g["L"]), list(g["R"])
        self.gEI = [world.rigidity(e) for e in g["EI"]]
        self.gGAv = None if not g["GAv"] else [world.rigidity(e) for e in g["GAv"]]
        self.gkf = None if not g["kf"] else list(g["kf"])
        self.gD = None if not g["D"] else list(g["D"])
        self.get = list(g["eletype"])
        self.LMs = copy.deepcopy(op["LMs"])
        self.prof = [profile(p) for p in op["prof"]]

    def snap(self):
        return {"ba": world.full_state(self.ba), "res": [world.snap(r) for r in self.res],
                "env": world.snap_env(self.env), "veh": veh_snap(self.veh),
                "L": list(self.gL), "R": list(self.gR),
                "EI": [world.rig_probe(e, l) for e, l in zip(self.gEI, self.gL)],
                "LMs": copy.deepcopy(self.LMs),
                "prof": [None if p is None else repr(p) for p in self.prof]}


# ------------------------------------------------------------------ programs
class Program:
    """One thread's own objects and operations."""

    def __init__(self, sh, rel):
        self.sh, self.rel = sh, rel
        self.m = {}
        self.out = []

    def step(self, op, thread):
        thread.begin(self.rel.get(op["i"], ()))
        f = getattr(self, "k_" + op["k"], None)
        if f is None:
            raise HarnessError("unknown thread operation " + op["k"])
        fl = op.get("fault")
        if not fl:
            out, fired = outcome(lambda: f(op)), False
        elif TF[fl["kind"]] is None:
            thread.kill_at, thread.kill_exc = thread.points + 1 + fl["at"], MemoryError
            thread.killed = False
            out = outcome(lambda: f(op))
            fired, thread.kill_at = thread.killed, -1
        else:
            kinds, exc = TF[fl["kind"]]
            me = threading.get_ident()
            st = ThreadFault(kinds, fl["at"], exc)
            Seam.threads[me] = st
            try:
                out = outcome(lambda: f(op))
            finally:
                del Seam.threads[me]
            fired = st.fired
        self.out.append([op["i"], op["k"], out[0], out[1], fired])

    def model(self, op):
        if op.get("sh"):
            return self.sh.ba if self.sh else None
        return self.m.get(op.get("m", 0))

    # -- own models
    def k_new(self, op):
        ba = world.build(op["d"])
        ba.npts = op["d"]["npts"]
        self.m[op["m"]] = ba
        return world.definition(ba)

    def k_newsh(self, op):
        import pycba as cba
        s = self.sh
        if s is None:
            return "skip"
        ba = cba.BeamAnalysis(s.gL, s.gEI, s.gR, s.LMs[op["n"] % len(s.LMs)], eletype=s.get,
                              D=s.gD, GAv=s.gGAv, kf=s.gkf)
        self.m[op["m"]] = ba
        return world.definition(ba)

    def k_analyze(self, op):
        ba = self.m.get(op["m"])
        if ba is None:
            return "skip"
        ba.analyze(op["npts"]) if op["npts"] else ba.analyze()
        return world.snap(ba.beam_results)

    def k_edit(self, op):
        ba = self.m.get(op["m"])
        if ba is None:
            return "skip"
        for r in op["rows"]:
            world.apply_load(ba, r, op["how"])
        if op["R"] and len(op["R"]) == len(ba.beam.restraints):
            ba.beam.restraints = list(op["R"])
        return world.definition(ba)

    def k_mech(self, op):
        ba = world.build(op["d"])
        ba.analyze()
        return world.snap(ba.beam_results)

    def k_bad(self, op):
        import pycba as cba
        w = op["what"]
        if w == "section":
            return cba.SectionEI([("linear", [0, 5], [1.0, -2.0])])
        if w == "vehicle":
            return cba.Vehicle([1.0], [1.0])
        if w == "units":
            return self.model(op).beam.to_tikz(units="furlongs") if self.model(op) else "skip"
        if w == "beam":
            return cba.BeamAnalysis([5.0], 1e4, [-1, 0])
        return cba.VehicleLibrary.AU.get_m1600(1.0)

    def k_modal(self, op):
        ba = self.m.get(op["m"])
        if ba is None:
            return "skip"
        return world.modal_key(ba.modal(op["mass"], n_modes=3))

    def k_sec(self, op):
        """A section of this thread's own, shared sections only read."""
        s = world.rigidity(op["e"])
        x = np.linspace(0.0, op["L"], 15)
        out = [float(s.length), arr(s(x)), arr(s.breakpoints), bool(s.is_constant)]
        if self.sh:
            for e, l in zip(self.sh.gEI, self.sh.gL):
                if not isinstance(e, float):
                    out.append(arr(e(np.linspace(0.0, l, 11))))
        return out

    # -- moving loads
    def vehicle(self, op):
        import pycba as cba
        if op["veh"] is None:
            return self.sh.veh if self.sh else None
        return cba.Vehicle(list(op["veh"]["axs"]), list(op["veh"]["axw"]))

    def k_run(self, op):
        import pycba as cba
        ba, v = self.m.get(op["m"]), self.vehicle(op)
        if ba is None or v is None:
            return "skip"
        br = cba.BridgeAnalysis(ba, v)
        T = float(ba.beam.length)
        kw = dict(pos_start=0.0137, pos_end=T + 0.6 * float(v.L), shear_points=op["shear"])
        step = (kw["pos_end"] - 0.0137) / op["n"]
        if op["lane"]:
            env = br.run_load_model(step, op["lane"], clearances=op["clear"], **kw)
        else:
            env = br.run_vehicle(step, **kw)
        c = br.critical_values(env)
        return [[float(p) for p in br.pos], world.snap_env(env), world.definition(ba),
                sorted(str(k) + repr(v) for k, v in c.items()) if isinstance(c, dict) else None]

    def k_il(self, op):
        il = world.build_il(op["d"])
        il.create_ils(op["step"])
        return [[arr(v) for v in il.get_il(x, e)] for x, e in op["ask"]]

    def k_nl(self, op):
        nb = world.build_nl(op["n"])
        return [world.snap_nl(world.run_nl(nb, op["a"])) for _ in range(op["times"])]

    # -- collections
    def k_cases(self, op):
        import pycba as cba
        ba = self.model(op)
        if ba is None:
            return "skip"
        lc = cba.LoadCases(ba)
        for n, LM in op["cases"]:
            lc.add(n, [list(r) for r in LM])
        if self.sh and op["n"] is not None:
            lc.add("shared", self.sh.LMs[op["n"] % len(self.sh.LMs)])
        w = op["what"]
        if w == "matrix":
            r = lc.response_matrix(op["resp"])
            return [arr(r[0]), arr(r[1])]
        if w == "envelope":
            return world.snap_env(lc.envelope())
        if w == "combine":
            r = lc.combine([1.2] * len(lc), op["resp"])
            return [arr(v) for v in r]
        r = lc.analyze_combination([1.0, -0.7, 0.4][:len(lc)])
        r = getattr(r, "beam_results", r)
        return world.snap(r)

    def k_pattern(self, op):
        import pycba as cba
        ba = self.m.get(op["m"])
        if ba is None:
            return "skip"
        p = cba.LoadPattern(ba)
        p.set_dead_loads([list(r) for r in op["g"]], 1.35, 1.0)
        p.set_live_loads([list(r) for r in op["q"]], 1.5, 0.0)
        return [world.snap_env(p.analyze()), world.definition(ba)]

    def k_env(self, op):
        import pycba as cba
        if self.sh is None:
            return "skip"
        e = cba.Envelopes([self.sh.res[i % len(self.sh.res)] for i in op["which"]])
        for w in op["do"]:
            if w == "augment":
                e.augment(self.sh.env)
            elif w == "sum":
                e.sum(self.sh.env)
            elif w == "combine":
                e = cba.Envelopes.combine([e, self.sh.env])
            elif w == "zero":
                e = cba.Envelopes.zero_like(self.sh.env)
            elif w == "or":
                e = e | self.sh.env
            else:
                e = e + self.sh.env
        return world.snap_env(e, deep=False)

    # -- reading and text
    def k_read(self, op):
        if self.sh is None:
            return "skip"
        br = self.sh.res[op["n"] % len(self.sh.res)]
        w = op["what"]
        if w == "df":
            return table(br.to_dataframe())
        if w == "csv":
            b = io.StringIO()
            br.to_csv(b)
            return b.getvalue()
        if w == "at":
            r = br.at(op["x"])
            return {str(k): float(v) for k, v in r.items()} if isinstance(r, dict) else repr(r)
        if w == "curve":
            return [arr(v) for v in br.deflection_curve()]
        if w == "span":
            return [arr(v) for v in self.sh.env.per_span("Mmax")] if hasattr(
                self.sh.env, "per_span") else "skip"
        return veh_snap(self.sh.veh)

    def k_shask(self, op):
        """Queries of the shared template that must not disturb each other."""
        if self.sh is None:
            return "skip"
        w = op["what"]
        if w == "stable":
            return bool(self.sh.ba.is_stable())
        if w == "modal":
            return world.modal_key(self.sh.ba.modal(700.0, n_modes=2))
        if w == "repr":
            return repr(self.sh.ba.beam)
        return world.definition(self.sh.ba)

    def k_tikz(self, op):
        ba = self.model(op)
        if ba is None:
            return "skip"
        return ba.beam.to_tikz(units=op["units"], **op["opts"])

    def k_csv(self, op):
        ba = self.m.get(op["m"])
        if ba is None:
            return "skip"
        ba.analyze()
        b = io.StringIO()
        ba.to_csv(b)
        return [b.getvalue(), table(ba.to_dataframe())]

    def k_tendon(self, op):
        if self.sh is None:
            return "skip"
        return tendon_rows(self.sh.ba, op["F"], self.sh.prof)

    def k_veh(self, op):
        import pycba as cba
        v = self.vehicle(op)
        if v is None:
            return "skip"
        w = op["what"]
        if w == "lib":
            return lib_snap(lib_get(*op["lib"]))
        if w == "train":
            l = lib_get(*op["lib"])
            return lib_snap(cba.make_train([v, l, v], np.array(op["sp"])))
        if w == "rev":
            return lib_snap(v.reverse(in_place=False))
        o = copy.deepcopy(v)
        o.reverse()
        return veh_snap(o)


def run_programs(shared, progs, switches, opcodes):
    """-> (outcomes per thread, scheduler, shared object)"""
    sh = Shared(shared) if shared else None
    rel = {}
    for at, t, i in switches:
        if i is not None:
            rel.setdefault(i, []).append((at, t))
    P = [Program(sh, rel) for _ in progs]

    def body(p, ops):
        def go(thread):
            for op in ops:
                p.step(op, thread)
        return go

    s = Scheduler([body(p, ops) for p, ops in zip(P, progs)],
                  [(at, t) for at, t, i in switches if i is None], opcodes)
    s.run()
    return [p.out for p in P], s, sh


def o_threads(shared, progs, opcodes):
    """Every program on its own, each in a process of its own."""
    out = []
    for ops in progs:
        out.append(core._in_child(lambda: run_programs(shared, [ops], [], opcodes)[0][0]))
    return ["ok", out]


world.ORACLES["threads"] = o_threads


def compare_threads(q, exp):
    from .core import diff_close
    for t, (got, want) in enumerate(zip(q["observed"], exp[1])):
        if len(got) != len(want):
            return f"thread {t} ran {len(got)} operations, alone {len(want)}"
        for (i, k, a, b, fa), (_, _, c, d, fc) in zip(got, want):
            if fa or fc:
                break       # how far a failed operation got is its own affair
            if a != c:
                return f"operation {i} ({k}) of thread {t}: {a} {b if a == 'err' else ''}, " \
                       f"alone {c} {d if c == 'err' else ''}"
            if a == "err":
                if b != d:
                    return f"operation {i} ({k}) of thread {t}: error {b}, alone {d}"
                continue
            r = diff_close(b, d, q["rtol"], q["floor"]) if not isinstance(b, str) else (
                None if b == d else f"{b[:80]!r} != {d[:80]!r}")
            if r:
                return f"operation {i} ({k}) of thread {t}, compared with running alone: {r}"
    return None


from .modes import MODES  # noqa: E402

MODES["threads"] = compare_threads


@scenario
class C16(Scenario):
    id = "C16"

    @classmethod
    def gen(cls, rng, tier):
        faults = [] if rng.random() < 0.4 else sorted(TF)
        tk = dict(max_spans=2, sections=0.3, kf=0.25, npts=False)
        # in a share of the runs all threads have members of the same kind
        feature = rng.choice([None, None, None, "kf", "kf", "sections", "gav"])
        if feature:
            tk.update({"sections": 0.0, "kf": 0.0, "gav": 0.0, feature: 1.0})
        d = spec_def(gen.beam(rng, **tk))
        d["npts"] = rng.choice([20, 30])
        g = spec_def(gen.beam(rng, **dict(tk, sections=0.6, kf=0.15)))
        n = len(d["L"])
        sets = [[gen.load(rng, d)] for _ in range(rng.randint(1, 2))]
        LMs = [[gen.load(rng, g)] for _ in range(2)]
        sh = {"op": "shared", "d": d, "sets": sets, "g": g, "LMs": LMs,
              "veh": gen.vehicle(rng, 3), "prof": [gen_profile(rng, l) for l in d["L"]]}
        focus = rng.choice(["mix", "mix", "static", "moving", "collect", "text", "nl"])
        kinds = {"mix": ["analyze", "analyze", "run", "il", "nl", "cases", "pattern", "env",
                         "tikz", "csv", "tendon", "veh", "read", "shask", "modal", "mech", "bad",
                         "sec", "newsh"],
                 "static": ["analyze", "analyze", "edit", "newsh", "mech", "shask", "modal",
                            "sec", "csv", "new"],
                 "moving": ["run", "run", "il", "veh", "analyze"],
                 "collect": ["cases", "cases", "pattern", "env", "env", "shask"],
                 "text": ["tikz", "csv", "read", "analyze", "bad", "tendon"],
                 "nl": ["nl", "nl", "veh", "mech"]}[focus]
        nt = rng.choice([2, 2, 3]) if focus != "static" else rng.choice([2, 3, 4])
        # threads often do the same kind of thing at the same time
        common = [rng.choice(kinds) for _ in range(4)]
        ops, cost, nbs = [], 0, []
        base = spec_def(gen.beam(rng, **tk))
        base["npts"] = rng.choice([20, 30, 41])
        for t in range(nt):
            led = copy.deepcopy(base) if rng.random() < 0.6 else spec_def(gen.beam(rng, **tk))
            if rng.random() < 0.5:  # threads' models often differ in one property only
                led = gen.near_def(rng, led) or led
            led["npts"] = rng.choice([20, 30])
            led["LM"] = [gen.load(rng, led) for _ in range(rng.randint(1, 2))]
            T = sum(led["L"])

            def emit(k, **kw):
                f = None
                if faults and rng.random() < 0.2:
                    f = {"kind": rng.choice(faults), "at": rng.choice([0, 1, 3, 8, 20, 60, 200])}
                ops.append(dict({"op": "t", "c": t, "t": t, "k": k, "fault": f}, **kw))
                return COST[k]

            ops.append({"op": "t", "c": t, "t": t, "k": "new", "m": 0, "d": led, "fault": None})
            cost += 60
            for j in range(rng.randint(2, 3) if tier == "quick" else rng.randint(2, 6)):
                k = common[j] if j < 4 and rng.random() < 0.6 else rng.choice(kinds)
                sv = None if rng.random() < 0.5 else gen.vehicle(rng, 3)
                lib = LIB[rng.randrange(len(LIB))]
                if k == "new":
                    led = (gen.near_def(rng, led) if rng.random() < 0.5 else None) or \
                        spec_def(gen.beam(rng, **tk))
                    led["npts"] = 30
                    cost += emit("new", m=0, d=led)
                elif k == "newsh":
                    emit("newsh", m=1, n=rng.randrange(2))
                    cost += emit("analyze", m=1, npts=20)
                elif k == "analyze":
                    cost += emit("analyze", m=0, npts=rng.choice([None, 20, 33]))
                elif k == "edit":
                    cost += emit("edit", m=0, rows=[gen.load(rng, led)], how="api",
                                 R=gen.restraint_edit(rng, led) if rng.random() < 0.3 else None)
                    cost += emit("analyze", m=0, npts=None)
                elif k == "mech":
                    R = gen.restraint_edit(rng, led, "mechanism")
                    if R:
                        cost += emit("mech", d=dict(led, R=R, D=None))
                elif k == "bad":
                    cost += emit("bad", what=rng.choice(["section", "vehicle", "units", "beam",
                                                         "lib"]), m=0)
                elif k == "modal":
                    cost += emit("modal", m=0, mass=rng.choice([500.0, 900.0]))
                elif k == "sec":
                    cost += emit("sec", e=gen.section(rng, 10.0), L=10.0)
                elif k == "run":
                    lane = rng.choice([None, None, 9.0])
                    cost += emit("run", m=0, veh=sv, n=rng.randint(2, 4), lane=lane,
                                 clear=[0.5, 1.0] if lane and rng.random() < 0.5 else None,
                                 shear=[round(0.37 * T, 4)] if rng.random() < 0.4 else None)
                elif k == "il":
                    e = dict(led, R=[-1 if r > 0 else r for r in led["R"]], kf=None)
                    x = round(0.3 * led["L"][0], 3)
                    cost += emit("il", d=e, step=round(T / rng.randint(3, 5), 4),
                                 ask=[[x, rng.choice("MV")], [round(0.7 * T, 3), "M"]])
                elif k == "nl":
                    nb = copy.deepcopy(nbs[-1]) if nbs and rng.random() < 0.5 else nl_beam(rng)
                    if nbs and rng.random() < 0.4:
                        nb[rng.choice(["EI", "Mp"])][0] *= 1.25
                        nb["My"] = None
                    nbs.append(nb)
                    nb["mesh"] = round(sum(nb["L"]) / 4, 3)
                    a = nl_args(rng, nb, {})
                    if a["kind"] == "static":
                        a["lmax"], a["rec"] = 0.25, 5
                    else:
                        a["n_sub"] = 1
                    cost += emit("nl", n=nb, a=a, times=rng.choice([1, 2]))
                elif k == "cases":
                    s = rng.random() < 0.6
                    dd = d if s else led
                    cost += emit("cases", m=0, sh=s, cases=[["a", [gen.load(rng, dd)]],
                                                            ["b", [gen.load(rng, dd)]]],
                                 n=None, resp=rng.choice(["M", "V", "D", "R"]),
                                 what=rng.choice(["matrix", "envelope", "combine",
                                                  "combination"]))
                elif k == "pattern":
                    row = lambda: [[i + 1, 1, gen.r2(rng.uniform(2, 20))]
                                   for i in range(len(led["L"]))]
                    cost += emit("pattern", m=0, g=row(), q=row())
                elif k == "env":
                    cost += emit("env", which=[rng.randrange(2) for _ in range(2)],
                                 do=[rng.choice(["augment", "sum", "combine", "zero", "or",
                                                 "add"]) for _ in range(rng.randint(1, 3))])
                elif k == "tikz":
                    cost += emit("tikz", m=0, sh=rng.random() < 0.4, units=rng.choice(UNITS),
                                 opts=rng.choice([{}, {"dimensions": True}, {"labels": False}]))
                elif k == "csv":
                    cost += emit("csv", m=0)
                elif k == "tendon":
                    cost += emit("tendon", F=[1000.0 + 100 * i for i in range(n)])
                elif k == "veh":
                    cost += emit("veh", veh=sv, what=rng.choice(["lib", "train", "rev", "rev2"]),
                                 lib=[lib[0], rng.choice(lib[1])], sp=[5.0, 7.5])
                elif k == "read":
                    cost += emit("read", n=rng.randrange(2), x=round(0.4 * sum(d["L"]), 3),
                                 what=rng.choice(["df", "csv", "at", "curve", "span", "veh"]))
                elif k == "shask":
                    cost += emit("shask", what=rng.choice(["stable", "modal", "repr", "def"]))
        opcodes = rng.random() < 0.12 and cost < 15000
        H = max(50, int(cost * (8 if opcodes else 1)))
        sw = set()
        style = rng.choice(["sparse", "window", "both", "dense", "aimed", "aimed"])
        if style in ("sparse", "both"):
            for _ in range(rng.randint(1, 6)):
                sw.add(rng.randrange(H))
        if style in ("window", "both"):
            a, gap = rng.randrange(H), rng.choice([1, 2, 5, 20])
            for _ in range(rng.choice([30, 100, 200])):
                a += 1 if gap == 1 else rng.randint(1, 2 * gap)
                sw.add(a)
        if style == "dense":
            a, gap = 0, max(2, H // rng.choice([40, 120, 300]))
            while a < H * 1.5:
                a += rng.randint(1, 2 * gap)
                sw.add(a)
        sws = [{"op": "sw", "at": a, "t": rng.randrange(nt)} for a in sorted(sw)]
        ops = number([sh] + ops)
        if style == "aimed" or rng.random() < 0.4:
            # switches inside chosen operations, counted from the operation's start
            for o in rng.sample(ops[1:], min(len(ops) - 1, rng.randint(1, 4))):
                c = COST[o["k"]] * (8 if opcodes else 1)
                for _ in range(rng.choice([1, 2, 6, 20])):
                    sws.append({"op": "sw", "of": o["i"], "t": rng.randrange(nt),
                                "at": int(rng.choice([c ** rng.random(), c * rng.random()]))})
        if opcodes:
            # CPython 3.12 can crash when an instruction-level trace function raises
            for o in ops:
                if o.get("fault") and o["fault"]["kind"] == "line-memory":
                    o["fault"]["kind"] = "num-memory"
        for j, o in enumerate(sws):
            o["i"] = len(ops) + j
        return {"ops": ops + sws, "faults": faults, "opcodes": opcodes}

    def run(self):
        ctx = self.ctx
        ops = ctx.spec["ops"]
        sh = next((o for o in ops if o["op"] == "shared"), None)
        nt = 1 + max([o["t"] for o in ops if o["op"] == "t"], default=-1)
        progs = [[o for o in ops if o["op"] == "t" and o["t"] == t] for t in range(nt)]
        progs = [p for p in progs if p]
        sws = [(o["at"], o["t"], o.get("of")) for o in ops if o["op"] == "sw"]
        opcodes = bool(ctx.spec.get("opcodes"))
        if not progs:
            return
        ctx.iop = max(o.get("i", 0) for o in ops)
        before = Shared(sh).snap() if sh else None
        outs, s, shared = run_programs(sh, progs, sws, opcodes)
        ctx.log("schedule", s.n, s.taken)
        ctx.stat("probe:switches", len(s.taken))
        ctx.stat("probe:yield-points", s.n)
        ctx.stat("probe:opcode-granularity" if opcodes else "probe:line-granularity")
        for w, k in s.where.items():
            ctx.stat("probe:preempted@" + w, k)
        for t, out in enumerate(outs):
            for i, k, a, b, fired in out:
                ctx.log(t, i, k, a, b if a == "err" else digest(b), "F" if fired else "")
                ctx.sig.append(f"{t}{k}:{a}")
                ctx.stat("probe:op-" + k)
                if fired:
                    f = next(o["fault"] for o in ops if o.get("i") == i)
                    ctx.fault_fired(f["kind"])
        if s.taken:
            ctx.fault_fired("preemption", len(s.taken))
            ctx.sig.append(digest([list(x) for x in s.taken]))
        if sh:
            ctx.check(diff_exact(shared.snap(), before), "shared-object-changed",
                      "an object that was only read was changed:")
        ctx.query("threads", [sh, progs, opcodes], outs, "interference",
                  "threads influenced each other:", rtol=1e-9, mode="threads",
                  floor={"*": 1e-9})
