"""Objects built from shared inputs are independent of each other: C18.

The caller owns a pool of inputs (load lists, restraint and settlement lists,
rigidity lists, section objects, axle arrays, tendon profiles, library vehicles)
and builds models, bridges, vehicles, trains, load cases and patterns from the
same Python objects.  The harness keeps every value in a ledger of its own and
compares everything after every operation; analyses are compared with a model
built from the ledger in a pristine process.
"""
from __future__ import annotations

import copy

import numpy as np

from . import gen, world
from .base import SEAM_FAULTS, interleave, number, results_ok, scenario, Slot
from .core import diff_close, diff_exact, digest, outcome
from .scen_bridge import BridgeOps

LIB = [
    (["AU", "get_abag_bdouble"], [[0], [1], [2]]),
    (["AU", "get_abag_semitrailer"], [[0], [1], [2], [3]]),
    (["AU", "get_example_permit"], [[]]),
    (["AU", "get_m1600"], [[6.25], [8.5]]),
    (["AU", "get_s1600"], [[6.25], [7.0]]),
    (["AU", "get_a160"], [[]]),
    (["AU", "get_w80"], [[]]),
    (["AU", "get_la_rail"], [[], [2, 13.0, 250.0], [1]]),
    (["AU", "get_300la"], [[], [3, 14.0]]),
    (["AU", "get_t44"], [[], [5.0]]),
    (["AU", "get_ms18"], [[], [6.0]]),
    (["US", "get_hl93_truck"], [[], [7.5]]),
    (["US", "get_hl93_tandem"], [[]]),
    (["US", "get_cooper"], [[], [40.0]]),
    (["EU", "get_lm1"], [[], [0.8]]),
    (["EU", "get_lm71"], [[], [1.21]]),
    (["UK", "get_hb"], [[], [30.0, 11.0]]),
    (["CA", "get_cl625"], [[]]),
    (["CN", "get_jtg_vehicle"], [[]]),
    (["get_validation_truck"], [[]]),
]
PARSE = ["P40R20R", "E20H30R10F", "p12.5r7.25f", "E8R9E", "R6P7H8R"]
FAULTS = [k for k in SEAM_FAULTS] + ["line-memory", "line-interrupt"]


# ------------------------------------------------------------------ library
def lib_get(path, args):
    import pycba as cba
    o = cba.VehicleLibrary
    for p in path:
        o = getattr(o, p)
    return o(*args)


def veh_snap(v):
    return {"axs": [float(x) for x in v.axs], "axw": [float(x) for x in v.axw],
            "coords": [float(x) for x in v.axle_coords], "L": float(v.L), "n": int(v.NoAxles)}


def lib_snap(v):
    return dict(veh_snap(v), W=float(v.W))


def o_lib(path, args):
    return world.result(lambda: lib_snap(lib_get(path, args)))


def profile(p):
    import pycba.prestress as ps
    if p is None:
        return None
    return getattr(ps, p["kind"])(**p["kw"])


def tendon_rows(ba, force, profs):
    import pycba.prestress as ps
    return [[float(v) for v in r] for r in ps.equivalent_loads(ba, force, profs)]


def parse_snap(o):
    return [[float(np.asarray(x).reshape(-1)[0]) for x in v] for v in o]


def o_parse(text):
    import pycba as cba
    return world.result(lambda: parse_snap(cba.parse_beam_string(text)))


def o_tendon(d, force, profs):
    return world.result(lambda: tendon_rows(world.build(d, LM=False), force,
                                            [profile(p) for p in profs]))


world.ORACLES["lib"] = o_lib
world.ORACLES["parse"] = o_parse
world.ORACLES["tendon"] = o_tendon


def defn(ba):
    """The definition of a model, without the (shared) section objects' own extent."""
    d = world.definition(ba)
    for k in ("EI", "GAv"):
        d[k] = [v[1] if isinstance(v, list) and len(v) > 1 else v for v in d[k]]
    return d


def as_kind(v, kind):
    if kind == "array":
        return np.array(v, dtype=float)
    if kind == "tuple":
        return tuple(v)
    return list(v)


def flat(v):
    return [None if x is None else float(x) for x in v]


# ---------------------------------------------------------------- generation
def gen_profile(rng, L):
    e = lambda: round(rng.uniform(-0.4, 0.4), 3)
    k = rng.choice(["Parabola", "CompoundParabola", "Harp", "DoubleHarp", None])
    if k == "Parabola":
        return {"kind": k, "kw": {"e_left": e(), "e_mid": e(), "e_right": e(),
                                  "c_left": rng.choice([0.0, round(0.1 * L, 3)])}}
    if k == "CompoundParabola":
        return {"kind": k, "kw": {"e_left": e(), "e_mid": e(), "e_right": e(),
                                  "a": round(0.1 * L, 3), "b": round(0.15 * L, 3),
                                  "c": round(0.5 * L, 3)}}
    if k == "Harp":
        return {"kind": k, "kw": dict({"e_left": e(), "e_mid": e(), "e_right": e(),
                                       "a": round(0.45 * L, 3)},
                                      **({"c_left": round(0.1 * L, 3), "c_right": round(0.1 * L, 3)}
                                         if rng.random() < 0.4 else {}))}
    if k == "DoubleHarp":
        return {"kind": k, "kw": {"e_left": e(), "e_1": e(), "e_2": e(), "e_right": e(),
                                  "a": round(0.3 * L, 3), "b": round(0.7 * L, 3)}}
    return None


@scenario
class C18(BridgeOps):
    id = "C18"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.3 else list(FAULTS)
        geoms = []
        for _ in range(rng.choice([1, 2, 2])):
            d = gen.beam(rng, max_spans=3, loads=0, npts=False, sections=0.45,
                         kf=0.3, gav=0.3, springs=0.2, settle=0.35)
            if geoms and rng.random() < 0.5:  # two models that differ in one property
                near = {k: v for k, v in geoms[0].items() if k != "kinds"}
                d = gen.near_def(rng, near) or d
                d["LM"] = []
            d["kinds"] = {"L": rng.choice(["list", "list", "array", "tuple"]),
                          "R": rng.choice(["list", "list", "array"]),
                          "D": rng.choice(["list", "list", "tuple"]),
                          "et": rng.choice(["list", "list", "array"])}
            geoms.append(d)
        n = min(len(d["L"]) for d in geoms)
        small = {"L": [min(d["L"][i] for d in geoms) for i in range(n)], "kf": None}
        LMs = [[gen.load(rng, small) for _ in range(rng.randint(1, 3))] for _ in range(3)]
        axles = [dict(gen.vehicle(rng), kind=rng.choice(["list", "array", "tuple"]))
                 for _ in range(2)]
        tend = [[gen_profile(rng, l) for l in d["L"]] for d in geoms]
        pool = {"op": "pool", "c": 0, "geoms": geoms, "LMs": LMs, "axles": axles, "tend": tend}
        nlib = rng.sample(range(len(LIB)), 3)
        g_of, models, bridges, lcs, pats = {}, [], [], [], []
        vehs = []
        ops = []
        nLM = [3]

        def f(p=0.25):
            return gen.pick_fault(rng, kinds, p)

        def emit(op, **kw):
            ops.append(dict({"op": op, "c": rng.randrange(3)}, **kw))

        def cin(what, g, j=None):
            emit("cin", what=what, k=rng.randrange(3), g=g,
                 j=rng.randrange(6) if j is None else j, f=round(rng.uniform(0.4, 2.5), 2),
                 row=gen.load(rng, small))

        def mk(kind=None):
            m = len(models) + len(bridges)
            g = rng.randrange(len(geoms))
            g_of[m] = g
            if kind == "bridge":
                bridges.append(m)
                emit("mkb", m=m, g=g, k=rng.choice([None, 0, 1, 2]),
                     how=rng.choice(["ba", "ba", "set", "add"]), b=0, fault=f(0.15))
                bveh(m)
            else:
                models.append(m)
                emit("mk", m=m, g=g, k=rng.choice([None, 0, 1, 2]),
                     how=rng.choice(["ctor", "ctor", "set", "rows"]), fault=f(0.15))
            if rng.random() < 0.4:  # the caller goes on using what it gave
                d = geoms[g]
                what = [w for w in ("D", "kf", "GAv", "kf", "GAv") if d[w] is not None]
                w = rng.choice(what + rng.sample(["L", "EI", "R", "et"], 2))
                js = [j for j, q in enumerate(d["GAv"] or []) if isinstance(q, float)] \
                    if w == "GAv" else [j for j, q in enumerate(d["kf"] or []) if q is not None] \
                    if w == "kf" else [j for j, q in enumerate(d["R"]) if q == -1] \
                    if w == "D" else []
                cin(w, g, rng.choice(js) if js else None)

        def bveh(m):
            if vehs and rng.random() < 0.6:
                emit("bveh", m=m, b=0, v=rng.choice(vehs), a=None)
            else:
                emit("bveh", m=m, b=0, v=None, a=rng.randrange(2))

        def newveh():
            v = len(vehs)
            q = rng.random()
            if q < 0.45 or not vehs:
                path, argl = LIB[rng.choice(nlib) if rng.random() < 0.8 else
                                 rng.randrange(len(LIB))]
                emit("vlib", v=v, path=path, args=rng.choice(argl), fault=f(0.1))
            elif q < 0.6:
                emit("vnew", v=v, a=rng.randrange(2), fault=f(0.1))
            elif q < 0.7:
                emit("vfrom", v=v, w=rng.choice(vehs), fault=f(0.1))
            elif q < 0.8:
                emit("vcopy", v=v, w=rng.choice(vehs), how=rng.choice(["rev", "rev", "deep"]),
                     fault=f(0.1))
            else:
                ws = [rng.choice(vehs) for _ in range(rng.randint(1, 3))]
                emit("train", v=v, ws=ws, sp=[gen.r2(rng.uniform(2, 9)) for _ in ws[1:]],
                     kind=rng.choice(["list", "array"]), fault=f(0.15))
            vehs.append(v)

        newveh()
        for _ in range(rng.randint(2, 3)):
            mk()
        if rng.random() < 0.7:
            mk("bridge")
        N = rng.randint(14, 22) if tier == "quick" else rng.randint(20, 45)
        for _ in range(N):
            q = rng.random()
            if q < 0.05 and len(models) < 6:
                mk()
            elif q < 0.08 and len(bridges) < 2:
                mk("bridge")
            elif q < 0.23:
                newveh()
            elif q < 0.29 and vehs:
                emit("vrev", v=rng.choice(vehs))
            elif q < 0.36 and vehs:
                emit("vedit", v=rng.choice(vehs), i=rng.randrange(40),
                     w=float(rng.randint(10, 200)))
            elif q < 0.54:
                m = rng.choice(models + bridges)
                d = geoms[g_of[m]]
                r = rng.random()
                if r < 0.2:
                    emit("load", m=m, row=gen.load(rng, d), how=rng.choice(["api", "raw"]))
                elif r < 0.3:
                    emit("loads", m=m, LM=[gen.load(rng, d) for _ in range(rng.randint(0, 2))])
                elif r < 0.45:
                    emit("loadsk", m=m, k=rng.randrange(nLM[0]))
                elif r < 0.55:
                    emit("addrow", m=m, k=rng.randrange(nLM[0]), j=rng.randrange(4))
                elif r < 0.8:
                    emit("inrow", m=m, j=rng.randrange(4), f=round(rng.uniform(0.3, 3), 2))
                elif r < 0.9:
                    R = gen.restraint_edit(rng, d)
                    if R:
                        emit("R", m=m, R=R)
                else:
                    g = rng.randrange(len(geoms))
                    if geoms[g]["D"] is None:
                        g = g_of[m]
                    w = rng.choice(["R", "D"])
                    emit("set" + w, m=m, g=g)
                    if rng.random() < 0.6:  # the caller goes on using that list
                        js = [j for j, r in enumerate(geoms[g]["R"]) if (r == -1) == (w == "D")]
                        cin(w, g, rng.choice(js or [0]))
            elif q < 0.68:
                m = rng.choice(models + bridges)
                emit("analyze", m=m, npts=rng.choice([None, None, 20, 30]), check=True,
                     fault=f(0.3))
            elif q < 0.74 and bridges:
                m = rng.choice(bridges)
                if rng.random() < 0.4:
                    bveh(m)
                emit("brun", m=m, b=0, n=rng.randint(2, 4), lane=rng.choice(
                    [None, None, 8.0]), fault=f(0.3))
            elif q < 0.88:
                what = rng.choice(["LM", "LM", "LMapp", "LMdel", "R", "D", "L", "EI", "axw",
                                   "axs", "sec", "tend", "et", "kf", "GAv"])
                cin(what, rng.randrange(len(geoms)))
            elif q < 0.91:
                emit("tendon", m=rng.choice(models + bridges), g=None, k=nLM[0],
                     force=[round(rng.uniform(500, 3000), 1) for _ in range(3)],
                     scalar=rng.random() < 0.4, fault=f(0.15))
                nLM[0] += 1
            elif q < 0.96:
                r = rng.random()
                if rng.random() < 0.3:
                    x = rng.randrange(4)
                    emit("lcone", x=x, k=rng.randrange(nLM[0]), of=rng.choice([None, 0, 1]),
                         do=rng.choice(["mk", "mk", "udl", "pl", "edit", "del", "lm", "env",
                                        "env"]),
                         w=gen.r2(rng.uniform(2, 30)), m=rng.choice(models))
                elif not lcs or r < 0.25:
                    lcs.append(len(lcs))
                    emit("lcmk", x=lcs[-1], m=rng.choice(models))
                    emit("lcadd", x=lcs[-1], name="a", k=rng.randrange(nLM[0]),
                         how=rng.choice(["add", "add_case", "set", "append"]))
                elif r < 0.5:
                    emit("lcadd", x=rng.choice(lcs), name=rng.choice("ab"),
                         k=rng.randrange(nLM[0]), how=rng.choice(["set", "rows", "extend"]))
                elif r < 0.75:
                    emit("lcin", x=rng.choice(lcs), name=rng.choice("ab"), j=rng.randrange(3),
                         f=round(rng.uniform(0.3, 3), 2), via=rng.choice(["case", "to_LM"]))
                else:
                    emit("lcget", x=rng.choice(lcs), name="a", fault=f(0.25))
            elif q < 0.98:
                if not pats or rng.random() < 0.4:
                    pats.append(len(pats))
                    emit("patmk", x=pats[-1], m=rng.choice(models))
                emit("patset", x=rng.choice(pats), k=rng.randrange(nLM[0]),
                     which=rng.choice(["dead", "live"]),
                     how=rng.choice(["list", "case"]))
            elif q < 0.99:
                emit("ilmk", x=len(ops), g=rng.randrange(len(geoms)))
            else:
                emit("parse", text=rng.choice(PARSE), j=rng.randrange(4), fault=f(0.2))
        emit("vlib", v=len(vehs), path=LIB[nlib[0]][0], args=LIB[nlib[0]][1][0])
        for m in models + bridges:
            emit("analyze", m=m, npts=None, check=True)
        for m in bridges:
            emit("brun", m=m, b=0, n=2, lane=None)
        return {"ops": number([pool] + ops), "faults": kinds}

    # ------------------------------------------------------------------ ledger
    def __init__(self, ctx):
        super().__init__(ctx)
        self.geo, self.LM, self.ax, self.td = [], {}, [], []
        self.wgeo, self.wLM, self.wax, self.wtd = [], {}, [], []
        self.veh, self.wveh = {}, {}
        self.lc, self.wlc = {}, {}
        self.one, self.envs = {}, []
        self.pat, self.wpat = {}, {}
        self.il = []
        self.memo = {}

    def run(self):
        for i, op in enumerate(self.ctx.spec["ops"]):
            self.ctx.iop = op.get("i", i)
            getattr(self, "op_" + op["op"])(op)
            self.verify(op)
            if self.ctx.violations:
                return

    def op_pool(self, op):
        for d in copy.deepcopy(op["geoms"]):
            kd = d["kinds"]
            o = {"L": as_kind(d["L"], kd["L"]), "R": as_kind(d["R"], kd["R"]),
                 "D": None if d["D"] is None else as_kind(d["D"], kd["D"]),
                 "et": as_kind(d["eletype"], kd["et"]), "EI": [world.rigidity(e) for e in d["EI"]],
                 "GAv": None if not d["GAv"] else [world.rigidity(e) for e in d["GAv"]],
                 "kf": None if not d["kf"] else list(d["kf"])}
            if rng_same(d):   # one section object used for two spans
                o["EI"][1] = o["EI"][0]
                d["EI"][1] = copy.deepcopy(d["EI"][0])
                d["tied"] = True
            d["types"] = {k: type(v) for k, v in o.items()}
            d["ext"] = {}
            self.geo.append(o)
            self.wgeo.append(d)
        for k, LM in enumerate(op["LMs"]):
            self.LM[k] = copy.deepcopy(LM)
            self.wLM[k] = copy.deepcopy(LM)
        for a in op["axles"]:
            self.ax.append({"axs": as_kind(a["axs"], a["kind"]),
                            "axw": as_kind(a["axw"], a["kind"])})
            self.wax.append(copy.deepcopy(a))
        for row in op["tend"]:
            self.td.append([profile(p) for p in row])
            self.wtd.append(copy.deepcopy(row))

    def now(self, g, k=None):
        """Definition a model built from geometry g and load list k must have."""
        w = self.wgeo[g]
        d = {x: copy.deepcopy(w[x]) for x in ("L", "EI", "R", "eletype", "D", "GAv", "kf")}
        d["LM"] = [] if k is None else copy.deepcopy(self.wLM[k])
        d["npts"] = 100
        return d

    def extended(self, g):
        return bool(self.wgeo[g]["ext"])

    # ------------------------------------------------------------------ verify
    def verify(self, op):
        c, what = self.ctx.check, op["op"]
        for g, (o, w) in enumerate(zip(self.geo, self.wgeo)):
            for k, key in (("L", "L"), ("R", "R"), ("D", "D"), ("et", "eletype"), ("kf", "kf")):
                if o[k] is None:
                    continue
                c(type(o[k]) is w["types"][k] and flat(o[k]) == flat(w[key]), "input-changed",
                  f"the caller's {k} list of geometry {g} was changed by '{what}': "
                  f"{flat(o[k])} instead of {flat(w[key])}")
            for k in ("EI", "GAv"):
                if o[k] is None:
                    continue
                for i, e in enumerate(o[k]):
                    we = w[k][i]
                    if not isinstance(we, dict):
                        c(e == we, "input-changed", f"rigidity {i} was changed by '{what}'")
                        continue
                    L = sum_seg(we)
                    x = np.linspace(0.0, L, 23)
                    c(e.length == L + w["ext"].get((k, i), 0.0), "input-changed",
                      f"the length of a shared section was changed by '{what}'")
                    key = ("sec", repr(we))
                    if key not in self.memo:
                        self.memo[key] = np.array(world.rigidity(we)(x))
                    c(diff_exact(np.array(e(x)), self.memo[key]), "input-changed",
                      f"a shared section was changed by '{what}':")
        for k in self.LM:
            c(same_rows(self.LM[k], self.wLM[k]), "input-changed",
              f"the caller's load list {k} was changed by '{what}': {self.LM[k]} instead of "
              f"{self.wLM[k]}")
        for a, w in zip(self.ax, self.wax):
            c(flat(a["axs"]) == flat(w["axs"]) and flat(a["axw"]) == flat(w["axw"]),
              "input-changed", f"the caller's axle data were changed by '{what}'")
        for row, wrow in zip(self.td, self.wtd):
            for p, w in zip(row, wrow):
                c(p is None or {k: getattr(p, k) for k in w["kw"]} == w["kw"], "input-changed",
                  f"a shared tendon profile was changed by '{what}'")
        for m, s in self.s.items():
            key = ("def", repr(s.d))
            if key not in self.memo:
                self.memo[key] = defn_want(s.d)
            if not c(diff_exact(defn(s.obj), self.memo[key]), "model-changed",
                     f"model {m} was changed by '{what}' on {op.get('m', op.get('v'))}:"):
                return
            if m != op.get("m"):
                c(results_ok(s), "results-changed", f"results of model {m} were changed by "
                                                    f"'{what}' on {op.get('m', op.get('v'))}:")
        for v, o in self.veh.items():
            self.check_veh(f"vehicle {v}", o, self.wveh[v], what)
        for x, o in self.lc.items():
            w = self.wlc[x]
            c(same_cases(o.to_LM(), w), "cases-changed",
              f"load cases {x} were changed by '{what}': {o.to_LM()} instead of {w}")
        for x, (o, w) in self.one.items():
            c(same_rows(o.loads, w), "cases-changed",
              f"the load case {x} was changed by '{what}': {o.loads} instead of {w}")
        for o, w in self.envs:
            c(diff_exact(world.snap_env(o, deep=False), w), "envelope-changed",
              f"an envelope was changed by '{what}':")
        for x, o in self.pat.items():
            w = self.wpat[x]
            c(all(same_rows(getattr(o, k) or [], w[k] or []) for k in ("LMg", "LMq")),
              "pattern-changed", f"pattern {x} was changed by '{what}': {o.LMg} {o.LMq} "
                                 f"instead of {w}")
        for o, w in self.il:
            c(diff_exact(defn(o.ba), w), "model-changed",
              f"an influence-line model was changed by '{what}':")

    def check_veh(self, name, o, w, what):
        got = veh_snap(o)
        co = np.concatenate([[0.0], np.cumsum(w["axs"])])
        c = self.ctx.check
        c(got["axs"] == w["axs"] and got["axw"] == w["axw"], "vehicle-changed",
          f"{name} after '{what}': axles {got['axs']} {got['axw']} instead of {w['axs']} "
          f"{w['axw']}")
        c(diff_close(got["coords"], list(co), 1e-9, 1e-9), "vehicle-changed",
          f"{name} after '{what}', axle coordinates:")
        c(abs(got["L"] - co[-1]) <= 1e-9 * max(1, co[-1]) and got["n"] == len(w["axw"]),
          "vehicle-changed", f"{name} after '{what}': length or axle count")

    # ------------------------------------------------------------------ models
    def op_mk(self, op):
        import pycba as cba
        if op["g"] >= len(self.geo) or (op["k"] is not None and op["k"] not in self.LM):
            return
        o, k = self.geo[op["g"]], op["k"]
        LM = None if k is None else self.LM[k]

        def go():
            kw = {"GAv": o["GAv"], "kf": o["kf"], "eletype": o["et"], "D": o["D"]}
            if op["how"] == "ctor" or LM is None:
                return cba.BeamAnalysis(o["L"], o["EI"], o["R"], LM, **kw)
            ba = cba.BeamAnalysis(o["L"], o["EI"], o["R"], **kw)
            if op["how"] == "set":
                ba.set_loads(LM)
            else:
                for r in LM:
                    ba.beam.add_load(r)
            return ba

        self.built(op, go, self.now(op["g"], k))

    def built(self, op, go, d):
        out, fired = self.ctx.call(op, go)
        if out[0] == "err":
            if not fired:
                self.ctx.check(self.extended(op["g"]) and out[1] == "ValueError", "unexpected",
                               f"building a model failed: {out[1]} {out[2]}")
            return None
        if not self.ctx.check(not self.extended(op["g"]), "unexpected",
                              "a section of another length was accepted"):
            return None
        s = Slot(out[1] if not isinstance(out[1], tuple) else out[1][0], d)
        self.s[op["m"]] = s
        return out[1]

    def op_mkb(self, op):
        import pycba as cba
        if op["g"] >= len(self.geo) or (op["k"] is not None and op["k"] not in self.LM):
            return
        o, k = self.geo[op["g"]], op["k"]
        d = self.now(op["g"], k)
        if op["how"] == "add":
            d.update(D=None, kf=None, LM=[])
            if gen.stability(d) is None:
                return

        def go():
            if op["how"] == "add":
                br = cba.BridgeAnalysis()
                br.add_bridge(o["L"], o["EI"], o["R"], o["et"], o["GAv"])
                return br.ba, br
            ba = cba.BeamAnalysis(o["L"], o["EI"], o["R"], None if k is None else self.LM[k],
                                  eletype=o["et"], D=o["D"], GAv=o["GAv"], kf=o["kf"])
            if op["how"] == "set":
                br = cba.BridgeAnalysis()
                br.set_bridge(ba)
                return ba, br
            return ba, cba.BridgeAnalysis(ba)

        r = self.built(op, go, d)
        if r is not None:
            self.s[op["m"]].br = {0: {"o": r[1], "ref": None, "own": None}}

    def bro(self, op):
        s = self.slot(op)
        return s.br[0] if s is not None and getattr(s, "br", None) else None

    def op_bveh(self, op):
        b = self.bro(op)
        if b is None:
            return
        if op["v"] is not None:
            if op["v"] not in self.veh:
                return
            out, _ = self.ctx.call(op, lambda: b["o"].set_vehicle(self.veh[op["v"]]))
            b["ref"], b["own"] = op["v"], None
        else:
            if op["a"] >= len(self.ax):
                return
            a = self.ax[op["a"]]
            out, _ = self.ctx.call(op, lambda: b["o"].add_vehicle(a["axs"], a["axw"]))
            b["ref"], b["own"] = None, strip(self.wax[op["a"]])

    def sync(self, s):
        if getattr(s, "br", None):
            s.br[0]["o"].set_bridge(s.obj)

    def op_loads(self, op):
        super().op_loads(op)
        if self.slot(op) is not None:
            self.sync(self.slot(op))

    def op_loadsk(self, op):
        s = self.slot(op)
        if s is None or op["k"] not in self.LM:
            return
        out, _ = self.ctx.call(op, lambda: s.obj.set_loads(self.LM[op["k"]]))
        if out[0] == "ok":
            s.d["LM"] = copy.deepcopy(self.wLM[op["k"]])
            self.sync(s)

    def op_addrow(self, op):
        s = self.slot(op)
        if s is None or op["k"] not in self.LM or not self.LM[op["k"]]:
            return
        j = op["j"] % len(self.LM[op["k"]])
        out, _ = self.ctx.call(op, lambda: s.obj.beam.add_load(self.LM[op["k"]][j]))
        if out[0] == "ok":
            s.d["LM"].append(copy.deepcopy(self.wLM[op["k"]][j]))

    def op_inrow(self, op):
        """Edit one row of a model's own load matrix in place."""
        s = self.slot(op)
        if s is None or not s.d["LM"] or not len(s.obj.beam.loads):
            return
        j = op["j"] % len(s.d["LM"])
        if j >= len(s.obj.beam.loads):
            return
        v = round(s.d["LM"][j][2] * op["f"], 8)
        s.obj.beam.loads[j][2] = v
        s.d["LM"][j][2] = v
        self.ctx.sig.append("inrow")

    def op_setR(self, op):
        s = self.slot(op)
        if s is None or op["g"] >= len(self.geo) or \
                len(self.wgeo[op["g"]]["R"]) != len(s.d["R"]):
            return
        R = self.geo[op["g"]]["R"]

        def go():
            s.obj.beam.restraints = R

        out, _ = self.ctx.call(op, go)
        if out[0] == "ok":
            s.d["R"] = copy.deepcopy(self.wgeo[op["g"]]["R"])

    def op_setD(self, op):
        s = self.slot(op)
        if s is None or op["g"] >= len(self.geo) or self.geo[op["g"]]["D"] is None or \
                len(self.wgeo[op["g"]]["D"]) != len(s.d["R"]):
            return
        D = self.geo[op["g"]]["D"]

        def go():
            s.obj.beam.prescribed_displacements = D

        out, _ = self.ctx.call(op, go)
        if out[0] == "ok":
            s.d["D"] = copy.deepcopy(self.wgeo[op["g"]]["D"])

    def analyzed(self, s, op, out, fired, snap, d_try, before):
        if fired:   # C02 judges interrupted analyses; here the state is only recorded
            br = s.obj.beam_results
            s.res = None if br is None else world.snap(br)
            if out[0] == "err":
                s.d["npts"] = int(s.obj.npts)
            return
        obs = ["ok", snap] if out[0] == "ok" else ["err", out[1]]
        self.ask_static(dict(d_try), True, obs, "result",
                        f"analysis of model {op['m']}, built from shared inputs:")

    def op_brun(self, op):
        s, b = self.slot(op), self.bro(op)
        if b is None or (b["ref"] is None and b["own"] is None):
            return
        v = strip(self.wveh[b["ref"]]) if b["ref"] is not None else b["own"]
        b["veh"] = copy.deepcopy(v)
        T = sum(s.d["L"])
        a = {"op": "run", "start": 0.01137, "end": round(T + sum(v["axs"]) * 0.8, 3),
             "shear": None, "dv": None, "lane": op["lane"], "clear": None}
        a["step"] = round((a["end"] - a["start"]) / op["n"], 4)
        out, fired = self.ctx.call(op, lambda: self._do(b, a))
        snap = None
        if out[0] == "ok":
            snap = {"pos": [float(p) for p in b["o"].pos],
                    "res": [world.snap(r) for r in b["o"].vResults]}
            self.ctx.log("run", len(snap["pos"]), digest(snap))
        br = s.obj.beam_results
        s.res = None if br is None else world.snap(br)
        if not fired:
            self.ask_positions(s, b, a, out, snap, "traverse",
                               f"traverse of bridge {op['m']}, built from shared inputs:")

    # ---------------------------------------------------------------- vehicles
    def op_vlib(self, op):
        out, fired = self.ctx.call(op, lambda: lib_get(op["path"], op["args"]))
        if fired and out[0] == "err":
            return
        obs = ["ok", lib_snap(out[1])] if out[0] == "ok" else ["err", out[1]]
        self.ctx.query("lib", [op["path"], op["args"]], obs, "library-vehicle",
                       f"library vehicle {'.'.join(op['path'])}{tuple(op['args'])} is not the "
                       "one a new process gives:", rtol=1e-12, mode="outcome")
        if out[0] == "ok":
            self.veh[op["v"]] = out[1]
            self.wveh[op["v"]] = strip(veh_snap(out[1]))

    def newv(self, op, fn, want):
        out, fired = self.ctx.call(op, fn)
        if out[0] == "err":
            self.ctx.check(fired, "unexpected", f"{op['op']} failed: {out[1]} {out[2]}")
            return
        self.veh[op["v"]], self.wveh[op["v"]] = out[1], want
        got = veh_snap(out[1])
        # built vehicles may differ from the ledger by rounding; from now on exactly
        self.ctx.check(diff_close(got["axs"], want["axs"], 1e-12) or
                       diff_close(got["axw"], want["axw"], 1e-12), "vehicle-derived",
                       f"{op['op']} does not reflect its source:")
        if not self.ctx.violations:
            self.wveh[op["v"]] = strip(got)
        self.ctx.check(abs(float(out[1].W) - sum(want["axw"])) <= 1e-9 * sum(want["axw"]),
                       "vehicle-derived", f"{op['op']}: total weight {out[1].W}")

    def op_vnew(self, op):
        import pycba as cba
        if op["a"] >= len(self.ax):
            return
        a = self.ax[op["a"]]
        self.newv(op, lambda: cba.Vehicle(a["axs"], a["axw"]), strip(self.wax[op["a"]]))

    def op_vfrom(self, op):
        import pycba as cba
        if op["w"] not in self.veh:
            return
        w = self.veh[op["w"]]
        self.newv(op, lambda: cba.Vehicle(w.axs, w.axw), strip(self.wveh[op["w"]]))

    def op_vcopy(self, op):
        if op["w"] not in self.veh:
            return
        w, l = self.veh[op["w"]], strip(self.wveh[op["w"]])
        if op["how"] == "deep":
            out, fired = self.ctx.call(op, lambda: copy.deepcopy(w))
            if out[0] == "ok":
                self.veh[op["v"]], self.wveh[op["v"]] = out[1], l
            return
        self.newv(op, lambda: w.reverse(in_place=False),
                  {"axs": l["axs"][::-1], "axw": l["axw"][::-1]})

    def op_vrev(self, op):
        v = self.veh.get(op["v"])
        if v is None:
            return
        out, _ = self.ctx.call(op, lambda: v.reverse())
        if self.ctx.check(out[0] == "ok", "unexpected", f"reverse failed: {out[1]}"):
            w = self.wveh[op["v"]]
            self.wveh[op["v"]] = {"axs": w["axs"][::-1], "axw": w["axw"][::-1]}

    def op_vedit(self, op):
        v = self.veh.get(op["v"])
        if v is None:
            return
        w = self.wveh[op["v"]]
        i = op["i"] % len(w["axw"])
        v.axw[i] = op["w"]
        w["axw"][i] = float(v.axw[i])
        self.ctx.sig.append("vedit")

    def op_train(self, op):
        import pycba as cba
        if not all(w in self.veh for w in op["ws"]):
            return
        vs = [self.veh[w] for w in op["ws"]]
        ls = [strip(self.wveh[w]) for w in op["ws"]]
        sp = as_kind(op["sp"], op["kind"])
        axs, axw = [], []
        for i, l in enumerate(ls):
            if i:
                axs.append(op["sp"][i - 1])
            axs += l["axs"]
            axw += l["axw"]
        keep = list(vs)
        self.newv(op, lambda: cba.make_train(vs, sp), {"axs": axs, "axw": axw})
        self.ctx.check(len(vs) == len(keep) and all(a is b for a, b in zip(vs, keep)) and
                       flat(sp) == flat(op["sp"]), "input-changed",
                       "make_train changed the lists it was given")

    # ------------------------------------------------------- the caller's edits
    def op_cin(self, op):
        what, g, k, j, f = op["what"], op["g"], op["k"], op["j"], op["f"]
        if g >= len(self.geo) or k not in self.LM:
            return
        o, w = self.geo[g], self.wgeo[g]
        self.ctx.sig.append("cin-" + what)
        self.ctx.stat("probe:caller-edit-" + what)
        if what == "LM" and self.wLM[k]:
            j %= len(self.wLM[k])
            v = round(self.wLM[k][j][2] * f, 8)
            self.LM[k][j][2] = v
            self.wLM[k][j][2] = v
        elif what == "LMapp":
            self.LM[k].append(list(op["row"]))
            self.wLM[k].append(list(op["row"]))
        elif what == "LMdel" and self.wLM[k]:
            j %= len(self.wLM[k])
            del self.LM[k][j], self.wLM[k][j]
        elif what == "R":
            # add restraint only: the geometry stays stable
            j %= len(w["R"])
            if w["R"][j] == 0:
                o["R"][j] = 5000.0
                w["R"][j] = 5000.0
        elif what == "D" and o["D"] is not None and not isinstance(o["D"], tuple):
            j %= len(w["D"])
            if w["R"][j] == -1:
                v = round(0.003 * f, 6)
                o["D"][j] = v
                w["D"][j] = v
        elif what == "L" and not isinstance(o["L"], tuple):
            j %= len(w["L"])
            if isinstance(w["EI"][j], dict) or isinstance((w["GAv"] or [0] * 9)[j], dict):
                return
            v = round(w["L"][j] + 0.5 * f, 3)
            o["L"][j] = v
            w["L"][j] = v
        elif what == "EI":
            j %= len(w["EI"])
            v = float(round(3e4 * f))
            o["EI"][j] = v
            w["EI"][j] = v
            w["ext"].pop(("EI", j), None)
        elif what == "kf" and o["kf"] is not None:
            j %= len(w["kf"])
            if w["kf"][j] is not None:
                v = float(round(900 * f))
                o["kf"][j] = v
                w["kf"][j] = v
        elif what == "GAv" and o["GAv"] is not None:
            j %= len(w["GAv"])
            if isinstance(w["GAv"][j], float):
                v = float(round(3e4 * f))
                o["GAv"][j] = v
                w["GAv"][j] = v
        elif what == "et" and o["et"][-1] == 1 and len(o["et"]) > 1 and not w["kf"]:
            d = self.now(g)
            d["eletype"][-1] = 3
            if gen.stability(d) == "stable":
                o["et"][-1] = 3
                w["eletype"][-1] = 3
        elif what in ("axw", "axs"):
            a, wa = self.ax[g % len(self.ax)], self.wax[g % len(self.ax)]
            if isinstance(a[what], tuple) or not len(wa[what]):
                return
            j %= len(wa[what])
            v = round(wa[what][j] * f + 1.0, 3)
            a[what][j] = v
            wa[what][j] = v
        elif what == "sec":
            for key in ("EI", "GAv"):
                for i, e in enumerate(o[key] or []):
                    if isinstance(w[key][i], dict) and ("hit" not in w):
                        w["hit"] = True
                        e.add_segment("const", [e.length, e.length + 2.0], 1e4 * f)
                        for i2, e2 in enumerate(o[key]):
                            if e2 is e:
                                w["ext"][(key, i2)] = 2.0
                        return
        elif what == "tend":
            row, wrow = self.td[g], self.wtd[g]
            for p, wp in zip(row, wrow):
                if p is not None:
                    nm = "e_left"
                    v = round(0.1 * f, 4)
                    setattr(p, nm, v)
                    wp["kw"][nm] = v
                    return

    # ----------------------------------------------------------------- tendons
    def op_tendon(self, op):
        import pycba.prestress as ps
        s = self.slot(op)
        if s is None:
            return
        n = len(s.d["L"])
        gs = [g for g in range(len(self.td)) if len(self.td[g]) == n]
        if not gs:
            return
        g = gs[-1]
        F = op["force"][0] if op["scalar"] else (op["force"] * 2)[:n]
        profs = self.td[g]
        Fo = copy.copy(F)
        out, fired = self.ctx.call(op, lambda: ps.equivalent_loads(s.obj, Fo, profs))
        self.ctx.check(Fo == F, "input-changed", "the tendon forces were changed")
        if fired and out[0] == "err":
            return
        obs = ["ok", [[float(v) for v in r] for r in out[1]]] if out[0] == "ok" else \
            ["err", out[1]]
        d = {k: v for k, v in s.d.items() if k != "LM"}
        self.ctx.query("tendon", [dict(d, LM=[]), F, self.wtd[g]], obs, "tendon",
                       f"equivalent loads on model {op['m']} from a shared tendon:", rtol=1e-12,
                       mode="outcome")
        if out[0] == "ok":
            self.LM[op["k"]] = out[1]
            self.wLM[op["k"]] = copy.deepcopy(out[1])

    # -------------------------------------------------------- cases and patterns
    def op_lcmk(self, op):
        import pycba as cba
        s = self.slot(op)
        if s is None:
            return
        out, _ = self.ctx.call(op, lambda: cba.LoadCases(s.obj))
        if out[0] == "ok":
            self.lc[op["x"]], self.wlc[op["x"]] = out[1], {}
            out[1].sim_m = op["m"]

    def op_lcadd(self, op):
        import pycba as cba
        lc = self.lc.get(op["x"])
        if lc is None or op["k"] not in self.LM:
            return
        w, nm, LM, how = self.wlc[op["x"]], op["name"], self.LM[op["k"]], op["how"]
        if nm in w and how in ("add", "add_case", "append", "extend"):
            how = "set"

        def go():
            if how == "add":
                lc.add(nm, LM)
            elif how == "add_case":
                lc.add_case(nm, LM)
            elif how == "append":
                lc.append(cba.LoadCase(nm, LM))
            elif how == "extend":
                lc.extend([cba.LoadCase(nm, LM)])
            elif how == "rows":
                for r in LM:
                    lc.add_load(nm, r)
            else:
                lc.set(nm, LM)

        out, _ = self.ctx.call(op, go)
        if self.ctx.check(out[0] == "ok", "unexpected", f"adding a case failed: {out[1]} {out[2]}"):
            rows = copy.deepcopy(self.wLM[op["k"]])
            if how == "rows":
                if rows:
                    w[nm] = w.get(nm, []) + rows
            else:
                w[nm] = rows

    def op_lcone(self, op):
        """Load cases of their own, from shared rows or from each other's; envelopes of a list."""
        import pycba as cba
        x, do, w = op["x"], op["do"], op["w"]
        if do == "env":
            s = self.slot(op)
            if s is None or s.obj.beam_results is None:
                return
            given = [s.obj.beam_results]
            out, _ = self.ctx.call(op, lambda: cba.Envelopes(given))
            if out[0] == "ok":
                before = world.snap_env(out[1])
                given.append(given[0])      # the list stays the caller's
                if w > 16:
                    given.clear()
                after = outcome(lambda: (world.snap_env(out[1]),
                                         len(out[1].per_span("Mmax")) == len(s.d["L"])))
                if self.ctx.check(after[0] == "ok" and after[1][1] and
                                  diff_exact(before, after[1][0]) is None, "envelope-changed",
                                  "changing the list an envelope was made of changed the envelope"):
                    self.envs.append((out[1], world.snap_env(out[1], deep=False)))
            return
        if do == "mk":
            if op["of"] is not None and op["of"] in self.one and op["of"] != x:
                o, rows = self.one[op["of"]]
                given = o.loads
            elif op["k"] in self.LM:
                given, rows = self.LM[op["k"]], self.wLM[op["k"]]
            else:
                return
            out, _ = self.ctx.call(op, lambda: cba.LoadCase(f"one{x}", given))
            if self.ctx.check(out[0] == "ok", "unexpected", f"making a case failed: {out[1]}"):
                self.one[x] = (out[1], copy.deepcopy(rows))
            return
        if x not in self.one:
            return
        o, rows = self.one[x]
        if do == "udl":
            self.ctx.call(op, lambda: o.add_udl(1, w))
            rows.append([1, 1, w])
        elif do == "pl":
            self.ctx.call(op, lambda: o.add_pl(1, w, 1.5))
            rows.append([1, 2, w, 1.5])
        elif do == "lm":
            for r in o.to_LM():
                r[2] = -r[2]
        elif do == "edit" and rows:
            rows[0][2] = w
            o.loads[0][2] = w
        elif do == "del" and rows:
            del rows[0], o.loads[0]

    def op_lcin(self, op):
        lc = self.lc.get(op["x"])
        if lc is None or not self.wlc[op["x"]].get(op["name"]):
            return
        w = self.wlc[op["x"]][op["name"]]
        j = op["j"] % len(w)
        v = round(w[j][2] * op["f"], 8)
        if op["via"] == "to_LM":      # a copy: must not reach the stored case
            lc.case(op["name"], create=False).to_LM()[j][2] = v
            lc.to_LM()[op["name"]][j][2] = v
            return
        lc.case(op["name"], create=False).loads[j][2] = v
        w[j][2] = v

    def op_lcget(self, op):
        import pycba as cba
        lc = self.lc.get(op["x"])
        if lc is None or op["name"] not in self.wlc[op["x"]]:
            return
        s = self.s.get(lc.sim_m)
        if s is None:
            return
        case = lc.case(op["name"], create=False)

        def go():
            ba = cba.build_pycba_model(s.obj, case) if hasattr(cba, "build_pycba_model") else \
                __import__("pycba.load_cases", fromlist=["x"]).build_pycba_model(s.obj, case)
            ba.analyze(s.d["npts"])
            r = world.snap(ba.beam_results)
            # the built model is the caller's own from now on
            for row in ba.beam.loads:
                row[2] = -row[2]
            ba.beam.restraints[0] = -1
            return r

        out, fired = self.ctx.call(op, go)
        if fired and out[0] == "err":
            return
        obs = ["ok", out[1]] if out[0] == "ok" else ["err", out[1]]
        d = dict(copy.deepcopy(s.d), LM=copy.deepcopy(self.wlc[op["x"]][op["name"]]))
        self.ask_static(d, True, obs, "result", "analysis of a load case from shared rows:")

    def op_patmk(self, op):
        import pycba as cba
        s = self.slot(op)
        if s is None:
            return
        out, _ = self.ctx.call(op, lambda: cba.LoadPattern(s.obj))
        if out[0] == "ok":
            self.pat[op["x"]], self.wpat[op["x"]] = out[1], {"LMg": None, "LMq": None}

    def op_patset(self, op):
        import pycba as cba
        p = self.pat.get(op["x"])
        if p is None or op["k"] not in self.LM:
            return
        LM = self.LM[op["k"]]
        arg = cba.LoadCase("q", LM) if op["how"] == "case" else LM
        f = p.set_dead_loads if op["which"] == "dead" else p.set_live_loads
        out, _ = self.ctx.call(op, lambda: f(arg, 1.4, 0.9))
        if out[0] == "ok":
            self.wpat[op["x"]]["LMg" if op["which"] == "dead" else "LMq"] = \
                copy.deepcopy(self.wLM[op["k"]])

    def op_ilmk(self, op):
        import pycba as cba
        if op["g"] >= len(self.geo) or self.extended(op["g"]):
            return
        o = self.geo[op["g"]]
        out, _ = self.ctx.call(op, lambda: cba.InfluenceLines(o["L"], o["EI"], o["R"], o["et"]))
        if out[0] == "ok":
            self.il.append((out[1], defn(out[1].ba)))

    def op_parse(self, op):
        """A textual beam: the vectors are the caller's to change."""
        import pycba as cba
        out, fired = self.ctx.call(op, lambda: cba.parse_beam_string(op["text"]))
        if out[0] == "err":
            self.ctx.check(fired, "parse-refused", f"a beam text was refused: {out[1]} {out[2]}")
            return
        L, EI, R, et = out[1]
        self.ctx.query("parse", [op["text"]], ["ok", parse_snap(out[1])], "parsed-vectors",
                       "a beam text gives other vectors than the first time:", mode="outcome")
        ba = cba.BeamAnalysis(L, EI, R, eletype=et)
        want = defn(ba)
        for v in (L, EI, R, et):
            j = op["j"] % len(v)
            v[j] = 3 if v is et else v[j] + 7
        self.ctx.check(diff_exact(defn(ba), want), "model-changed",
                       "a model was changed through the vectors it was parsed from:")

    def finish(self):
        pass


def rng_same(d):
    return len(d["L"]) > 1 and d["L"][0] == d["L"][1] and isinstance(d["EI"][0], dict)


def sum_seg(e):
    return float(e["seg"][-1][1][-1])


def strip(v):
    return {"axs": flat(v["axs"]), "axw": flat(v["axw"])}


def same_rows(a, b):
    return len(a) == len(b) and all(
        type(x) is type(y) and list(x) == list(y) for x, y in zip(a, b))


def same_cases(got, want):
    return sorted(got) == sorted(want) and all(same_rows(got[k], want[k]) for k in want)


def defn_want(d):
    ba = world.build(d)
    ba.npts = d["npts"]
    return defn(ba)
