"""Builders, snapshots and oracles over the real pycba code."""
from __future__ import annotations

import numpy as np

import pycba as cba

from . import core
from .core import arr


# ------------------------------------------------------------------ building
def rigidity(e):
    if isinstance(e, dict):
        return cba.SectionEI([[s[0], list(s[1]), _law(s[2])] for s in e["seg"]])
    return e


class Linear:
    """A rigidity given as a callable."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __call__(self, x):
        return self.a + self.b * x


def _law(v):
    if isinstance(v, dict):
        return Linear(*v["fn"])
    return list(v) if isinstance(v, (list, tuple)) else v


def shaped(v, form):
    """The same values in another of the containers users pass."""
    v = list(v)
    if form == "tup":
        return tuple(v)
    if form == "arr" and not any(x is None or not isinstance(x, (int, float)) for x in v):
        return np.array(v, dtype=float)
    if form == "col" and not any(x is None or not isinstance(x, (int, float)) for x in v):
        return np.array(v, dtype=float).reshape(-1, 1)
    if form == "obj":
        return np.array(v, dtype=object)
    if form == "name":
        return [("FF", "fp", "PF ", "pp")[int(x) - 1] for x in v]
    if form == "member":
        return [cba.MemberType(int(x)) for x in v]
    return v


def shape_R(d, R):
    return shaped(R, (d.get("form") or {}).get("R"))


def shape_D(d, D):
    return shaped(D, (d.get("form") or {}).get("D"))


def as_supports(R):
    names = {(-1, 0): "p", (-1, -1): "fixed", (0, 0): "Free"}
    return [names.get((R[i], R[i + 1]), [R[i], R[i + 1]]) for i in range(0, len(R), 2)]


def build(d, LM=True):
    kw = {}
    f = d.get("form") or {}
    one = lambda v: len(v) > 1 and f.get("one") and all(
        isinstance(x, float) and x == v[0] for x in v)
    if d.get("GAv"):
        kw["GAv"] = d["GAv"][0] if one(d["GAv"]) else shaped(
            [rigidity(g) for g in d["GAv"]], f.get("GAv"))
    if d.get("kf"):
        kw["kf"] = d["kf"][0] if one(d["kf"]) else shaped(d["kf"], f.get("kf"))
    R = shape_R(d, d["R"])
    if f.get("sup"):
        R, kw["supports"] = None, as_supports(d["R"])
    if not (f.get("noet") and all(e == 1 for e in d["eletype"])):
        kw["eletype"] = shaped(d["eletype"], f.get("et"))
    rows = [list(r) if isinstance(r, list) else r for r in d["LM"]] if LM else None
    if rows is not None and f.get("LM"):
        rows = tuple(rows)
    return cba.BeamAnalysis(
        shaped(d["L"], f.get("L")),
        d["EI"][0] if one(d["EI"]) else shaped([rigidity(e) for e in d["EI"]], f.get("EI")), R, rows,
        D=shape_D(d, d["D"]) if d.get("D") else None, **kw)


def tup(rows):
    """JSON cannot hold tuples: {'t': [...]} stands for a (malformed) tuple row."""
    return [tuple(r["t"]) if isinstance(r, dict) else list(r) for r in rows]


def apply_load(ba, row, how):
    """Add one load through the method the user would call."""
    if isinstance(row, dict):
        ba.beam.add_load(tuple(row["t"]))
        return
    i, t = row[0], row[1]
    if how == "raw":
        ba.beam.add_load(list(row))
    elif t == 1:
        ba.add_udl(i, row[2])
    elif t == 2:
        ba.add_pl(i, row[2], row[3])
    elif t == 3:
        ba.add_pudl(i, row[2], row[3], row[4])
    elif t == 4:
        ba.add_ml(i, row[2], row[3])
    elif t == 5:
        if len(row) > 4:
            ba.add_trap(i, row[2], row[3], row[4], row[5])
        else:
            ba.add_trap(i, row[2], row[3])
    elif t == 6:
        ba.add_ic(i, list(row[2:]) if len(row) > 3 else row[2])
    else:
        ba.beam.add_load(list(row))


# ----------------------------------------------------------------- snapshots
def snap(br):
    """Copies of every number a BeamResults exposes."""
    r = br.results
    return {
        "x": arr(r.x), "M": arr(r.M), "V": arr(r.V), "rot": arr(r.R), "D": arr(r.D),
        "d": arr(br.D), "R": arr(br.R), "Rs": arr(br.Rs),
        "spans": [{"x": arr(m.x), "M": arr(m.M), "V": arr(m.V), "rot": arr(m.R),
                   "D": arr(m.D)} for m in br.vRes],
    }


ENV = ("x", "Vmax", "Vmin", "Mmax", "Mmin", "Vco_Mmax", "Vco_Mmin", "Mco_Vmax", "Mco_Vmin",
       "Rmax", "Rmin", "Rmaxval", "Rminval")


def snap_env(env, deep=True):
    out = {k: arr(getattr(env, k)) for k in ENV}
    out["npts"], out["nres"], out["nsup"] = int(env.npts), int(env.nres), int(env.nsup)
    if deep:
        out["res"] = [snap(r) for r in env.vResults]
    return out


def snap_nl(r):
    return {
        "lambda": float(r.collapse_lambda), "collapsed": bool(r.collapsed),
        "events": [[float(e.load_factor), float(e.location), int(e.node_index),
                    str(e.event_type)] for e in r.hinge_events],
        "x": arr(r.node_coords), "M": arr(r.final_moments), "fR": arr(r.final_R),
        "sup": arr(r.support_coords), "lh": arr(r.lambda_history),
        "mh": [arr(m) for m in r.moment_history], "u": arr(r.final_displacements),
    }


def snap_modal(r):
    return {"omega": arr(r.omega), "f": arr(r.f), "T": arr(r.periods), "phi": arr(r.phi),
            "x": arr(r.x)}


def modal_key(r):
    """Sign-independent view of the modes."""
    shapes = [arr(r.mode_shape(i)[1]) for i in range(r.n_modes)]
    return {"f": arr(r.f), "x": arr(r.x), "abs": [np.abs(s) for s in shapes]}


def rig_probe(e, L):
    if isinstance(e, cba.SectionEI):
        if not e.pieces:
            return ["empty"]
        return [float(e.length), arr(e(np.linspace(0.0, L, 23)))]
    return None if e is None else float(e)


def definition(ba):
    """The observable definition of a model (what the next analysis will use)."""
    b = ba.beam
    n = b.no_spans
    L = [float(v) for v in b.mbr_lengths]
    g = list(b.mbr_GAv)
    k = list(b.mbr_kf)
    return {
        "L": L, "length": float(b.length), "n": int(n),
        "EI": [rig_probe(b.mbr_EIs[i], L[i]) for i in range(len(b.mbr_EIs))],
        "GAv": [rig_probe(v, L[i]) for i, v in enumerate(g)],
        "kf": [None if v is None else float(v) for v in k],
        "et": [int(np.asarray(v).item()) for v in b.mbr_eletype],
        "R": [float(v) for v in b.restraints],
        "D": [None if v is None else float(v) for v in b.prescribed_displacements],
        "LM": norm_LM(b.loads), "npts": int(ba.npts),
    }


def norm_LM(LM):
    return [[type(r).__name__] + [float(v) for v in r] for r in LM]


def want_definition(d):
    """The definition the ledger says the model must have."""
    ba = build(d)
    ba.npts = d["npts"]
    return definition(ba)


def full_state(ba):
    """Definition plus completed results plus armed sections."""
    return {"def": definition(ba),
            "sp": None if ba.shear_points is None else
            {int(k): arr(v) for k, v in ba.shear_points.items()},
            "res": None if ba.beam_results is None else snap(ba.beam_results)}


# ------------------------------------------------------------------- oracles
def result(fn):
    out = core.outcome(fn)
    return [out[0], out[1]]


def o_static(d, check=True, shear=None):
    """A newly built model, analysed once."""
    def go():
        ba = build(d)
        if d.get("npts"):
            ba.npts = d["npts"]
        if shear:
            ba.shear_points = {int(k): np.array(v, dtype=float) for k, v in shear.items()}
        ba.analyze(check_stability=check)
        return snap(ba.beam_results)

    return result(go)


def o_stable(d):
    return result(lambda: bool(build(d).is_stable()))


def o_modal(d, mass, n, nseg=12):
    return result(lambda: modal_key(build(d).modal(mass, n_modes=n, nseg=nseg)))


def place(d, pos, veh):
    """Axle rows of a vehicle with its front axle at pos: the harness's own rule."""
    off, rows, near = 0.0, [], False
    nodes = [0.0]
    for l in d["L"]:
        nodes.append(nodes[-1] + l)
    for i, w in enumerate(veh["axw"]):
        if i:
            off += veh["axs"][i - 1]
        x = pos - off
        if abs(x) < 1e-7 or abs(x - nodes[-1]) < 1e-7:
            near = True
        if 0.0 <= x <= nodes[-1]:
            s = 0
            while s < len(d["L"]) - 1 and x >= nodes[s + 1]:
                s += 1
            rows.append([s + 1, 2, w, x - nodes[s]])
    return rows, near


def lane_rows(d, pos, veh, w, clear):
    nodes = [0.0]
    for l in d["L"]:
        nodes.append(nodes[-1] + l)
    T = nodes[-1]
    if clear is None:
        zones = [(0.0, T)]
    else:
        lo, hi = pos - sum(veh["axs"]) - clear[0], pos + clear[1]
        zones = [(0.0, min(lo, T)), (max(hi, 0.0), T)]
    rows = []
    for a, b in zones:
        for i in range(len(d["L"])):
            p, q = max(a, nodes[i]), min(b, nodes[i + 1])
            if q - p > 1e-9:
                rows.append([i + 1, 3, w, p - nodes[i], q - p])
    return rows


def axle_xs(d, pos, veh):
    xs, off = [], 0.0
    for i in range(len(veh["axw"])):
        if i:
            off += veh["axs"][i - 1]
        xs.append(pos - off)
    return xs


def o_positions(d, positions, veh, lane=None, clear=None, shear=None):
    """Separate static analyses of every position, in reverse order."""
    out = [None] * len(positions)
    for i in reversed(range(len(positions))):
        rows, near = place(d, positions[i], veh)
        if lane is not None:
            rows = rows + lane_rows(d, positions[i], veh, lane, clear)
        r = o_static(dict(d, LM=list(d["LM"]) + rows), shear=shear)
        out[i] = None if near else r
    return ["ok", out]


def run_nl(nb, a):
    if a["kind"] == "static":
        return nb.analyze([list(r) for r in a["LM"]], lambda_max=a["lmax"],
                          record_every=a["rec"])
    if a["kind"] == "P":
        return nb.analyze_moving(P=a["P"], step=a["step"], n_sub=a["n_sub"],
                                 record_every=a["rec"])
    v = cba.Vehicle(list(a["veh"]["axs"]), list(a["veh"]["axw"]))
    return nb.analyze_moving(vehicle=v, step=a["step"], n_sub=a["n_sub"], record_every=a["rec"])


def build_nl(n, give=lambda name, v: list(v)):
    return cba.NonlinearBeamAnalysis(give("L", n["L"]), give("EI", n["EI"]), give("R", n["R"]),
                                     give("Mp", n["Mp"]),
                                     My=None if n["My"] is None else give("My", n["My"]),
                                     q=n["q"], mesh_size=n["mesh"])


def o_nl(n, a):
    return result(lambda: snap_nl(run_nl(build_nl(n), a)))


def build_il(d):
    """Influence lines over a definition (loads ignored)."""
    f = d.get("form") or {}
    il = cba.InfluenceLines(shaped(d["L"], f.get("L")),
                            shaped([rigidity(e) for e in d["EI"]], f.get("EI")), list(d["R"]),
                            shaped(d["eletype"], f.get("et")))
    if d.get("npts", 100) != 100:
        il.ba.npts = d["npts"]
    return il


def o_many(defs):
    """Fresh static analyses of several definitions, evaluated in reverse."""
    out = [None] * len(defs)
    for i in reversed(range(len(defs))):
        out[i] = o_static(defs[i])
    return ["ok", out]


def o_pair(a, b):
    return ["ok", [o_static(a), o_static(b)]]


def o_il(sets, poi, eff, salt):
    """Fresh generations, and direct analyses of some of their positions."""
    out = []
    for d, step, val in sets:
        def go():
            il = build_il(d)
            if step is None:
                il.create_ils()
            else:
                il.create_ils(step, val)
            x, eta = il.get_il(poi, eff)
            x, eta = arr(x), arr(eta)
            direct = []
            T = sum(d["L"])
            n = len(x)
            for i in sorted({(salt * 7 + k * 5) % n for k in range(4)}):
                p = float(x[i])
                if min(p, T - p) < 1e-6:
                    continue
                v = direct_ordinate(d, p, val, poi, eff)
                if v is not None:
                    direct.append([i, v])
            return {"x": x, "eta": eta, "direct": direct}
        out.append(result(go))
    return ["ok", out]


def direct_ordinate(d, p, val, poi, eff):
    rows, near = place(d, p, {"axs": [], "axw": [val]})
    r = o_static(dict(d, LM=rows))
    if near or r[0] == "err":
        return None
    s = r[1]
    nodes = [0.0]
    for l in d["L"]:
        nodes.append(nodes[-1] + l)
    if eff == "MR":
        fixed = [i for i, q in enumerate(d["R"]) if q == -1]
        j = min([i for i in fixed if i % 2], key=lambda i: abs(nodes[i // 2] - poi))
        return float(s["R"][fixed.index(j)])
    if eff == "R":
        fixed = [i for i, q in enumerate(d["R"]) if q == -1]
        sup = [i for i in fixed if i % 2 == 0]
        j = min(sup, key=lambda i: abs(nodes[i // 2] - poi))
        return float(s["R"][fixed.index(j)])
    i = max(k for k in range(len(d["L"])) if poi > nodes[k] or k == 0)
    sp = s["spans"][i]
    k = int(np.argmin(np.abs(sp["x"][1:-1] - poi))) + 1
    if eff == "V":
        return None if abs(sp["x"][k] - p) < 1e-6 else float(sp["V"][k])
    return float(sp["M"][k])


ORACLES = {"pair": o_pair, "il": o_il, "static": o_static, "stable": o_stable, "modal": o_modal, "positions": o_positions,
           "nl": o_nl, "many": o_many}
