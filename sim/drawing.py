"""Drawing calls of pycba, and what they show as plain data."""
from __future__ import annotations

import re

import numpy as np

import pycba as cba

from . import world
from .core import arr

# The unit systems as documented: force, length, moment, distributed, displacement, scale
SYSTEMS = {
    "si": ("kN", "m", "kNm", "kN/m", "mm", 1000.0),
    "n-mm": ("N", "mm", "N·mm", "N/mm", "mm", 1.0),
    "us": ("kip", "ft", "kip·ft", "kip/ft", "in", 12.0),
    "us-in": ("kip", "in", "kip·in", "kip/in", "in", 1.0),
    "none": ("", "", "", "", "", 1.0),
}
ALIAS = {"si": "si", "kn-m": "si", "metric": "si", "EU": "si", " aus ": "si", "n-mm": "n-mm",
         "SI_N_MM": "n-mm", "us": "us", "kip ft": "us", "US-customary": "us", "kip-in": "us-in",
         "us_in": "us-in", "none": "none", "dimensionless": "none", "": "none"}
CUSTOM = {"mine": ("MN", "dm", "MN·dm", "MN/dm", "cm", 100.0),
          "bare": ("tonf", "", "", "", "mm", 10.0),
          # a user may well name a system like one of the presets
          "SI": ("kgf", "cm", "kgf·cm", "kgf/cm", "µm", 1e6),
          "us ft": ("lbf", "yd", "lbf·yd", "lbf/yd", "mil", 12000.0)}


def units_arg(u):
    """JSON spec of a units argument -> what the user would pass."""
    if isinstance(u, dict):
        if "custom" in u:
            f, l, m, d, dl, sc = CUSTOM[u["custom"]]
            return cba.UnitSystem(name=u["custom"], force=f, length=l, moment=m, distributed=d,
                                  disp_label=dl, disp_scale=sc)
        return u["raw"]
    return u


def system(u):
    """The documented system a units argument means, or None when unknown."""
    if isinstance(u, dict):
        return CUSTOM[u["custom"]] if "custom" in u else None
    return SYSTEMS[ALIAS[u]] if u in ALIAS else None


# ------------------------------------------------------------------ figure data
def _paths(c):
    v = [p.vertices for p in c.get_paths()]
    return arr(np.concatenate(v)) if v else arr([])


def ax_data(ax):
    from matplotlib.patches import FancyArrowPatch

    d = {"xl": ax.get_xlabel(), "yl": ax.get_ylabel(), "t": ax.get_title(),
         "inv": [bool(ax.xaxis_inverted()), bool(ax.yaxis_inverted())],
         "lines": [[arr(l.get_xdata()), arr(l.get_ydata())] for l in ax.lines],
         "texts": [[t.get_text(), arr(t.get_position()), arr(getattr(t, "xy", (0, 0)))]
                   for t in ax.texts],
         "coll": [[_paths(c), arr(c.get_offsets())] for c in ax.collections],
         "patches": [arr(p.get_path().transformed(p.get_patch_transform()).vertices)
                     for p in ax.patches if not isinstance(p, FancyArrowPatch)],
         "ticks": [t.get_text() for t in ax.get_yticklabels()] if ax.get_yticks().size < 9
         and not ax.lines else []}
    leg = ax.get_legend()
    d["leg"] = [t.get_text() for t in leg.get_texts()] if leg is not None else None
    return d


def plotly_data(o):
    if isinstance(o, dict):
        if set(o) == {"dtype", "bdata"} or set(o) == {"dtype", "bdata", "shape"}:
            import base64
            return arr(np.frombuffer(base64.b64decode(o["bdata"]), dtype=o["dtype"]))
        return {k: plotly_data(v) for k, v in o.items() if k != "template"}
    if isinstance(o, np.ndarray):
        return arr(o)
    if isinstance(o, (list, tuple)):
        if o and all(isinstance(v, (int, float, np.floating)) and not isinstance(v, bool)
                     for v in o):
            return arr(o)
        return [plotly_data(v) for v in o]
    return o


def shown(ret):
    """Everything a drawing call produced: open figures, a plotly figure or text."""
    import matplotlib.pyplot as plt
    out = {"figs": []}
    for n in plt.get_fignums():
        f = plt.figure(n)
        subs = [s.get_suptitle() for s in getattr(f, "subfigs", [])]
        out["figs"].append({"sup": subs, "axes": [ax_data(a) for a in f.axes]})
    if type(ret).__module__.startswith("plotly"):
        out["plotly"] = plotly_data(ret.to_dict())
    if isinstance(ret, str):
        out["text"] = ret
    out["none"] = ret is None
    return out


NUM = re.compile(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?")


def text_diff(a, b):
    if a == b:
        return None
    if NUM.sub("#", a) != NUM.sub("#", b):
        return f"{a[:90]!r} != {b[:90]!r}"
    for x, y in zip(NUM.findall(a), NUM.findall(b)):
        p, q = float(x), float(y)
        if abs(p - q) > 2e-3 * max(abs(p), abs(q)) + 1e-6:
            return f"{x} != {y} in {a[:60]!r}"
    return None


def diff_fig(a, b, path=""):
    """Two drawings show the same data (text diff or None)."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return f"{path}.{k} missing"
            d = diff_fig(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            return f"{path} shape {a.shape} != {b.shape}"
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not np.array_equal(fa, fb):
            return f"{path} non-finite values differ"
        if not fa.any():
            return None
        x, y = a[fa], b[fb]
        tol = 1e-6 * max(np.abs(x).max(), np.abs(y).max()) + 1e-7
        e = np.abs(x - y)
        i = int(np.argmax(e))
        return None if e[i] <= tol else f"{path} got {x[i]!r}, expected {y[i]!r}"
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path} length {len(a)} != {len(b)}"
        for i, (p, q) in enumerate(zip(a, b)):
            d = diff_fig(p, q, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, str) and isinstance(b, str):
        d = text_diff(a, b)
        return d and f"{path} {d}"
    if isinstance(a, float) and isinstance(b, (int, float)):
        return None if abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-7 or a != a else \
            f"{path} {a!r} != {b!r}"
    return None if a == b else f"{path} {a!r} != {b!r}"


# ------------------------------------------------------------------ calls
class Kit:
    """The objects one drawing call may use."""

    ba = env = il = lc = nl = veh = br = modal = section = tendon = case = comb = None


BACKENDED = ("results", "bmd", "sfd", "dsd", "env", "env-each")
ANALYSES = ("static", "animate")      # they analyse the model as well
NEEDS = {"env": "env", "env-each": "env", "coincidents": "env", "il": "il", "lc-env": "lc",
         "lc-pat": "lc", "case": "lc", "comb": "lc", "modes": "modal", "modal": "modal",
         "nl-moments": "nl", "nl-history": "nl", "nl-state": "nl", "nl-collapse": "nl",
         "vehicle": "veh", "static": "br", "b-env": "br", "ratios": "br", "animate": "br",
         "tendon": "tendon", "section": "section"}


def profile(p):
    return getattr(cba, p["t"])(**p["a"]) if hasattr(cba, p["t"]) else \
        getattr(__import__("pycba.prestress", fromlist=["x"]), p["t"])(**p["a"])


def draw(K, a, path=None):
    """Perform the drawing call described by a."""
    kw = {}
    if a.get("units") is not None:
        kw["units"] = units_arg(a["units"])
    if a["kind"] in BACKENDED and a.get("backend") is not None:
        kw["backend"] = a["backend"]
    k, o = a["kind"], a.get("opts") or {}
    if k == "beam":
        return K.ba.plot_beam(**o, **kw)
    if k == "beam-loads":
        return K.ba.plot_beam([list(r) for r in a["rows"]], **o, **kw)
    if k == "case":
        return K.ba.plot_beam(K.lc["q"], **o, **kw)
    if k == "comb":
        return K.ba.plot_beam(K.lc.target_combination("c", 0.4 * K.lc_x), load_cases=K.lc, **kw)
    if k == "tikz":
        return K.ba.beam.to_tikz(**o, **kw)
    if k == "results":
        return K.ba.plot_results(**o, **kw)
    if k == "reactions":
        return K.ba.plot_reactions(**kw)
    if k in ("bmd", "sfd", "dsd"):
        f = getattr(K.ba, "plot_" + k)
        if a.get("twice") and kw.get("backend") in (None, "matplotlib"):
            r = f(**kw)
            if not hasattr(r, "plot"):
                return r
            return f(ax=r, color="b", **kw)
        return f(**kw)
    if k == "env":
        return K.env.plot(**kw)
    if k == "env-each":
        return K.env.plot(each=True, **kw)
    if k == "coincidents":
        return K.env.plot_coincidents(**kw)
    if k == "il":
        return K.il.plot_il(a["x"], a["eff"], **kw)
    if k == "lc-env":
        x, B = K.lc.response_matrix(a["resp"])
        lo, hi = np.minimum(B, 0).sum(axis=0), np.maximum(B, 0).sum(axis=0)
        from pycba.load_cases import plot_response_envelope
        return plot_response_envelope(x, B, lo, hi, K.ba, list(K.lc))
    if k == "lc-pat":
        from pycba.load_cases import plot_load_patterns
        return plot_load_patterns(K.ba, list(K.lc))
    if k == "modes":
        return K.modal.plot_modes([0, 1], **kw)
    if k == "modal":
        return K.modal.plot_results(**kw)
    if k == "nl-moments":
        return K.nl.plot_moments(Mp=100.0, **kw)
    if k == "nl-history":
        return K.nl.plot_hinge_history(moving=bool(a.get("moving")), **kw)
    if k == "nl-state":
        return K.nl.plot_beam_state(vehicle=K.veh, **kw)
    if k == "nl-collapse":
        return K.nl.plot_collapse(**kw)
    if k == "vehicle":
        return K.veh.plot(**kw)
    if k == "static":
        return K.br.plot_static(a["x"], **kw)
    if k == "b-env":
        return K.br.plot_envelopes(K.benv, **kw)
    if k == "ratios":
        return K.br.plot_ratios(K.br.envelopes_ratios(K.benv, K.benv), **kw)
    if k == "animate":
        return K.br.animate(a["step"], save=path, dpi=15, **kw)
    if k == "tendon":
        from pycba.prestress import plot_tendon
        return plot_tendon(K.ba, a["force"], K.tendon, **kw)
    if k == "section":
        return K.section.plot(n=40)
    raise ValueError(k)


# ------------------------------------------------------------------ fresh kit
def make_env(d, sets):
    ba = world.build(dict(d, LM=[]))
    ba.npts = 11
    res = []
    for LM in sets:
        ba.set_loads([list(r) for r in LM])
        ba.analyze()
        res.append(ba.beam_results)
    return cba.Envelopes(res)


def make_lc(ba, cases):
    lc = cba.LoadCases(ba)
    for n, rows in cases:
        lc.add(n, [list(r) for r in rows])
    return lc


def restate(ba, d):
    """Bring an analysed model to a later definition, without analysing it."""
    ba.beam.restraints = world.shape_R(d, d["R"])
    if d.get("D") is not None:
        ba.beam.prescribed_displacements = world.shape_D(d, d["D"])
    ba.set_loads([list(r) for r in d["LM"]])
    ba.npts = d["npts"]


def kit_of(t):
    """Pristine objects from their definitions."""
    K = Kit()
    if t.get("res") is not None:
        K.ba = world.build(t["res"])
        K.ba.npts = t["res"]["npts"]
        K.ba.analyze()
    else:
        K.ba = world.build(t["d"])
    if t.get("modal"):
        mb = world.build(t["modal"]["d"])
        K.modal = mb.modal(t["modal"]["mass"], n_modes=t["modal"]["n"])
        restate(mb, t["d"])
    restate(K.ba, t["d"])
    if t.get("env"):
        K.env = make_env(*t["env"])
    if t.get("il"):
        K.il = world.build_il(t["il"]["d"])
        K.il.create_ils(t["il"]["step"])
    if t.get("lc") is not None:
        K.lc = make_lc(K.ba, t["lc"])
        K.lc_x = sum(t["d"]["L"])
    if t.get("nl"):
        K.nl = world.run_nl(world.build_nl(t["nl"]["n"]), t["nl"]["a"])
    if t.get("veh"):
        K.veh = cba.Vehicle(list(t["veh"]["axs"]), list(t["veh"]["axw"]))
    if t.get("br"):
        b = world.build(t["d"])
        b.npts = t["d"]["npts"]
        K.br = cba.BridgeAnalysis(b, cba.Vehicle(list(t["br"]["veh"]["axs"]),
                                                 list(t["br"]["veh"]["axw"])))
        if t["br"].get("run"):
            # the traverse was made on the model as it was then
            b2 = world.build(t["br"]["run"]["d"])
            b2.npts = t["br"]["run"]["d"]["npts"]
            r = cba.BridgeAnalysis(b2, cba.Vehicle(list(t["br"]["run"]["veh"]["axs"]),
                                                   list(t["br"]["run"]["veh"]["axw"])))
            K.benv = r.run_vehicle(t["br"]["run"]["step"])
            K.br.pos = r.pos
    if t.get("tendon"):
        K.tendon = [None if p is None else profile(p) for p in t["tendon"]]
    if t.get("section"):
        K.section = world.rigidity(t["section"])
    return K


def o_draw(t, a):
    """The same drawing of a model that was never drawn before."""
    import os
    import tempfile

    import matplotlib.pyplot as plt

    def go():
        K = kit_of(t)
        plt.close("all")
        if a["kind"] == "animate":
            with tempfile.TemporaryDirectory() as tmp:
                return shown(draw(K, a, os.path.join(tmp, "x.gif")))
        return shown(draw(K, a))

    try:
        return world.result(go)
    finally:
        plt.close("all")


world.ORACLES["draw"] = o_draw
