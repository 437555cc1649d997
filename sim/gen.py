"""Seeded generation of beam definitions, loads, vehicles (no pycba code used)."""
from __future__ import annotations

import hashlib
import random

import numpy as np

HINGED = {1: (), 2: (3,), 3: (1,), 4: (1, 3)}  # released local rotation dofs


def rng_for(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def r2(x):
    return round(x, 3)


def mean_rigidity(e):
    if isinstance(e, dict):
        v = []
        for s in e["seg"]:
            ei = s[2]
            if isinstance(ei, dict):
                ei = ei["fn"][0] + ei["fn"][1] * 0.5 * (s[1][0] + s[1][-1])
            v += list(ei) if isinstance(ei, (list, tuple)) else [ei]
        return sum(v) / len(v)
    return float(e)


def k_member(EI, L, et, kf=None):
    k = EI / L ** 3 * np.array([[12, 6 * L, -12, 6 * L], [6 * L, 4 * L * L, -6 * L, 2 * L * L],
                                [-12, -6 * L, 12, -6 * L], [6 * L, 2 * L * L, -6 * L, 4 * L * L]])
    if et == 4 and not kf:
        return np.zeros((4, 4))  # exactly: rounding must not look like stiffness
    if kf:
        m = L / 420 * np.array([[156, 22 * L, 54, -13 * L], [22 * L, 4 * L * L, 13 * L, -3 * L * L],
                                [54, 13 * L, 156, -22 * L], [-13 * L, -3 * L * L, -22 * L, 4 * L * L]])
        k = k + kf * m
    for r in HINGED[et]:
        keep = [i for i in range(4) if i != r]
        krr = k[r, r]
        if krr > 1e-12 * np.abs(k).max():
            k = k - np.outer(k[:, r], k[r, :]) / krr
        k[r, :] = 0
        k[:, r] = 0
    return k


def stability(d):
    """'stable', 'mechanism' or None when too close to call."""
    n = len(d["L"])
    K = np.zeros((2 * n + 2, 2 * n + 2))
    for i in range(n):
        kf = (d.get("kf") or [None] * n)[i]
        K[2 * i:2 * i + 4, 2 * i:2 * i + 4] += k_member(
            mean_rigidity(d["EI"][i]), d["L"][i], d["eletype"][i], kf)
    for i, r in enumerate(d["R"]):
        if r > 0:
            K[i, i] += r
    D = d.get("D") or [None] * len(d["R"])
    free = [i for i, r in enumerate(d["R"]) if not (r < 0 or D[i] is not None)]
    if not free:
        return "stable"
    ev = np.abs(np.linalg.eigvalsh(K[np.ix_(free, free)]))
    q = ev.min() / ev.max() if ev.max() > 0 else 0.0
    if q < 1e-14:
        return "mechanism"
    return "stable" if q > 1e-8 else None


# ------------------------------------------------------------------ sections
def section(rng, L, lo=2e4, hi=8e4):
    kind = rng.choice(["linear", "const2", "pwl", "poly", "mix", "fn"])
    e = lambda: float(round(rng.uniform(lo, hi)))
    h = r2(L * rng.uniform(0.3, 0.7))
    if kind == "linear":
        return {"seg": [["linear", [0.0, L], [e(), e()]]]}
    if kind == "const2":
        return {"seg": [["const", [0.0, h], e()], ["const", [h, L], e()]]}
    if kind == "pwl":
        return {"seg": [["pwl", [0.0, h, L], [e(), e(), e()]]]}
    if kind == "poly":
        a = e()
        return {"seg": [["poly", [0.0, h, L], [a, a * rng.uniform(0.7, 0.95), a * 1.1]]]}
    if kind == "fn":  # a callable: rigidity a + b*x (see world.rigidity)
        a = e()
        return {"seg": [["poly", [0.0, L], {"fn": [a, round(rng.uniform(-0.4, 0.6) * a / L, 3)]}]]}
    return {"seg": [["const", [0.0, h], e()], ["linear", [h, L], [e(), e()]]]}


# ---------------------------------------------------------------------- beams
def beam(rng, *, max_spans=4, sections=0.25, gav=0.2, kf=0.15, springs=0.25,
         settle=0.25, hinges=0.3, npts=True, want="stable", tries=60, prismatic=False,
         loads=None, segments=0.25, odd=0.0):
    if prismatic:
        sections = gav = kf = 0.0
        hinges = 0.0
    for _ in range(tries):
        n = rng.randint(1, max_spans)
        L = [r2(rng.uniform(4.0, 14.0)) for _ in range(n)]
        if rng.random() < 0.3:
            L = [L[0]] * n
        use_s, use_g, use_k = (rng.random() < p for p in (sections, gav, kf))
        EI = [float(round(rng.uniform(2e4, 8e4))) for _ in range(n)]
        if rng.random() < 0.3:
            EI = [EI[0]] * n
        if use_s:
            for i in range(n):
                if rng.random() < 0.6:
                    EI[i] = section(rng, L[i])
        G = None
        if use_g:
            G = [None] * n
            for i in range(n):
                q = rng.random()
                if q < 0.5:
                    G[i] = float(round(rng.uniform(4e3, 5e4)))
                elif q < 0.65:
                    G[i] = section(rng, L[i], 5e3, 4e4)
        K = None
        if use_k and not use_s and not use_g:
            K = [float(round(rng.uniform(200, 4e3))) if rng.random() < 0.6 else None
                 for _ in range(n)]
        et = [1] * n
        if hinges and rng.random() < hinges and n > 1:
            i = rng.randrange(n - 1)
            if rng.random() < 0.45:
                et[i] = 2
            elif rng.random() < 0.8:
                et[i + 1] = 3
            else:
                et[i] = 4
        if K:
            et = [1 if K[i] is not None else et[i] for i in range(n)]
        R = supports(rng, n, springs, segments)
        d = {"L": L, "EI": EI, "R": R, "eletype": et, "D": None, "GAv": G, "kf": K,
             "LM": [], "npts": 100}
        if rng.random() < settle:
            d["D"] = settlements(rng, R)
        s = stability(d)
        if s != want:
            continue
        if npts:
            d["npts"] = rng.choice([100, 20, 30, 41, 50])
        if odd and rng.random() < odd:
            # what no analysis supports: a foundation under a hinged, tapered or
            # shear-flexible span
            if not K and (use_s or use_g or max(et) > 1):
                d["kf"] = [1500.0] * n
        k = rng.randint(1, 4) if loads is None else loads
        d["LM"] = [load(rng, d) for _ in range(k)]
        if rng.random() < 0.35:
            d["form"] = form(rng)
        return d
    # fall back to a plain two-span beam
    d = {"L": [10.0, 12.0], "EI": [3e4, 3e4], "R": [-1, 0, -1, 0, -1, 0], "eletype": [1, 1],
         "D": None, "GAv": None, "kf": None, "LM": [], "npts": 100}
    if want == "mechanism":
        d["R"] = [-1, 0, 0, 0, 0, 0]
    d["LM"] = [load(rng, d) for _ in range(2)]
    return d


def form(rng):
    """The containers in which the definition is handed to the library."""
    f = {}
    for k, c in (("R", ["arr", "arr", "tup"]), ("L", ["arr", "tup"]), ("EI", ["arr", "tup"]),
                 ("et", ["arr", "tup", "col", "name", "member"]), ("D", ["tup", "obj"]),
                 ("GAv", ["arr", "tup", "obj"]), ("kf", ["arr", "tup", "obj"]), ("LM", ["tup"]),
                 ("sup", [1]), ("noet", [1]), ("one", [1])):
        if rng.random() < (0.5 if k not in ("sup",) else 0.2):
            f[k] = rng.choice(c)
    return f


def supports(rng, n, springs=0.25, segments=0.25):
    R = []
    for j in range(n + 1):
        v, t = -1, 0
        end = j in (0, n)
        q = rng.random()
        if end and q < 0.3:
            t = -1
        if not end and q < segments:
            v = 0
        if end and q > 0.9:
            v = 0
        if rng.random() < springs * 0.6:
            if rng.random() < 0.6:
                v = float(round(rng.uniform(2e3, 6e4)))
            else:
                t = float(round(rng.uniform(2e3, 6e4)))
        R += [v, t]
    return R


def settlements(rng, R):
    D = [None] * len(R)
    fixed = [i for i, r in enumerate(R) if r < 0]
    rng.shuffle(fixed)
    for i in fixed[: rng.randint(1, 2)]:
        D[i] = round(rng.uniform(-0.02, 0.02), 5) if i % 2 == 0 else round(
            rng.uniform(-0.004, 0.004), 6)
    return D


def load(rng, d, span=None, kinds=(1, 2, 3, 4, 5, 6)):
    n = len(d["L"])
    i = rng.randint(1, n) if span is None else span
    L = d["L"][i - 1]
    onk = d.get("kf") and d["kf"][i - 1] is not None
    ks = [k for k in kinds if not (onk and k not in (1, 2, 3))] or [1]
    w = rng.choices(ks, [{1: 3, 2: 4, 3: 3, 4: 2, 5: 2, 6: 1}[k] for k in ks])[0]
    m = lambda lo=-30, hi=120: round(rng.uniform(lo, hi), 2) or 1.0
    if w == 1:
        return [i, 1, m(-10, 30)]
    if w == 2:
        return [i, 2, m(), r2(rng.uniform(0.05, 0.95) * L)]
    if w == 3:
        a = r2(rng.uniform(0, 0.6) * L)
        return [i, 3, m(-10, 30), a, r2(rng.uniform(0.1, 0.95) * (L - a))]
    if w == 4:
        return [i, 4, m(), r2(rng.uniform(0.05, 0.95) * L)]
    if w == 5:
        if rng.random() < 0.5:
            return [i, 5, m(-10, 30), m(-10, 30)]
        a = r2(rng.uniform(0, 0.6) * L)
        return [i, 5, m(-10, 30), m(-10, 30), a, r2(rng.uniform(0.1, 0.95) * (L - a))]
    return [i, 6, round(rng.uniform(-4e-3, 4e-3), 6)] + (
        [round(rng.uniform(-4e-4, 4e-4), 7)] if rng.random() < 0.4 else [])


def restraint_edit(rng, d, want="stable", tries=25):
    """A new R for the same spans, of the wanted stability; None if not found."""
    n = len(d["L"])
    for _ in range(tries):
        R = supports(rng, n, rng.choice([0.0, 0.3]), 0.3)
        if want == "mechanism":
            if rng.random() < 0.5:
                R = [0] * len(R)
                R[2 * rng.randrange(n + 1)] = -1
                if rng.random() < 0.3:
                    R = [0] * len(R)
            else:
                R = [(-1 if (j % 2 == 0 and rng.random() < 0.35) else 0) for j in range(len(R))]
        e = dict(d, R=R)
        if d.get("D"):
            e["D"] = d["D"]
        if R != d["R"] and stability(e) == want:
            return R
    return None


def disp_edit(rng, d, want="stable", tries=15):
    for _ in range(tries):
        if rng.random() < 0.25:
            D = [None] * len(d["R"])
        else:
            D = settlements(rng, d["R"])
            if rng.random() < 0.15:  # prescribe a free degree of freedom
                fr = [i for i, r in enumerate(d["R"]) if r == 0]
                if fr:
                    D[rng.choice(fr)] = round(rng.uniform(-0.01, 0.01), 5)
        if stability(dict(d, D=D)) == want:
            return D
    return None


def vehicle(rng, nmax=4):
    n = rng.randint(1, nmax)
    if rng.random() < 0.15:
        n = 1
    return {"axs": [r2(rng.uniform(1.1, 5.0)) for _ in range(n - 1)],
            "axw": [r2(rng.uniform(20, 120)) for _ in range(n)]}


def fscale(d):
    s = 1.0
    for l in d["LM"]:
        if l[1] in (1, 3, 5):
            s = max(s, max(abs(x) for x in l[2:4 if l[1] == 5 else 3]) * sum(d["L"]))
        elif l[1] in (2, 4):
            s = max(s, abs(l[2]))
    return s


def pick_fault(rng, kinds, p):
    if kinds and rng.random() < p:
        return {"kind": rng.choice(kinds), "frac": round(rng.random(), 4)}
    return None


# ------------------------------------------------------- near misses
# Edits that keep most of what a careless cache key would look at (counts, sums,
# lengths, patterns, ratios, rounded values) and still change the model.
def nudge(rng, x):
    return x * (1.0 + rng.choice([-1, 1]) * rng.choice([0.5, 1e-2, 1e-3, 1e-5, 2e-7]))


def near_loads(rng, d, LM):
    LM = [list(r) for r in LM if isinstance(r, list)]
    if not LM:
        return [load(rng, d)]
    i = rng.randrange(len(LM))
    r, L = LM[i], d["L"][LM[i][0] - 1]
    onk = lambda s: d.get("kf") and d["kf"][s - 1] is not None
    q = rng.choice(["swap", "shift", "perm", "sign", "nudge", "kind", "move", "zero", "twin"])
    if q == "swap":
        if r[1] in (2, 4) and 0 < r[2] < L:
            r[2], r[3] = r[3], r[2]
        elif r[1] == 5 and r[2] != r[3]:
            r[2], r[3] = r[3], r[2]
        elif r[1] == 3 and 0 < r[4] and r[3] > 0.05 * L:
            r[3], r[4] = r[4], r[3]
        else:
            r[2] = -r[2]
    elif q == "shift":
        j = rng.randint(1, len(d["L"]))
        M = d["L"][j - 1]
        far = max([0.0] + [float(x) for x in (
            r[3:4] if r[1] in (2, 4) else [r[3] + r[4]] if r[1] == 3 else
            [r[4] + r[5]] if r[1] == 5 and len(r) > 5 else [])])
        if far <= M and not (onk(j) and r[1] not in (1, 2, 3)):
            r[0] = j
    elif q == "perm" and len(LM) > 1:
        j = rng.randrange(len(LM))
        LM[i][2], LM[j][2] = LM[j][2], LM[i][2]
    elif q == "kind" and r[1] in (2, 4):
        if not onk(r[0]):
            r[1] = 6 - r[1]
    elif q == "move" and r[1] in (2, 4):
        r[3] = r2(L - r[3])
    elif q == "move" and r[1] == 3:
        r[3] = r2(max(L - r[3] - r[4], 0.0))
    elif q == "zero" and len(LM) > 1:
        LM.append(LM.pop(0))
        LM[0][2] = LM[0][2] + 1.0
    elif q == "twin":
        LM[i] = list(LM[rng.randrange(len(LM))])
    elif q == "sign":
        r[2] = -r[2]
    else:
        r[2] = nudge(rng, r[2])
    return LM


def near_R(rng, d, want="stable", tries=12):
    """Another R of the same pattern, spring sum or permuted supports."""
    for _ in range(tries):
        R = list(d["R"])
        sp = [i for i, r in enumerate(R) if r > 0]
        q = rng.choice(["scale", "swap", "one", "rev", "perm"])
        if q in ("scale", "one", "swap") and not sp:
            q = "perm"
        if q == "scale":
            f = rng.choice([1.5, 0.5, 1.001])
            for i in sp:
                R[i] *= f
        elif q == "one":
            i = rng.choice(sp)
            R[i] = nudge(rng, R[i])
        elif q == "swap":
            i, j = rng.choice(sp), rng.randrange(len(R))
            R[i], R[j] = R[j], R[i]
        elif q == "rev":
            R = [x for k in range(len(R) - 2, -1, -2) for x in R[k:k + 2]]
        else:
            i, j = rng.randrange(len(R)), rng.randrange(len(R))
            R[i], R[j] = R[j], R[i]
        if R != d["R"] and stability(dict(d, R=R)) == want:
            return R
    return None


def near_D(rng, d):
    D = list(d.get("D") or [])
    on = [i for i, x in enumerate(D) if x is not None]
    if not on:
        return None
    i = rng.choice(on)
    q = rng.choice(["sign", "nudge", "move", "perm"])
    if q == "sign":
        D[i] = -D[i]
    elif q == "perm" and len(on) > 1:
        j = rng.choice(on)
        D[i], D[j] = D[j], D[i]
    elif q == "move":
        fx = [k for k, r in enumerate(d["R"]) if r < 0 and D[k] is None and k % 2 == i % 2]
        if fx:
            D[rng.choice(fx)], D[i] = D[i], None
    else:
        D[i] = nudge(rng, D[i])
    return D if D != list(d["D"]) and stability(dict(d, D=D)) == "stable" else None


def scale_section(e, f):
    e = {"seg": [list(s) for s in e["seg"]]}
    for s in e["seg"]:
        s[2] = {"fn": [x * f for x in s[2]["fn"]]} if isinstance(s[2], dict) else \
            [x * f for x in s[2]] if isinstance(s[2], (list, tuple)) else s[2] * f
    return e


def near_def(rng, d, tries=12):
    """Another stable definition, most of which is the same (same spans and loads)."""
    import copy
    for _ in range(tries):
        e = copy.deepcopy(d)
        n = len(e["L"])
        i = rng.randrange(n)
        sc = lambda v, f: scale_section(v, f) if isinstance(v, dict) else v * f
        q = rng.choice(["EI", "ratio", "kf", "GAv", "one", "perm", "fine", "R", "D", "LM",
                        "hinge", "mirror", "L"])
        f = rng.choice([0.5, 1.5, 2.0, 1.0 + 1e-3, 1.0 + 1e-6])
        if q == "EI":
            e["EI"] = [sc(v, f) for v in e["EI"]]
        elif q == "one":
            e["EI"][i] = sc(e["EI"][i], f)
        elif q == "fine":
            e["EI"][i] = sc(e["EI"][i], 1.0 + 1e-5)
        elif q == "ratio" and (e["kf"] or e["GAv"]):
            f = rng.choice([0.5, 2.0, 3.0])
            e["EI"] = [sc(v, f) for v in e["EI"]]
            if e["kf"]:
                e["kf"] = [None if v is None else v * f for v in e["kf"]]
            if e["GAv"]:
                e["GAv"] = [None if v is None else sc(v, f) for v in e["GAv"]]
        elif q == "kf" and e["kf"]:
            e["kf"] = [None if v is None else v * f for v in e["kf"]]
        elif q == "GAv" and e["GAv"]:
            e["GAv"] = [None if v is None else sc(v, f) for v in e["GAv"]]
        elif q == "perm" and n > 1:
            j = rng.randrange(n)
            if not isinstance(e["EI"][i], dict) and not isinstance(e["EI"][j], dict):
                e["EI"][i], e["EI"][j] = e["EI"][j], e["EI"][i]
        elif q == "R":
            e["R"] = near_R(rng, e) or e["R"]
        elif q == "D":
            e["D"] = near_D(rng, e) or disp_edit(rng, e) or e["D"]
        elif q == "LM":
            e["LM"] = near_loads(rng, e, e["LM"])
        elif q == "hinge" and n > 1 and not any(k is not None for k in e["kf"] or []):
            e["eletype"] = [1] * n
            e["eletype"][rng.randrange(n - 1)] = rng.choice([1, 2])
        elif q == "L" and all(not isinstance(v, dict) for v in e["EI"]) and \
                all(not isinstance(v, dict) for v in e["GAv"] or []):
            e["L"][i] = r2(e["L"][i] + rng.choice([0.001, 0.5]))
        elif q == "mirror" and n > 1 and all(not isinstance(v, dict) for v in e["EI"]):
            e["EI"] = e["EI"][::-1]
        if e != d and stability(e) == "stable":
            return e
    return None


def near_vehicle(rng, v):
    axs, axw = list(v["axs"]), list(v["axw"])
    q = rng.choice(["revw", "revs", "swapw", "swaps", "nudgew", "nudges", "rev"])
    if q in ("revw", "rev"):
        axw = axw[::-1]
    if q in ("revs", "rev"):
        axs = axs[::-1]
    if q == "swapw" and len(axw) > 1:
        i = rng.randrange(len(axw) - 1)
        axw[i], axw[i + 1] = r2(axw[i] * 0.5), r2(axw[i + 1] + axw[i] * 0.5)
    elif q == "swaps" and len(axs) > 1:
        i = rng.randrange(len(axs) - 1)
        axs[i], axs[i + 1] = r2(axs[i] * 0.5), r2(axs[i + 1] + axs[i] * 0.5)
    elif q == "nudges" and axs:
        i = rng.randrange(len(axs))
        axs[i] = r2(axs[i] + 0.01)
    elif axw == v["axw"] and axs == v["axs"]:
        i = rng.randrange(len(axw))
        axw[i] = nudge(rng, axw[i])
    return {"axs": axs, "axw": axw}
