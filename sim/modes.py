"""Comparison modes of oracle queries beyond plain closeness."""
from __future__ import annotations

import numpy as np

from .core import diff_close


def many_M(q, exp):
    """Observed matrix of bending moments against separate analyses."""
    obs = q["observed"]
    errs = [e for e in exp[1] if e[0] == "err"]
    if obs[0] == "err":
        return None if errs and any(e[1] == obs[1] for e in errs) else \
            f"observed error {obs[1]}, separate analyses give {[e[0] for e in exp[1]]}"
    if errs:
        return f"observed a result, a separate analysis gives error {errs[0][1]}"
    return diff_close(np.asarray(obs[1]), np.array([e[1]["M"] for e in exp[1]]), q["rtol"],
                      q["floor"])


def mask_V(snap, xs, tol=1e-6):
    """Drop the shear at stations where an axle (or a requested section) stands."""
    s = dict(snap)
    x = np.asarray(s["x"])
    keep = np.ones(x.shape, bool)
    for a in xs:
        keep &= np.abs(x - a) > tol
    s["V"] = np.where(keep, s["V"], 0.0)
    if "spans" in s:
        out, k = [], 0
        for m in s["spans"]:
            n = len(m["x"])
            m = dict(m)
            # the global arrays and the span arrays hold the same stations
            m.pop("V", None)
            out.append(m)
            k += n
        s["spans"] = out
    return s


def positions(q, exp):
    """Per-position results against separate static analyses."""
    from .world import axle_xs

    obs = q["observed"]
    d, pos, veh = q["args"][:3]
    shear = q["args"][5] if len(q["args"]) > 5 else None
    extra = []
    if shear:
        nodes = np.concatenate([[0.0], np.cumsum(d["L"])])
        for k, v in shear.items():
            extra += [nodes[int(k)] + float(a) for a in v]
    if obs[0] == "err":
        bad = [e for e in exp[1] if e is not None and e[0] == "err"]
        return None if any(e[1] == obs[1] for e in bad) or any(e is None for e in exp[1]) else \
            f"observed error {obs[1]}, every position can be analysed on its own"
    if len(obs[1]) != len(exp[1]):
        return f"{len(obs[1])} positions reported, {len(exp[1])} expected"
    for i, (o, e) in enumerate(zip(obs[1], exp[1])):
        if e is None or o is None:
            continue
        if o[0] != e[0] or (o[0] == "err" and o[1] != e[1]):
            return f"position {pos[i]}: {o[0]} {o[1] if o[0] == 'err' else ''} / " \
                   f"{e[0]} {e[1] if e[0] == 'err' else ''}"
        if o[0] == "err":
            continue
        xs = axle_xs(d, pos[i], veh) + extra
        r = diff_close(mask_V(o[1], xs), mask_V(e[1], xs), q["rtol"], q["floor"])
        if r:
            return f"position {pos[i]}: {r}"
    return None


def figure(q, exp):
    """A drawing against the same drawing in a pristine process."""
    from .drawing import diff_fig

    obs = q["observed"]
    if obs[0] != exp[0]:
        return f"observed {obs[1] if obs[0] == 'err' else 'a drawing'}, a fresh one gives " + \
            (str(exp[1]) if exp[0] == "err" else "a drawing")
    if obs[0] == "err":
        return None if obs[1] == exp[1] else f"observed error {obs[1]}, fresh error {exp[1]}"
    return diff_fig(obs[1], exp[1])


MODES = {"figure": figure, "positions": positions, "many-M": many_M}


def il(q, exp):
    obs = q["observed"]
    out = []
    for e in exp[1]:
        if e[0] == "err":
            out.append(f"a fresh generation fails: {e[1]}")
            continue
        e = e[1]
        if obs["x"].shape != e["x"].shape:
            out.append(f"{obs['x'].size} positions, a fresh generation has {e['x'].size}")
            continue
        r = diff_close(obs["x"], e["x"], 1e-9, 1e-9)
        if r is None:
            r = diff_close(obs["eta"], e["eta"], 1e-7, 1e-9)
        if r is None:
            for i, v in e["direct"]:
                if abs(obs["eta"][i] - v) > 1e-7 * max(np.abs(e["eta"]).max(), abs(v)) + 1e-9:
                    r = f"ordinate at {obs['x'][i]} is {obs['eta'][i]}, a direct analysis gives {v}"
                    break
        if r is None:
            return None
        out.append(r)
    return " / ".join(out)


def pair(q, exp):
    a, b = exp[1]
    if a[0] != b[0]:
        return f"{a[0]} / {b[0]}"
    if a[0] == "err":
        return None
    keep = lambda s: {k: s[k] for k in ("x", "M", "rot", "D", "d", "R", "Rs")}
    return diff_close(keep(a[1]), keep(b[1]), q["rtol"], q["floor"])


def cases(q, exp):
    _, w, key, f = q["mode"].split(":", 3)
    f = np.array(eval(f))  # numbers written by the scenario itself
    obs = q["observed"]
    errs = [e for e in exp[1] if e[0] == "err"]
    if obs[0] == "err":
        return None if any(e[1] == obs[1] for e in errs) else \
            f"observed error {obs[1]}, direct analyses give {[e[0] for e in exp[1]]}"
    if errs:
        return f"observed a result, a direct analysis gives error {errs[0][1]}"
    E = [e[1] for e in exp[1]]
    v = obs[1]
    fl = q["floor"]
    flk = fl.get(key, fl["*"])
    B = np.array([e[key] for e in E])
    if w in ("matrix", "one"):
        return diff_close(v[0], E[0]["x"], 1e-9, 1e-9) or diff_close(v[1], B, q["rtol"], flk)
    if w in ("combine", "held"):
        return diff_close(v[0], E[0]["x"], 1e-9, 1e-9) or \
            diff_close(v[1], f @ B, q["rtol"], 10 * flk)
    if w == "rows":
        return diff_close(v[0], E[0]["x"], 1e-9, 1e-9) or \
            diff_close(v[1], np.array([f, f[::-1]]) @ B, q["rtol"], 10 * flk)
    if w == "to-case":
        return diff_close(v[0], E[0]["x"], 1e-9, 1e-9) or diff_close(v[1], B[0], q["rtol"], flk)
    if w == "additive":
        S, k = np.sort(B, axis=0), min(2, len(B))
        return diff_close(v[0], S[:k].sum(axis=0), q["rtol"], 10 * flk) or \
            diff_close(v[1], S[-k:].sum(axis=0), q["rtol"], 10 * flk)
    if w in ("combination", "case-combo"):
        return diff_close(v, E[0], q["rtol"], fl)
    if w == "envelope":
        return diff_close(v["res"], E, q["rtol"], fl)
    if w == "target":
        fv = v[0]
        if fv.shape != (len(E),) or not set(np.unique(fv)) <= {0.0, 1.0}:
            return f"factors {fv}"
        x = E[0]["x"]
        ux, ui = np.unique(x, return_index=True)
        xt = 0.43 * x[-1]
        at = np.array([np.interp(xt, ux, b[ui]) for b in B])
        sc = np.abs(B).max()
        for a, s in zip(at, fv):
            if abs(a) > 1e-9 * sc and (a < 0) != (s == 1.0):
                return f"target values {at}, factors {fv}"
        return diff_close(v[1], fv @ B, q["rtol"], 10 * flk)
    if w == "sign":
        return diff_close(v[0], np.where(B < 0, B, 0).sum(axis=0), q["rtol"], 10 * flk) or \
            diff_close(v[1], np.where(B > 0, B, 0).sum(axis=0), q["rtol"], 10 * flk)
    raise ValueError(w)


def pattern(q, exp):
    obs = q["observed"]
    errs = [e for e in exp[1] if e[0] == "err"]
    if obs[0] == "err":
        return None if any(e[1] == obs[1] for e in errs) else \
            f"observed error {obs[1]}, the arrangements can be analysed"
    if errs:
        return f"observed a result, an arrangement gives error {errs[0][1]}"
    got, want = obs[1]["res"], [e[1] for e in exp[1]]
    # the arrangements may be visited in any order, and a repeated one may be
    # left out: compare as sets
    for i, w in enumerate(want):
        if not any(diff_close(g, w, q["rtol"], q["floor"]) is None for g in got):
            return f"arrangement {i} is missing from the envelope"
    for i, g in enumerate(got):
        if not any(diff_close(g, w, q["rtol"], q["floor"]) is None for w in want):
            return f"the envelope holds a result ({i}) of no arrangement"
    return None


MODES.update({"il": il, "pair": pair, "pattern": pattern})
