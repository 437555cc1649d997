"""Influence lines, load cases, patterns, envelopes: C07 C08 C09 C10."""
from __future__ import annotations

import copy

import numpy as np

from . import gen
from .base import (LINE_FAULTS, SEAM_FAULTS, ModelLedger, ModelOps, Scenario, interleave, number,
                   results_ok, scenario)
from .core import diff_close, diff_exact, digest, outcome, spoil
from .scen_bridge import DRAW_FAULTS, check_envelope, extreme_ok
from .scen_model import swarm

MEM_FAULTS = ["num-memory", "num-interrupt", "alloc-memory", "alloc-interrupt"]


# =========================================================================== C07
@scenario
class C07(Scenario):
    id = "C07"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.3 else SEAM_FAULTS + LINE_FAULTS
        streams = []
        for c in range(rng.choice([1, 1, 2])):
            d = gen.beam(rng, max_spans=rng.choice([1, 2, 3]), springs=0, settle=0, gav=0, kf=0,
                         sections=rng.choice([0, 0, 0, 0.5]), hinges=rng.choice([0, 0.4]),
                         segments=0.1, npts=False, loads=0)
            T = sum(d["L"])
            ops = [{"op": "new", "c": c, "m": c, "d": d}]

            seen, step = [], None

            def get():
                if seen and rng.random() < 0.4:  # the same reading again, or another one there
                    g = dict(rng.choice(seen))
                    if rng.random() < 0.4 and g["eff"] not in ("R", "MR"):
                        g["eff"] = rng.choice("MV")
                    return g
                g = get0()
                seen.append(g)
                return g

            def get0():
                i = rng.randrange(len(d["L"]))
                x = round(sum(d["L"][:i]) + d["L"][i] * rng.uniform(0.06, 0.94) + 0.0007, 5)
                eff = rng.choice(["M", "M", "V", "R", "m", "v", "MR"])
                if eff == "MR":
                    sup = [j for j in range(len(d["L"]) + 1) if d["R"][2 * j + 1] == -1]
                    if not sup:
                        eff = "M"
                    else:
                        x = sum(d["L"][:rng.choice(sup)])
                elif eff == "R":
                    sup = [j for j in range(len(d["L"]) + 1) if d["R"][2 * j] == -1]
                    if not sup:
                        eff = "M"
                    else:
                        x = sum(d["L"][:rng.choice(sup)])
                return {"poi": x, "eff": eff}

            first = True
            for _ in range(rng.randint(4, 8) if tier == "quick" else rng.randint(6, 14)):
                q = rng.random()
                n = rng.randint(3, 12)
                if step is None or rng.random() < 0.65:
                    step = round(T / n, 4) if rng.random() < 0.6 else T / n
                if first or q < 0.45:
                    ops.append({"op": "create", "c": c, "m": c, "step": step,
                                "val": rng.choice([1.0, 1.0, 2.5]),
                                "fault": gen.pick_fault(rng, kinds, 0.4)})
                elif q < 0.55:
                    ops.append(dict({"op": "plot", "c": c, "m": c,
                                     "fault": gen.pick_fault(rng, DRAW_FAULTS if kinds else [],
                                                             0.4)}, **get()))
                elif q < 0.59:
                    ops.append({"op": "npts", "c": c, "m": c, "n": rng.choice([20, 30, 41, 100])})
                    d = dict(d, npts=ops[-1]["n"])
                    if rng.random() < 0.7:
                        ops.append({"op": "create", "c": c, "m": c, "step": step,
                                    "val": 1.0, "fault": gen.pick_fault(rng, kinds, 0.3)})
                elif q < 0.66:
                    R = gen.restraint_edit(rng, d)
                    if rng.random() < 0.3:
                        R = gen.near_R(rng, d) or R
                    if R is not None and not any(r > 0 for r in R):
                        d = dict(d, R=R)
                        ops.append({"op": "R", "c": c, "m": c, "R": R})
                        ops.append({"op": "create", "c": c, "m": c, "step": step, "val": 1.0,
                                    "fault": None})
                else:
                    ops.append(dict({"op": "get", "c": c, "m": c,
                                     "fault": gen.pick_fault(rng, kinds, 0.1),
                                     "spoil": rng.random() < 0.3}, **get()))
                first = False
                if q < 0.45:
                    for _ in range(rng.randint(1, 2)):
                        ops.append(dict({"op": "get", "c": c, "m": c, "fault": None}, **get()))
            ops.append({"op": "create", "c": c, "m": c, "step": round(T / 7, 4), "val": 1.0,
                        "fault": None})
            ops.append(dict({"op": "get", "c": c, "m": c, "fault": None}, **get()))
            streams.append(ops)
        return {"ops": number(interleave(rng, streams)), "faults": kinds}

    def op_new(self, op):
        from . import world
        out, _ = self.ctx.call(op, lambda: world.build_il(op["d"]))
        if out[0] == "ok":
            self.s[op["m"]] = {"il": out[1], "d": copy.deepcopy(op["d"]), "sets": [None]}

    def op_R(self, op):
        s = self.slot(op)
        if s is None or len(op["R"]) != len(s["d"]["R"]):
            return
        s["il"].ba.beam.restraints = list(op["R"])
        s["d"]["R"] = list(op["R"])
        s["sets"] = []  # the old lines describe another structure

    def op_npts(self, op):
        s = self.slot(op)
        if s is None:
            return
        s["il"].ba.npts = op["n"]  # for the lines generated from now on
        s["d"]["npts"] = op["n"]

    def op_create(self, op):
        s = self.slot(op)
        if s is None:
            return
        out, fired = self.ctx.call(op, lambda: s["il"].create_ils(op["step"], op["val"]))
        new = (copy.deepcopy(s["d"]), op["step"], op["val"])
        if out[0] == "ok":
            s["sets"] = [new]
        else:
            self.ctx.stat("probe:interrupted-create")
            if not fired:
                self.ctx.check(gen.stability(s["d"]) != "stable", "create-failed",
                               f"creating influence lines failed: {out[1]} {out[2]}")
            if fired and op["fault"]["kind"].startswith("line"):
                s["sets"] = s["sets"] + [new]  # complete old or complete new

    def _state(self, s):
        from . import world
        il = s["il"]
        return [[float(p) for p in il.pos], [world.snap(r) for r in il.vResults]]

    def op_get(self, op, plot=False):
        s = self.slot(op)
        if s is None or not s["sets"]:
            return
        if op["eff"] in ("R", "MR") and -1 not in s["d"]["R"][op["eff"] == "MR"::2]:
            return
        before = self._state(s)
        if not before[1] and s["sets"] == [None]:
            # lazily generated with 100 steps: only ask for it on cheap models
            if any(isinstance(e, dict) for e in s["d"]["EI"]):
                return
        if plot:
            import matplotlib.pyplot as plt
            out, fired = self.ctx.call(op, lambda: s["il"].plot_il(op["poi"], op["eff"]))
            plt.close("all")
        else:
            out, fired = self.ctx.call(op, lambda: s["il"].get_il(op["poi"], op["eff"]))
        after = self._state(s)
        if before[1]:
            self.ctx.check(diff_exact(after, before), "reading-changed-lines",
                           "reading an influence line changed the lines:")
        elif after[1]:  # generated lazily, also when the drawing failed afterwards
            s["sets"] = [(copy.deepcopy(s["d"]), None, 1.0)]
        self.ctx.check(len(after[0]) == len(after[1]) or not after[1], "positions-and-results",
                       f"{len(after[0])} positions with {len(after[1])} results")
        if plot or fired:
            return
        if not self.ctx.check(out[0] == "ok", "unreadable",
                              f"influence line cannot be read: {out[1]} {out[2]}"):
            return
        x, eta = np.array(out[1][0], float), np.array(out[1][1], float)
        self.ctx.log("il", digest([x, eta]))
        if not self.ctx.check(x.shape == eta.shape, "positions-and-ordinates",
                              f"{x.size} positions with {eta.size} ordinates"):
            return
        sets = [q for q in s["sets"] if q is not None]
        if not sets:
            return
        self.ctx.query("il", [sets, op["poi"], op["eff"].upper(), self.ctx.iop],
                       {"x": x, "eta": eta}, "influence-line",
                       "the influence line is not one complete unit-load traverse:", mode="il",
                       rtol=1e-7)
        if op.get("spoil"):
            spoil(out[1])
            if self.ctx.check(diff_exact(self._state(s), after), "reading-changed-lines",
                              "writing into the ordinates that were read changed the lines:"):
                self.op_get(dict(op, spoil=False, fault=None))

    def op_plot(self, op):
        self.op_get(op, plot=True)


# =========================================================================== C08
def factor_row(r, f):
    r = list(r)
    if r[1] in (1, 2, 3, 4):
        r[2] = r[2] * f
    elif r[1] == 5:
        r[2], r[3] = r[2] * f, r[3] * f
    elif r[1] == 6:
        r[2:] = [v * f for v in r[2:]]
    return r


def lc_rows(lc):
    return [lc.to_LM(), [c.to_LM() for c in lc], lc.load_positions()]


def seg_rows(L, x0, x1, w):
    out, n0 = [], 0.0
    for i, l in enumerate(L):
        a, b = max(x0, n0), min(x1, n0 + l)
        if b - a > 1e-9:
            out.append([i + 1, 3, w, a - n0, b - a])
        n0 += l
    return out


@scenario
class C08(ModelOps):
    id = "C08"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.35 else SEAM_FAULTS + LINE_FAULTS
        seam = [k for k in kinds if not k.startswith("line")]
        streams = []
        for c in range(rng.choice([1, 1, 2])):
            led = ModelLedger(rng, c, c, **dict(swarm(rng), max_spans=rng.choice([1, 2, 3])))
            how = rng.choice(["plain", "plain", "plain", "beam", "list", "segments", "spans"])
            start, names, last = [], [], {}
            w0 = round(rng.uniform(2, 15), 2)
            if how == "list":
                for j in range(rng.randint(1, 2)):
                    names.append(f"c{j}")
                    last[f"c{j}"] = [gen.load(rng, led.d) for _ in range(rng.randint(1, 2))]
                    start.append([f"c{j}", last[f"c{j}"]])
            ns = rng.choice([1, 2, 3])
            led.emit("lc", how=how, cases=copy.deepcopy(start), w=w0, ns=ns)

            def add():
                nm = f"c{len(names)}"
                rows = [gen.load(rng, led.d) for _ in range(rng.randint(1, 2))]
                if last and rng.random() < 0.3:
                    rows = gen.near_loads(rng, led.d, last[rng.choice(names)])
                names.append(nm)
                last[nm] = rows
                led.emit("lcadd", name=nm, rows=rows,
                         how=rng.choice(["add", "add_case", "append", "set"]),
                         alias=rng.random() < 0.4, fault=None)

            add()
            asked = None
            for _ in range(rng.randint(6, 11) if tier == "quick" else rng.randint(8, 20)):
                q = rng.random()
                if q < 0.04:
                    led.emit("lctwo", how=rng.choice(["copy", "swap", "swap", "drop"]))
                elif q < 0.10:
                    add()
                elif q < 0.30:
                    nm = rng.choice(names)
                    k = rng.choice(["load", "load", "seg", "all", "set", "edit", "span"])
                    T = sum(led.d["L"])
                    x0 = round(rng.uniform(0, 0.6) * T, 3)
                    if rng.random() < 0.35:  # the same case, almost as it was
                        new = gen.near_loads(rng, led.d, last[nm])
                        if len(names) > 1 and rng.random() < 0.3:
                            other = rng.choice(names)
                            new = last[other]
                            led.emit("lcset", name=other, rows=last[nm])
                            last[other] = last[nm]
                        last[nm] = new
                        led.emit("lcset", name=nm, rows=new)
                        continue
                    led.emit("lcedit", name=nm, kind=k, row=gen.load(rng, led.d),
                             x0=x0, x1=round(x0 + rng.uniform(0.1, 0.39) * T, 3),
                             w=round(rng.uniform(1, 20), 2),
                             fault=gen.pick_fault(rng, [x for x in seam if "alloc" in x], 0.2))
                elif q < 0.36:
                    led.load()
                elif q < 0.42:
                    led.restr()
                elif q < 0.46:
                    led.disp()
                elif q < 0.54:
                    led.emit("analyze", npts=rng.choice([None, 12, 25]), check=True, fault=None)
                elif q < 0.58:
                    R0 = list(led.d["R"])
                    if led.restr("mechanism"):
                        led.emit("ask", what="matrix", resp="M", f=[], fault=None)
                        led.d["R"] = R0
                        led.emit("R", R=R0)
                else:
                    if asked is None or rng.random() < 0.5:
                        asked = dict(what=rng.choice(["matrix", "one", "envelope", "combine",
                                                      "combination", "target", "sign",
                                                      "case-combo", "additive", "rows", "held",
                                                      "held", "to-case", "rows-of"]),
                                     resp=rng.choice(["M", "V", "D", "R"]))
                    if rng.random() < 0.12:
                        led.emit("hold", resp=asked["resp"], kind=rng.choice(["target", "list", "array"]),
                                 f=[rng.choice([0.0, 1.2, -0.7]) for _ in range(8)])
                    led.emit("ask", what=asked["what"], resp=asked["resp"],
                             f=[rng.choice([0.0, 1.35, 1.0, -0.9, round(rng.uniform(0.2, 2), 2)])
                                for _ in range(8)], name=rng.choice(names),
                             spoil=rng.random() < 0.3,
                             byname=rng.random() < 0.5, npts=rng.choice([None, None, 14]),
                             fault=gen.pick_fault(rng, kinds, 0.3))
            led.emit("ask", what="matrix", resp="M", f=[], fault=None)
            led.emit("ask", what="envelope", resp="M", f=[], fault=None)
            streams.append(led.ops)
        return {"ops": number(interleave(rng, streams)), "faults": kinds}

    def op_lc(self, op):
        import pycba as cba
        s = self.slot(op)
        if s is None:
            return
        how, w, n = op.get("how", "plain"), op.get("w"), len(s.d["L"])
        s.cases = []          # [name, rows] in order
        s.bare = how == "beam"
        s.two = s.held = None

        def go():
            if how == "beam":
                return cba.LoadCases(s.obj.beam)
            if how == "list":
                return cba.LoadCases(s.obj, [cba.LoadCase(nm, [list(r) for r in rows])
                                             for nm, rows in op["cases"]])
            if how == "segments":
                return cba.make_patterned_udl(s.obj, w, op["ns"])
            if how == "spans":
                return cba.make_span_udl_cases(s.obj, w)
            return cba.LoadCases(s.obj)

        out, _ = self.ctx.call(op, go)
        if not self.ctx.check(out[0] == "ok", "collection-refused",
                              f"load cases could not be made: {out[1]}"):
            return
        s.lc = out[1]
        if how == "list":
            s.cases = [[nm, [list(r) for r in rows]] for nm, rows in op["cases"]]
        elif how == "segments":
            for i, L in enumerate(s.d["L"]):
                c = L / op["ns"]
                for k in range(op["ns"]):
                    s.cases.append([f"UDL span {i + 1} segment {k + 1}",
                                    [[i + 1, 3, w, k * c,
                                      L - k * c if k == op["ns"] - 1 else c]]])
            got = self._observe(s)   # same segments, up to rounding of their ends
            if [c[0] for c in got] == [c[0] for c in s.cases] and diff_close(
                    [c[1] for c in got], [c[1] for c in s.cases], 1e-12, 1e-12) is None:
                s.cases = [[c.name, [list(r) for r in c.loads]] for c in s.lc]
        elif how == "spans":
            s.cases = [[f"UDL on span {i + 1}", [[i + 1, 1, w]]] for i in range(n)]
        from . import world
        self._guard(s, world.full_state(s.obj), "making load cases")

    def op_lctwo(self, op):
        """A second collection over the same template, made from the first one's cases."""
        import pycba as cba
        from . import world
        s = self._lc(op)
        if s is None:
            return
        pre = world.full_state(s.obj)
        if op["how"] == "copy" or s.two is None:
            out, _ = self.ctx.call(op, lambda: cba.LoadCases(s.lc.beam_model, list(s.lc)))
            if out[0] == "ok":
                s.two = (out[1], copy.deepcopy(s.cases))
        elif op["how"] == "swap":
            s.two, s.lc, s.cases = (s.lc, s.cases), s.two[0], s.two[1]
            s.held = None
        else:
            s.two = None
        self._guard(s, pre, "copying load cases")

    def op_hold(self, op):
        """A combination kept by the caller, asked again after later edits."""
        import pycba as cba
        from . import world
        s = self._lc(op)
        if s is None or not s.cases:
            return
        pre = world.full_state(s.obj)
        n = len(s.cases)
        f = (list(op["f"]) + [1.0] * n)[:n]

        def go():
            if op["kind"] == "target":
                c = s.lc.target_combination("kept", 0.37 * sum(s.d["L"]), "max", op["resp"])
            else:
                c = cba.LoadCombination("kept", np.array(f) if op["kind"] == "array" else f)
            return c, np.array(c.factor_vector(s.lc), float)

        out, _ = self.ctx.call(op, go)
        if out[0] == "ok":
            s.held = (out[1][0], out[1][1].copy(), n)
            if op["kind"] != "target":
                self.ctx.check(diff_exact(out[1][1], np.array(f, float)), "combination-factors",
                               "a combination has other factors than it was given:")
        self._guard(s, pre, "making a combination")

    def _lc(self, op):
        s = self.slot(op)
        return s if s is not None and hasattr(s, "lc") else None

    def _rows(self, s, name):
        for c in s.cases:
            if c[0] == name:
                return c[1]
        return None

    def _observe(self, s):
        from . import world
        return [[c.name, [[float(v) for v in r] for r in c.loads]] for c in s.lc]

    def _want(self, s):
        return [[n, [[float(v) for v in r] for r in rows]] for n, rows in s.cases]

    def _guard(self, s, pre, what):
        """Template untouched; cases as the ledger says."""
        from . import world
        self.ctx.check(diff_exact(world.full_state(s.obj), pre), "template-changed",
                       f"{what} changed the template beam:")
        got, want = self._observe(s), self._want(s)
        self.ctx.check(diff_exact(got, want), "cases-changed", f"{what} changed the load cases:")
        if s.two is not None:
            got = [[c.name, [[float(v) for v in r] for r in c.loads]] for c in s.two[0]]
            want = [[n, [[float(v) for v in r] for r in rows]] for n, rows in s.two[1]]
            self.ctx.check(diff_exact(got, want), "cases-changed",
                           f"{what} changed another collection:")

    def op_lcadd(self, op):
        import pycba as cba
        from . import world
        s = self._lc(op)
        if s is None or self._rows(s, op["name"]) is not None:
            return
        rows = [list(r) for r in op["rows"]]
        given = [list(r) for r in rows]
        pre = world.full_state(s.obj)
        how = op["how"]

        def go():
            if how == "append":
                return s.lc.append(cba.LoadCase(op["name"], given))
            if how == "set":
                return s.lc.set(op["name"], given)
            if how == "add_case":
                return s.lc.add_case(op["name"], given)
            return s.lc.add(op["name"], given)

        out, fired = self.ctx.call(op, go)
        if out[0] == "ok":
            s.cases.append([op["name"], rows])
            if op["alias"]:  # the caller goes on using his list
                given.append([1, 1, 99.0])
                given[0][2] = 1234.5
        self._guard(s, pre, "adding a case")

    def op_lcset(self, op):
        from . import world
        s = self._lc(op)
        if s is None or self._rows(s, op["name"]) is None:
            return
        pre = world.full_state(s.obj)
        rows = [list(r) for r in op["rows"]]
        out, _ = self.ctx.call(op, lambda: s.lc.set(op["name"], [list(r) for r in rows]))
        if out[0] == "ok":
            for c in s.cases:
                if c[0] == op["name"]:
                    c[1] = rows
        self._guard(s, pre, "setting a case")

    def op_lcedit(self, op):
        from . import world
        s = self._lc(op)
        if s is None:
            return
        rows = self._rows(s, op["name"])
        if rows is None:
            return
        pre = world.full_state(s.obj)
        k, row, nm = op["kind"], list(op["row"]), op["name"]
        new = [list(r) for r in rows]
        n = len(s.d["L"])
        extra = []
        if k in ("load", "edit"):
            new.append(row)
        elif k == "seg":
            new += seg_rows(s.d["L"], op["x0"], op["x1"], op["w"])
        elif k == "all":
            new += [[i + 1, 1, op["w"]] for i in range(n)]
        elif k == "set":
            new = [row]
        elif k == "span":
            if any(c[0].startswith("UDL on") for c in s.cases):
                return
            extra = [[f"UDL on span {i + 1}", [[i + 1, 1, op["w"]]]] for i in range(n)]

        def go():
            lc = s.lc
            if k == "edit":
                lc.case(nm).add_load(list(row))
            elif k == "seg":
                lc.add_segment_udl(nm, op["x0"], op["x1"], op["w"])
            elif k == "all":
                lc.add_all_spans_udl(nm, op["w"])
            elif k == "set":
                lc.set(nm, [list(row)])
            elif k == "span":
                lc.add_span_udl(op["w"])
            else:
                i, t = row[0], row[1]
                if t == 1:
                    lc.add_udl(nm, i, row[2])
                elif t == 2:
                    lc.add_pl(nm, i, row[2], row[3])
                elif t == 3:
                    lc.add_pudl(nm, i, row[2], row[3], row[4])
                elif t == 4:
                    lc.add_ml(nm, i, row[2], row[3])
                elif t == 5:
                    lc.add_trap(nm, i, *row[2:])
                else:
                    lc.add_ic(nm, i, list(row[2:]))

        out, fired = self.ctx.call(op, go)
        if out[0] == "ok":
            if k == "seg":
                # a segment may be stored as full-span or partial loads: take the
                # rows as stored, and let the analyses below judge them
                got = [list(r) for c in s.lc if c.name == nm for r in c.loads]
                keep = len(rows)
                if len(got) >= keep and diff_exact(
                        [[float(v) for v in r] for r in got[:keep]],
                        [[float(v) for v in r] for r in rows]) is None:
                    s.seg = (nm, got[keep:], new[keep:])
                    self._segment(s)
                    new = got
            for c in s.cases:
                if c[0] == nm:
                    c[1] = new
            s.cases += extra
        self._guard(s, pre, "editing a case" if out[0] == "ok" else
                    f"an edit of a case that failed ({out[1]})")

    def _segment(self, s):
        """Stored rows of a segmented load are equivalent to the segment."""
        nm, got, want = s.seg
        d = copy.deepcopy(s.d)
        self.ctx.query("pair", [dict(d, LM=got), dict(d, LM=want)], None, "segment-load",
                       "a segmented load is not the load asked for:", mode="pair",
                       floor=self._floor(d))

    def _floor(self, d):
        F = 1e-9 * max(gen.fscale(d), 100 * sum(d["L"]))
        return {"*": F, "x": 1e-9, "D": 1e-11, "rot": 1e-11, "d": 1e-11}

    def op_ask(self, op):
        from . import world
        s = self._lc(op)
        if s is None or not s.cases:
            return
        pre = world.full_state(s.obj)
        w, resp = op["what"], op["resp"]
        n = len(s.cases)
        f = (list(op["f"]) + [1.0] * n)[:n]
        key = {c[0]: v for c, v in zip(s.cases, f) if v != 0.0} if op.get("byname") else f
        npts = op.get("npts")
        import pycba as cba
        raw = []

        def own(o):
            raw.append(o)
            return o

        def go():
            lc = s.lc
            if w == "matrix":
                x, B = own(lc.response_matrix(resp))
                return [np.array(x), np.array(B)]
            if w == "one":
                case = [c for c in lc if c.name == op["name"]]
                x, y = own(cba.analyse_load_case(s.lc.beam_model, case[0], resp))
                return [np.array(x), np.array(y)[None, :]]
            if w == "envelope":
                env = own(lc.envelope(npts))
                return {"env": world.snap_env(env, deep=False),
                        "res": [world.snap(r) for r in env.vResults]}
            if w == "combine":
                x, y = own(lc.combine(key, resp))
                return [np.array(x), np.array(y)]
            if w == "combination":
                return world.snap(own(lc.analyze_combination(key, npts=npts).beam_results))
            if w == "case-combo":
                lco = cba.LoadCombination("k", key)
                env = own(lco.envelope(lc, npts=npts))
                return world.snap(env.vResults[0])
            if w == "additive":
                x, B = lc.response_matrix(resp)
                a, b, _, _ = cba.additive_envelope(B, min(2, n))
                return [np.array(a), np.array(b)]
            if w == "rows":
                x, y = own(lc.linear_combination([f, f[::-1]], resp))
                return [np.array(x), np.array(y)]
            if w == "held":
                x, y = own(s.held[0].response(lc, response=resp))
                own(s.held[0].factor_vector(lc))
                own(s.held[0].to_LM(lc))
                return [np.array(x), np.array(y)]
            if w == "to-case":
                case = own(cba.LoadCombination("k", key).to_load_case(lc))
                x, y = cba.analyse_load_case(s.lc.beam_model, case, resp)
                return [np.array(x), np.array(y)]
            if w == "rows-of":
                rows = own(lc.combined_loads(key))
                x, y = cba.analyse_load_case(s.lc.beam_model, cba.LoadCase("k", rows), resp)
                return [np.array(x), np.array(y)]
            if w == "target":
                c = lc.target_combination("t", 0.43 * sum(s.d["L"]), response=resp)
                x, y = own(c.response(response=resp))
                return [np.array(c.factor_vector()), np.array(y)]
            x, B = lc.response_matrix(resp)
            a, b, _, _ = cba.sign_selective_envelope(B)
            return [np.array(a), np.array(b)]

        if w == "one" and self._rows(s, op["name"]) is None:
            return
        if w == "held":
            if s.held is None or s.held[2] != n:
                return
            f = [float(v) for v in s.held[1]]
        out, fired = self.ctx.call(op, go)
        self._guard(s, pre, f"the analysis of load cases ('{w}')")
        if fired and out[0] == "err":
            return
        if gen.stability(s.d) is None:
            return
        rkey = {"M": "M", "V": "V", "D": "D", "R": "rot"}[resp]
        d = copy.deepcopy(s.d)
        if s.bare:
            d["npts"] = 100
        if npts and w in ("envelope", "combination", "case-combo"):
            d["npts"] = npts
        if w in ("combination", "case-combo", "to-case", "rows-of"):
            LM = [factor_row(r, v) for c, v in zip(s.cases, f) if v != 0.0 for r in c[1]]
            defs = [dict(d, LM=LM)]
        elif w == "one":
            defs = [dict(d, LM=self._rows(s, op["name"]))]
        else:
            defs = [dict(d, LM=c[1]) for c in s.cases]
        val = out[1]
        if w == "envelope" and out[0] == "ok":
            check_envelope(self.ctx, {"env": val["env"], "res": val["res"], "pos": []},
                           "case-envelope")
        self.ctx.query("many", [defs], [out[0], val], "load-case-response",
                       f"'{w}' differs from direct analyses of the template:",
                       mode="cases:" + w.replace("rows-of", "to-case") + ":" + rkey + ":" +
                       repr(f), floor=self._floor(d))
        if op.get("spoil") and out[0] == "ok" and not self.ctx.violations:
            spoil(raw)
            spoil(lc_rows(s.lc))
            self._guard(s, pre, f"writing into what '{w}' returned")
            self.op_ask(dict(op, spoil=False, fault=None))

    def analyzed(self, s, op, out, fired, snap, d_try, before):
        self.ask_static(d_try, True, [out[0], snap if out[0] == "ok" else out[1]],
                        "template-analysis", "the template beam analyses differently:")


# =========================================================================== C09
@scenario
class C09(ModelOps):
    id = "C09"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.3 else SEAM_FAULTS + LINE_FAULTS
        streams = []
        for c in range(rng.choice([1, 1, 2])):
            led = ModelLedger(rng, c, c, **dict(swarm(rng), max_spans=rng.choice([1, 2, 3, 4])))
            led.emit("pat")

            def rows():
                return [gen.load(rng, led.d, span=i + 1) for i in range(len(led.d["L"]))
                        for _ in range(rng.choice([0, 1, 1]))] or [gen.load(rng, led.d)]

            last = {}

            def setl(k):
                new = rows()
                if k in last and rng.random() < 0.5:
                    new = gen.near_loads(rng, led.d, last[k])
                last[k] = new
                led.emit("setl", k=k, rows=new, gmax=rng.choice([1.35, 1.5, 1.2]),
                         gmin=rng.choice([0.9, 0.0, 1.0]), alias=rng.random() < 0.4)

            setl("g")
            setl("q")
            for _ in range(rng.randint(4, 7) if tier == "quick" else rng.randint(6, 14)):
                q = rng.random()
                if q < 0.18:
                    setl(rng.choice("gq"))
                elif q < 0.22:
                    led.load()
                elif q < 0.30:
                    led.restr()
                elif q < 0.35:
                    led.disp()
                elif q < 0.45:
                    led.emit("analyze", npts=rng.choice([None, 15, 30]), check=True, fault=None)
                elif q < 0.50:
                    R0 = list(led.d["R"])
                    if led.restr("mechanism"):
                        led.emit("pattern", npts=None, fault=None)
                        led.d["R"] = R0
                        led.emit("R", R=R0)
                elif q < 0.56:
                    led.emit("badload")
                else:
                    led.emit("pattern", npts=rng.choice([None, None, 11, 27]),
                             spoil=rng.random() < 0.3,
                             fault=gen.pick_fault(rng, kinds, 0.5))
                    if rng.random() < 0.5:
                        led.emit("analyze", npts=None, check=True, fault=None)
            led.emit("pattern", npts=None, fault=None)
            led.emit("pattern", npts=None, fault=None)
            streams.append(led.ops)
        return {"ops": number(interleave(rng, streams)), "faults": kinds}

    def op_pat(self, op):
        import pycba as cba
        s = self.slot(op)
        if s is not None:
            s.pat = cba.LoadPattern(s.obj)
            s.lists = {}
            s.given = []

    def op_setl(self, op):
        s = self.slot(op)
        if s is None or not hasattr(s, "pat"):
            return
        rows = [list(r) for r in op["rows"]]
        given = [list(r) for r in rows]
        f = s.pat.set_dead_loads if op["k"] == "g" else s.pat.set_live_loads
        out, _ = self.ctx.call(op, lambda: f(given, op["gmax"], op["gmin"]))
        if out[0] == "ok":
            s.lists[op["k"]] = (rows, op["gmax"], op["gmin"])
            if op["alias"]:
                given[0][2] = 777.0
                given.append([1, 1, 55.0])
            s.given.append((given, copy.deepcopy(given)))

    def op_badload(self, op):
        """A pattern whose loads cannot be analysed, then the good ones again."""
        s = self.slot(op)
        if s is None or not hasattr(s, "pat") or "q" not in s.lists:
            return
        keep = s.lists["q"]
        s.pat.set_live_loads([[len(s.d["L"]) + 2, 6, 1e-3]], 1.5, 0.0)
        s.lists["q"] = ([[len(s.d["L"]) + 2, 6, 1e-3]], 1.5, 0.0)
        self.op_pattern(dict(op, npts=None, fault=None, op="pattern"))
        s.pat.set_live_loads([list(r) for r in keep[0]], keep[1], keep[2])
        s.lists["q"] = keep

    def arrangements(self, s):
        n = len(s.d["L"])
        (G, g1, g0), (Q, q1, q0) = s.lists["g"], s.lists["q"]
        sets = [{i, i + 1} for i in range(1, n)]
        sets += [set(range(1, n + 1, 2)), set(range(2, n + 1, 2)), set(range(1, n + 1))]
        out = []
        for t in sets:
            out.append([factor_row(r, g1 if r[0] in t else g0) for r in G] +
                       [factor_row(r, q1 if r[0] in t else q0) for r in Q])
        # the last arrangement is the fully loaded one, whatever spans exist
        out[-1] = [factor_row(r, g1) for r in G] + [factor_row(r, q1) for r in Q]
        return out

    def op_pattern(self, op):
        from . import world
        s = self.slot(op)
        if s is None or not hasattr(s, "pat") or len(s.lists) < 2:
            return
        if op.get("spoil"):     # the user edits the arrangements that were shown
            o = outcome(lambda: [[c.loads for c in s.pat.to_load_cases()], s.pat.to_LM()])
            if o[0] == "ok":
                spoil(o[1])
        pre = world.full_state(s.obj)
        npts = op["npts"]
        out, fired = self.ctx.call(op, lambda: s.pat.analyze(npts) if npts else s.pat.analyze())
        post = world.full_state(s.obj)
        line = fired and op["fault"]["kind"].startswith("line")
        if out[0] == "err":
            self.ctx.stat("probe:failed-pattern")
            if not line:
                self.ctx.check(diff_exact(post, pre), "failed-pattern-changed-beam",
                               f"a pattern run that failed ({out[1]}) changed the beam model:")
        # whatever happened, the structure itself is never touched
        a, b = dict(pre["def"]), dict(post["def"])
        for k in ("LM", "npts"):
            a.pop(k), b.pop(k)
        self.ctx.check(diff_exact(b, a), "pattern-changed-structure",
                       "a pattern run changed the structure:")
        self.ctx.check(all(diff_exact(g, c) is None for g, c in s.given), "inputs-changed",
                       "a pattern run changed the caller's load lists")
        val = None
        if out[0] == "ok":
            env = out[1]
            val = {"env": world.snap_env(env, deep=False),
                   "res": [world.snap(r) for r in env.vResults]}
            self.ctx.log("pattern", digest(val))
            check_envelope(self.ctx, dict(val, pos=[]), "pattern-envelope")
        if not (fired and out[0] == "err") and gen.stability(s.d) is not None:
            n = npts if npts else s.d["npts"]
            defs = [dict(copy.deepcopy(s.d), LM=LM, npts=n) for LM in self.arrangements(s)]
            F = 1e-9 * max(gen.fscale(x) for x in defs)
            self.ctx.query("many", [defs], [out[0], val if out[0] == "ok" else out[1]],
                           "pattern-result",
                           "the pattern envelope differs from the factored arrangements:",
                           mode="pattern", floor={"*": F, "x": 1e-9, "D": 1e-11, "rot": 1e-11,
                                                  "d": 1e-11})
        if out[0] == "ok" or line:
            # a completed run leaves its last arrangement on the model; put the
            # user's own loads back so that the ledger stays exact
            s.obj.set_loads([list(r) for r in s.d["LM"]])
            s.obj.npts = s.d["npts"]
            if op.get("spoil") and out[0] == "ok":
                spoil(out[1])
            s.res = None if s.obj.beam_results is None else world.snap(s.obj.beam_results)

    def analyzed(self, s, op, out, fired, snap, d_try, before):
        if gen.stability(d_try) is None:
            return
        self.ask_static(d_try, True, [out[0], snap if out[0] == "ok" else out[1]],
                        "analysis-after-pattern", "an analysis after pattern runs differs:")


# =========================================================================== C10
EXT = ("Vmax", "Vmin", "Mmax", "Mmin", "Rmaxval", "Rminval", "Rmax", "Rmin")
CO = (("Vco_Mmax", "Mmax"), ("Vco_Mmin", "Mmin"), ("Mco_Vmax", "Vmax"), ("Mco_Vmin", "Vmin"))


@scenario
class C10(Scenario):
    id = "C10"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.3 else ["alloc-memory", "alloc-interrupt",
                                               "line-interrupt", "line-memory"]
        seam = [k for k in kinds if not k.startswith("line")]
        d = gen.beam(rng, max_spans=rng.choice([1, 2, 3]), sections=0, kf=0, gav=0,
                     settle=rng.choice([0, 0.3]), loads=1)
        d["npts"] = rng.choice([10, 16, 25])
        alt = gen.beam(rng, max_spans=3, sections=0, kf=0, gav=0, loads=1)
        alt["npts"] = d["npts"] + rng.choice([0, 7])
        streams = []
        names = []
        ops = []
        nres = rng.choice([1, 2, 3])
        sets = []
        for k in range(rng.randint(2, 4)):
            m = nres if rng.random() < 0.6 else rng.randint(1, 4)
            new = [[gen.load(rng, d) for _ in range(rng.randint(1, 2))] for _ in range(m)]
            if sets and rng.random() < 0.3:  # almost the same envelope again
                new = [gen.near_loads(rng, d, x) if rng.random() < 0.6 else x for x in sets[-1]]
            sets.append(new)
            ops.append({"op": "env", "c": 0, "n": f"e{k}", "d": d, "sets": new})
            names.append(f"e{k}")
        ops.append({"op": "env", "c": 0, "n": "alien", "d": alt,
                    "sets": [[gen.load(rng, alt)] for _ in range(nres)]})
        k = len(names)
        for _ in range(rng.randint(6, 12) if tier == "quick" else rng.randint(10, 26)):
            q = rng.random()
            pick = [rng.choice(names) for _ in range(rng.randint(2, 4))]
            clients = rng.randrange(2)
            if q < 0.40:
                ops.append({"op": "combine", "c": clients, "n": f"e{k}", "of": pick,
                            "mode": rng.choice(["envelope", "envelope", "sum"]),
                            "how": rng.choice(["combine", "op", "gen"]),
                            "fault": gen.pick_fault(rng, kinds, 0.25)})
                names.append(f"e{k}")
                k += 1
            elif q < 0.62:
                ops.append({"op": "inplace", "c": clients, "t": pick[0], "e": pick[1],
                            "what": rng.choice(["augment", "augment", "sum"]),
                            "fault": gen.pick_fault(rng, seam, 0.3)})
            elif q < 0.70:
                ops.append({"op": "zero", "c": clients, "n": f"e{k}", "e": pick[0],
                            "fault": gen.pick_fault(rng, kinds, 0.2)})
                names.append(f"e{k}")
                k += 1
            elif q < 0.85:
                ops.append({"op": "reject", "c": clients, "of": pick[:2],
                            "what": rng.choice(["augment", "sum", "combine", "mode", "empty",
                                                "or", "add", "last"])})
            elif q < 0.93:
                ops.append({"op": "order", "c": clients, "of": pick,
                            "perm": rng.sample(range(len(pick)), len(pick))})
            else:
                ops.append({"op": "read", "c": clients, "e": pick[0],
                            "what": rng.choice(["at", "df", "per_span", "plot", "ratios"])})
        return {"ops": number(ops), "faults": kinds}

    def __init__(self, ctx):
        super().__init__(ctx)
        self.e = {}     # name -> (object, reference snapshot)
        self.mixed = set()  # envelopes merged from different numbers of results

    def _verify(self, what, skip=()):
        from . import world
        for n, (o, ref) in self.e.items():
            if n in skip:
                continue
            if not self.ctx.check(diff_exact(world.snap_env(o), ref), "envelope-corrupted",
                                  f"{what} changed envelope {n}:"):
                return

    def op_env(self, op):
        import pycba as cba
        from . import world

        def go():
            ba = world.build(dict(op["d"], LM=[]))
            ba.npts = op["d"]["npts"]
            res = []
            for LM in op["sets"]:
                ba.set_loads([list(r) for r in LM])
                ba.analyze()
                res.append(ba.beam_results)
            return cba.Envelopes(res), res

        out, _ = self.ctx.call(op, go)
        if out[0] != "ok":
            return
        env, res = out[1]
        snap = world.snap_env(env)
        check_envelope(self.ctx, {"env": snap, "res": snap["res"], "pos": []}, "envelope-of-results")
        self.e[op["n"]] = (env, snap)

    # reference model -------------------------------------------------------
    @staticmethod
    def _floored(v, nm):
        return np.maximum(v, 0.0) if "max" in nm else np.minimum(v, 0.0)

    def _ref_combine(self, refs, mode):
        """Accepted values of every array of the combination."""
        out = {}
        for nm in EXT:
            mats = [r[nm] for r in refs]
            if nm in ("Rmax", "Rmin") and len({m.shape for m in mats}) > 1:
                out[nm] = None
                continue
            A = np.array(mats)
            if mode == "sum":
                out[nm] = [A.sum(axis=0)]
            else:
                e = A.max(axis=0) if "max" in nm else A.min(axis=0)
                out[nm] = [e, self._floored(e, nm)]
        return out

    def _judge(self, got, want, cls, what):
        for nm in EXT:
            w = want[nm]
            if w is None:
                continue
            sc = max([np.abs(x).max() if x.size else 0.0 for x in w] + [0.0])
            ok = got[nm].shape == w[0].shape and \
                any(np.all(np.abs(got[nm] - x) <= 1e-9 * sc + 1e-300) for x in w)
            if not self.ctx.check(ok, cls, f"{what}: {nm} is not the expected array"):
                return

    def _judge_co(self, got, refs, cls, what):
        """Coincident effects of an extreme come from an operand that governs."""
        for co, main in CO:
            sc = max(np.abs(r[main]).max() for r in refs)
            so = max(np.abs(r[co]).max() for r in refs)
            ok = np.zeros(got[co].shape, bool)
            for r in refs:
                ok |= (np.abs(r[main] - got[main]) <= 1e-9 * sc) & \
                      (np.abs(r[co] - got[co]) <= 1e-9 * so)
            ok |= np.abs(got[main]) <= 1e-9 * sc
            if not self.ctx.check(bool(ok.all()), cls,
                                  f"{what}: {co} does not go with the governing {main}"):
                return

    def _history(self, got, name, of, want, cls, what):
        """Once the numbers of results differ, no reaction history is handed out,
        by this merge or by any later one the result takes part in."""
        keep = not self.mixed & set(of) and len({self.e[n][1]["nres"] for n in of}) == 1
        if keep:
            self.mixed.discard(name)
            return
        want["Rmax"] = want["Rmin"] = None
        self.mixed.add(name)
        self.ctx.stat("probe:mixed-history")
        self.ctx.check(not np.any(got["Rmax"]) and not np.any(got["Rmin"]), cls,
                       f"{what}: a reaction history survives a merge of envelopes with "
                       "different numbers of results")

    def _have(self, names):
        return all(n in self.e for n in names)

    def op_combine(self, op):
        import pycba as cba
        from . import world
        if not self._have(op["of"]):
            return
        objs = [self.e[n][0] for n in op["of"]]
        refs = [self.e[n][1] for n in op["of"]]

        def go():
            if op["how"] == "op":
                o = objs[0]
                for x in objs[1:]:
                    o = (o | x) if op["mode"] == "envelope" else (o + x)
                return o
            if op["how"] == "gen":
                return cba.Envelopes.combine((x for x in objs), mode=op["mode"])
            return cba.Envelopes.combine(objs, mode=op["mode"])

        out, fired = self.ctx.call(op, go)
        self._verify(f"a combination ({op['mode']}) ended by {out[1] if out[0] == 'err' else 'ok'}")
        if out[0] == "err":
            self.ctx.check(fired, "combine-refused", f"combination refused: {out[1]} {out[2]}")
            return
        got = world.snap_env(out[1])
        what = f"combination ({op['mode']}) of {op['of']}"
        want = self._ref_combine(refs, op["mode"])
        self._history(got, op["n"], op["of"], want, "combination", what)
        self._judge(got, want, "combination", what)
        if op["mode"] == "envelope":
            self._judge_co(got, refs, "combination", what)
        self.ctx.check(diff_exact(got["x"], refs[0]["x"]), "combination", what + " stations")
        self.e[op["n"]] = (out[1], got)

    def op_inplace(self, op):
        from . import world
        if not self._have([op["t"], op["e"]]):
            return
        t, e = self.e[op["t"]], self.e[op["e"]]
        f = t[0].augment if op["what"] == "augment" else t[0].sum
        out, fired = self.ctx.call(op, lambda: f(e[0]))
        if out[0] == "err":
            self.ctx.stat("probe:interrupted-inplace")
            self.ctx.check(fired, "augment-refused", f"{out[1]} {out[2]}")
            self._verify(f"an interrupted {op['what']}")
            return
        self._verify(f"{op['what']} of {op['t']} with {op['e']}", skip=(op["t"],))
        got = world.snap_env(t[0])
        refs = [t[1], e[1]]
        what = f"{op['what']} of {op['t']} with {op['e']}"
        want = self._ref_combine(refs, "sum" if op["what"] == "sum" else "envelope")
        self._history(got, op["t"], [op["t"], op["e"]], want, "augmentation", what)
        self._judge(got, want, "augmentation", what)
        if op["what"] == "augment":
            self._judge_co(got, refs, "augmentation", what)
        self.e[op["t"]] = (t[0], got)

    def op_zero(self, op):
        import pycba as cba
        from . import world
        if not self._have([op["e"]]):
            return
        out, fired = self.ctx.call(op, lambda: cba.Envelopes.zero_like(self.e[op["e"]][0]))
        self._verify("zero_like")
        if out[0] == "ok":
            got = world.snap_env(out[1])
            self.ctx.check(all(not np.any(got[k]) for k in EXT), "zero", "zero_like is not zero")
            self.mixed.discard(op["n"])
            self.e[op["n"]] = (out[1], got)

    def op_reject(self, op):
        import pycba as cba
        if not self._have(op["of"] + ["alien"]):
            return
        a, b = (self.e[n][0] for n in op["of"])
        z = self.e["alien"][0]
        w = op["what"]
        compatible = self.e[op["of"][0]][1]["npts"] == self.e["alien"][1]["npts"] and \
            self.e[op["of"][0]][1]["nsup"] == self.e["alien"][1]["nsup"]
        if compatible and w not in ("mode", "empty"):
            return

        def go():
            if w == "augment":
                a.augment(z)
            elif w == "sum":
                a.sum(z)
            elif w == "combine":
                cba.Envelopes.combine([a, z, b])
            elif w == "last":
                cba.Envelopes.combine([a, b, z], mode="sum")
            elif w == "mode":
                cba.Envelopes.combine([a, b], mode="mean")
            elif w == "empty":
                cba.Envelopes.combine([])
            elif w == "or":
                a | z
            else:
                z + a

        out, _ = self.ctx.call(op, go)
        self.ctx.check(out[0] == "err", "mismatch-accepted",
                       f"an incompatible combination ({w}) was accepted")
        self.ctx.stat("probe:rejected-combination")
        self._verify(f"a rejected combination ({w})")

    def op_order(self, op):
        import pycba as cba
        from . import world
        if not self._have(op["of"]):
            return
        objs = [self.e[n][0] for n in op["of"]]
        perm = [objs[i] for i in op["perm"] if i < len(objs)]
        if len(perm) != len(objs):
            return
        out, _ = self.ctx.call(op, lambda: (world.snap_env(cba.Envelopes.combine(objs)),
                                            world.snap_env(cba.Envelopes.combine(perm))))
        self._verify("combining in two orders")
        if out[0] == "ok":
            a, b = out[1]
            keys = [k for k in EXT if k not in ("Rmax", "Rmin") or
                    len({self.e[n][1]["nres"] for n in op["of"]}) == 1]
            self.ctx.check(diff_close({k: a[k] for k in keys}, {k: b[k] for k in keys}, 1e-12),
                           "order", "combining in another order gives other extremes:")

    def op_read(self, op):
        import matplotlib.pyplot as plt
        if not self._have([op["e"]]):
            return
        o = self.e[op["e"]][0]
        w = op["what"]

        def go():
            if w == "at":
                return str(o.at(0.4 * o.x[-1]))
            if w == "df":
                return len(o.to_dataframe())
            if w == "per_span":
                return o.per_span("Mmin").shape
            if w == "plot":
                o.plot()
                plt.close("all")

        self.ctx.call(op, go)
        self._verify(f"reading ({w})")
