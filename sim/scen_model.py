"""Histories of one or several beam models: C01 C02 C03 C19 C17."""
from __future__ import annotations

import copy

import numpy as np

from . import gen
from .base import (LINE_FAULTS, SEAM_FAULTS, ModelLedger, ModelOps, Slot, interleave, number,
                   results_ok, scenario)
from .core import diff_exact, digest, outcome, spoil


def swarm(rng):
    """Per-run feature mix."""
    return dict(max_spans=rng.choice([1, 2, 3, 4]), sections=rng.choice([0, 0, 0.3, 0.7]),
                gav=rng.choice([0, 0, 0.3, 0.7]), kf=rng.choice([0, 0, 0.3, 0.8]),
                springs=rng.choice([0, 0.3, 0.7]), settle=rng.choice([0, 0.3, 0.6]),
                hinges=rng.choice([0, 0.3, 0.7]))


# =========================================================================== C01
@scenario
class C01(ModelOps):
    id = "C01"

    @classmethod
    def gen(cls, rng, tier):
        fault_free = rng.random() < 0.4
        kinds = [] if fault_free else rng.sample(SEAM_FAULTS + LINE_FAULTS, rng.randint(1, 4))
        nclients = rng.choice([1, 2, 2, 3])
        streams = []
        share = rng.random() < 0.6
        first = None
        for c in range(nclients):
            led = ModelLedger(rng, c, c, **dict(swarm(rng), odd=0.06))
            if share and first is not None:
                # most of the definition is the same: anything keyed too coarsely collides
                led.d = copy.deepcopy(first)
                for _ in range(rng.randint(1, 2)):
                    led.d = gen.near_def(rng, led.d) or led.d
                led.ops[0]["d"] = copy.deepcopy(led.d)
            first = first or copy.deepcopy(led.d)
            n = rng.randint(5, 11) if tier == "quick" else rng.randint(6, 22)
            for _ in range(n):
                q = rng.random()
                if q < 0.16:
                    led.load()
                elif q < 0.26:
                    led.loads()
                elif q < 0.38:
                    led.restr()
                elif q < 0.46:
                    led.disp()
                elif q < 0.52:
                    LM = led.poison()
                    led.analyze()
                    led.undo(LM)
                elif q < 0.56:
                    if led.restr("mechanism"):
                        led.analyze(check=rng.random() < 0.8)
                        led.restr()
                elif q < 0.60:
                    led.emit("stable")
                elif q < 0.64:
                    led.emit("touch", what=rng.choice(["repr", "at", "df", "tikz", "modal"]))
                elif q < 0.67:
                    led.emit("spoil", what=rng.choice(["results", "results", "member"]))
                    led.analyze()
                else:
                    led.analyze(fault=gen.pick_fault(rng, kinds, 0.25),
                                npts=rng.choice([None, None, None, 12, 25, 60]),
                                check=rng.random() < 0.85)
            led.analyze()
            streams.append(led.ops)
        return {"ops": number(interleave(rng, streams)), "faults": kinds}

    def op_stable(self, op):
        s = self.slot(op)
        if s is not None:
            self.ctx.call(op, lambda: s.obj.is_stable())

    def op_spoil(self, op):
        """The user changes the signs or units of the results in place."""
        from . import world
        s = self.slot(op)
        if s is not None and op.get("what") == "member":
            # member matrices and load vectors handed out by the beam
            for i in range(len(s.d["L"])):
                for f in (s.obj.beam.get_span_k, s.obj.beam.get_ref):
                    spoil(outcome(lambda: f(i)))
            return
        if s is not None and s.obj.beam_results is not None:
            br = s.obj.beam_results
            spoil([br.results, br.vRes, br.D, br.R, br.Rs])
            s.res = world.snap(br)

    def op_touch(self, op):
        s = self.slot(op)
        if s is None:
            return
        w = op["what"]

        def go():
            if w == "repr":
                return repr(s.obj)
            if w == "at" and s.obj.beam_results is not None:
                return s.obj.at(0.4 * sum(s.d["L"]))
            if w == "df" and s.obj.beam_results is not None:
                return s.obj.to_dataframe() is None
            if w == "tikz":
                return s.obj.beam.to_tikz()
            if w == "modal":
                return s.obj.modal(1.5, n_modes=3).f

        self.ctx.call(op, go)

    def analyzed(self, s, op, out, fired, snap, d_try, before):
        if out[0] == "err" and fired:
            return
        check = op.get("check", True)
        if not check and gen.stability(d_try) != "stable":
            return  # the numbers of an overridden mechanism mean nothing
        self.ask_static(d_try, check, [out[0], snap if out[0] == "ok" else out[1]],
                        "stale-analysis",
                        "analysis of an edited model differs from a newly built model:")


# =========================================================================== C02
@scenario
class C02(ModelOps):
    id = "C02"

    @classmethod
    def gen(cls, rng, tier):
        kinds = rng.sample(SEAM_FAULTS + LINE_FAULTS, rng.randint(2, 6))
        if rng.random() < 0.15:
            kinds = []
        streams = []
        for c in range(rng.choice([1, 1, 2])):
            led = ModelLedger(rng, c, c, **swarm(rng))
            for _ in range(rng.randint(4, 8) if tier == "quick" else rng.randint(6, 16)):
                q = rng.random()
                npts = rng.choice([None, None, 15, 33, 70])
                if q < 0.15:
                    led.load()
                elif q < 0.22:
                    led.loads()
                elif q < 0.30:
                    led.restr()
                elif q < 0.36:
                    led.disp()
                elif q < 0.50:
                    LM = led.poison()
                    led.emit("analyze", npts=npts, check=True, fault=None)
                    led.undo(LM)
                    if rng.random() < 0.6:
                        led.emit("analyze", npts=None, check=True, fault=None)
                elif q < 0.62:
                    R0 = list(led.d["R"])
                    if led.restr("mechanism"):
                        led.emit("analyze", npts=npts, check=True, fault=None)
                        led.d["R"] = R0
                        led.emit("R", R=R0)
                elif q < 0.90:
                    led.emit("analyze", npts=npts, check=True,
                             fault=gen.pick_fault(rng, kinds, 1.0))
                    if rng.random() < 0.5:
                        led.emit("analyze", npts=None, check=True, fault=None)
                else:
                    led.emit("analyze", npts=npts, check=True, fault=None)
            led.emit("analyze", npts=None, check=True, fault=None)
            streams.append(led.ops)
        return {"ops": number(interleave(rng, streams)), "faults": kinds}

    def analyzed(self, s, op, out, fired, snap, d_try, before):
        from . import world
        line = fired and op["fault"]["kind"].startswith("line")
        if out[0] == "err":
            self.ctx.stat("probe:failed-analysis")
            if s.res is not None:
                self.ctx.stat("probe:failed-with-previous-results")
            bad = results_ok(s)
            if bad is not None and line and s.obj.beam_results is not None:
                # the interrupt may land after publication: then the new results
                # must be the complete new ones
                new = world.snap(s.obj.beam_results)
                self.ctx.stat("probe:interrupt-after-publication")
                self.ask_static(d_try, True, ["ok", new], "torn-results",
                                "interrupted analysis left results that are neither old nor new:")
                s.res, s.resdef = new, d_try
                bad = None
            self.ctx.check(bad, "results-changed-by-failure",
                           f"a failed analysis ({out[1]}) changed the results shown by the model:")
            got = int(s.obj.npts)
            okn = got == before or (line and got == d_try["npts"])
            self.ctx.check(okn, "npts-changed-by-failure",
                           f"a failed analysis changed the evaluation count {before} -> {got}")
            s.d["npts"] = got if okn else before
            self.ctx.check(diff_exact(world.definition(s.obj),
                                      world.want_definition(self._clean(s.d))),
                           "definition-changed-by-failure",
                           f"a failed analysis ({out[1]}) changed the model definition:")
            # results must be usable: every accessor agrees with the snapshot
            if s.res is not None:
                def read():
                    s.obj.at(0.3 * sum(s.d["L"]))
                    return s.obj.to_dataframe()
                from .core import outcome
                o = outcome(read)
                self.ctx.check(o[0] == "ok" and diff_exact(
                    np.asarray(o[1]["M"]), s.res["M"]) is None,
                    "unreadable-after-failure", "results cannot be read after a failed analysis")
        else:
            if not fired and s.resdef is not None:
                self.ctx.stat("probe:success-after-history")
        if not fired and not (out[0] == "err" and gen.stability(self._clean(d_try)) is None):
            self.ask_static(self._clean(d_try), True,
                            [out[0], snap if out[0] == "ok" else out[1]],
                            "retry-differs",
                            "an analysis after failures differs from an undisturbed model:")

    @staticmethod
    def _clean(d):
        return d


# =========================================================================== C03
@scenario
class C03(ModelOps):
    id = "C03"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.4 else ["num-memory", "num-interrupt", "alloc-memory",
                                               "alloc-interrupt", "line-interrupt"]
        streams = []
        for c in range(rng.choice([1, 1, 2])):
            kw = swarm(rng)
            led = ModelLedger(rng, c, c, want=rng.choice(["stable", "stable", "mechanism"]), **kw)
            memory = []
            for _ in range(rng.randint(6, 12) if tier == "quick" else rng.randint(8, 24)):
                q = rng.random()
                if q < 0.16:
                    led.restr("stable")
                elif q < 0.34:
                    led.restr("mechanism")
                elif q < 0.42 and memory:
                    led.d["R"] = list(rng.choice(memory))  # back to an earlier layout
                    if led.stable() is None:
                        led.d["R"] = list(memory[0])
                    led.emit("R", R=list(led.d["R"]))
                elif q < 0.48:
                    led.disp()
                elif q < 0.53:
                    led.load()
                elif q < 0.70:
                    led.emit("stable", fault=gen.pick_fault(rng, kinds, 0.2))
                elif q < 0.82:
                    led.emit("analyze", npts=None, check=False, fault=None)
                else:
                    led.emit("analyze", npts=None, check=True,
                             fault=gen.pick_fault(rng, kinds, 0.25))
                if led.stable() is not None:
                    memory.append(list(led.d["R"]))
            led.emit("stable")
            led.emit("analyze", npts=None, check=True, fault=None)
            streams.append(led.ops)
        return {"ops": number(interleave(rng, streams)), "faults": kinds}

    def _applied_conflict(self, d):
        return any(r > 0 and (d.get("D") or [None] * len(d["R"]))[i] is not None
                   for i, r in enumerate(d["R"]))

    def op_stable(self, op):
        s = self.slot(op)
        if s is None:
            return
        out, fired = self.ctx.call(op, lambda: s.obj.is_stable())
        self.ctx.check(results_ok(s), "query-changed-results",
                       "a stability query changed the results:")
        if fired:
            return
        v = gen.stability(s.d)
        if v is None:
            return
        self.ctx.stat("probe:query-" + v)
        self.ctx.check(out[0] == "ok" and bool(out[1]) == (v == "stable"), "wrong-verdict",
                       f"stability query answered {out[1]!r} for a {v} structure")
        self.ctx.query("stable", [s.d], [out[0], bool(out[1]) if out[0] == "ok" else out[1]],
                       "verdict-history", "stability query differs from a new model:",
                       mode="outcome")

    def analyzed(self, s, op, out, fired, snap, d_try, before):
        if fired:
            return
        v = gen.stability(d_try)
        if v is None or self._applied_conflict(d_try):
            return
        check = op.get("check", True)
        if check and v == "mechanism":
            self.ctx.stat("probe:checked-mechanism")
            self.ctx.check(out[0] == "err" and out[1] in ("ValueError", "LinAlgError"),
                           "mechanism-analysed",
                           f"a mechanism was analysed with the check on (outcome {out[:2]!r:.80})")
        elif v == "stable":
            self.ctx.stat("probe:stable-analysed")
            self.ctx.check(out[0] == "ok", "stable-refused",
                           f"a stable structure was refused: {out[1]} {out[2]}")
        if not check:
            self.ctx.stat("probe:override")


# =========================================================================== C19
@scenario
class C19(ModelOps):
    id = "C19"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.4 else SEAM_FAULTS + LINE_FAULTS
        streams = []
        for c in range(rng.choice([1, 2])):
            led = ModelLedger(rng, c, c, prismatic=rng.random() < 0.85,
                              max_spans=rng.choice([1, 2, 3]),
                              springs=rng.choice([0, 0.5]), settle=rng.choice([0, 0.4]),
                              segments=0.1)
            last = None
            for _ in range(rng.randint(5, 10) if tier == "quick" else rng.randint(8, 18)):
                q = rng.random()
                if q < 0.15:
                    led.load()
                elif q < 0.22:
                    led.loads()
                elif q < 0.32:
                    led.restr()
                elif q < 0.38:
                    led.disp()
                elif q < 0.60:
                    led.emit("analyze", npts=rng.choice([None, 20]), check=True,
                             fault=gen.pick_fault(rng, kinds, 0.15))
                else:
                    a = {"n": rng.choice([1, 3, 6]), "nseg": rng.choice([12, 12, 12, 4, 7]),
                         "mass": rng.choice([0.5, 1.0, 2.5, "list", "rev", "arr", "bad", "own",
                                             "own", "own", "tuple", "ints", "view", "np"])}
                    if last and rng.random() < 0.5:
                        k = rng.choice(sorted(a))
                        a = dict(last, **{k: a[k]})
                    last = a
                    led.emit("modal", fault=gen.pick_fault(rng, kinds, 0.25),
                             spoil=rng.random() < 0.2, **a)
                    if rng.random() < 0.4:
                        led.ops.append({"op": "mread", "c": c, "k": rng.randrange(4),
                                        "how": rng.choice(["shape", "shape", "plot", "results",
                                                           "repr"]),
                                        "fault": gen.pick_fault(rng, kinds, 0.1)})
            led.emit("modal", n=4, mass=1.0)
            led.emit("analyze", npts=None, check=True, fault=None)
            streams.append(led.ops)
        return {"ops": number(interleave(rng, streams)), "faults": kinds}

    def op_modal(self, op):
        from . import world
        s = self.slot(op)
        if s is None:
            return
        mass = op["mass"]
        nseg = op.get("nseg", 12)
        given = mass
        if mass in ("list", "rev", "arr"):
            mass = [1.0 + 0.5 * i for i in range(len(s.d["L"]))]
            if given == "rev":
                mass = mass[::-1]
            given = np.array(mass) if given == "arr" else list(mass)
        elif mass in ("own", "tuple", "ints", "view", "np"):
            n = len(s.d["L"])
            given = {"tuple": tuple(0.7 + 0.4 * i for i in range(n)),
                     "ints": [1 + 2 * i for i in range(n)],
                     "view": np.linspace(0.5, 2.0, 2 * n)[::2],
                     "np": np.float64(1.75)}.get(mass)
            if mass == "own":       # the user's own list, given again and again
                self.own = getattr(self, "own", {})
                given = self.own.setdefault(n, [0.9 + 0.3 * i for i in range(n)])
            if mass == "view":
                given.flags.writeable = False
            mass = float(given) if mass == "np" else [float(m) for m in given]
        elif mass == "bad":
            given = mass = [1.0] * (len(s.d["L"]) + 2)
        before = world.full_state(s.obj)
        kw = {"n_modes": op["n"]}
        if nseg != 12:
            kw["nseg"] = nseg
        out, fired = self.ctx.call(op, lambda: s.obj.modal(given, **kw))
        if op["mass"] == "own":
            self.ctx.check(list(given) == mass, "mass-changed",
                           "a vibration request changed the list of masses it was given")
        self.ctx.check(diff_exact(world.full_state(s.obj), before), "modal-changed-model",
                       "a vibration request changed the model or its results:")
        if fired and out[0] == "err":
            return
        got = out[1]
        if out[0] == "ok":
            self.held = getattr(self, "held", [])
            self.held.append((out[1], world.snap_modal(out[1]), {}))
            got = world.modal_key(out[1])
            f = np.asarray(out[1].f)
            got = {"f": got["f"]}
            if len(f) > 1 and np.min(np.abs(np.diff(f)) / (f[1:] + 1e-12)) > 1e-3:
                got = world.modal_key(out[1])
        self.ctx.query("modal", [s.d, mass, op["n"], nseg], [out[0], got], "modal-history",
                       "vibration modes depend on history:", mode="modal", rtol=1e-6,
                       floor={"*": 1e-7})
        if op.get("spoil") and out[0] == "ok" and not self.ctx.violations:
            self.held.pop()
            spoil(out[1])
            self.op_modal(dict(op, spoil=False, fault=None))

    def op_mread(self, op):
        """Reading or drawing the modes of an earlier request."""
        held = getattr(self, "held", [])
        if not held:
            return
        import matplotlib.pyplot as plt
        from . import world
        r, sn, seen = held[-1 - op["k"] % len(held)]
        n = op["k"] % r.n_modes
        out, fired = self.ctx.call(op, lambda: {
            "shape": lambda: r.mode_shape(n), "plot": lambda: r.plot_modes(n),
            "results": lambda: r.plot_results(), "repr": lambda: repr(r)}[op["how"]]())
        plt.close("all")
        if not fired:
            self.ctx.check(out[0] == "ok", "modes-unreadable",
                           f"reading earlier vibration results failed: {out[2]!r:.200}")
        if out[0] == "ok" and op["how"] == "shape":
            now = world.arr(out[1][1])
            self.ctx.check(diff_exact(now, seen.setdefault(n, now)), "modes-changed",
                           "the same mode of the same vibration result is read differently:")
        self.ctx.check(diff_exact(world.snap_modal(r), sn), "modes-changed",
                       f"reading ({op['how']}) an earlier vibration result changed it:")

    def analyzed(self, s, op, out, fired, snap, d_try, before):
        if fired and out[0] == "err":
            return
        self.ask_static(d_try, True, [out[0], snap if out[0] == "ok" else out[1]],
                        "static-after-modal", "static analysis depends on vibration requests:")

    def finish(self):
        from . import world
        for obj, sn, _ in getattr(self, "held", []):
            self.ctx.check(diff_exact(world.snap_modal(obj), sn), "modes-changed",
                           "earlier vibration results changed:")


# =========================================================================== C17
BAD_EDITS = ["span-type", "span-section", "span-gav-section", "disp-length", "add_trap",
             "member-type", "lc-trap", "lc-dup", "lc-segment", "lc-ic", "lc-missing",
             "sec-type", "sec-gap", "sec-order", "sec-negative", "sec-len", "clear", "clear-nan",
             "ic-bad", "bridge-none", "veh-counts", "train-counts", "train-type", "units",
             "backend", "combo-len", "combo-name", "pattern-unset", "il-bad", "shear-step",
             "modal-mass", "lc-append-dup", "lc-remove", "lm-append-dup", "factors",
             "span-length", "span-none", "lc-span-udl", "lc-extend", "lc-extend-broken", "lc-row",
             "case-row", "case-helper",
             "lc-set", "lc-set-new", "lc-add-broken", "loads-type", "loads-broken", "row-broken",
             "br-vehicle", "br-bridge", "sec-late", "sec-call", "sec-scalar", "disp-type",
             "restr-broken", "pattern-dead", "pattern-live", "lc-set-meta", "lc-helper",
             "lc-helper", "br-set", "bm-type", "bm-section", "bm-gav", "bm-length"]


GOOD_EDITS = ["section", "case", "case", "vehicle", "span", "live", "set"]


class Broken(list):
    """A caller's list that fails while it is being read or copied."""

    def __iter__(self):
        raise KeyError("broken")

    def __deepcopy__(self, memo):
        raise KeyError("broken")

    __copy__ = __iter__


def seen(bm):
    """A beam under construction, as its user sees it."""
    T = bm.length
    return [bm.no_spans, bm.no_members, float(T), [float(x) for x in bm.mbr_lengths],
            [float(x) for x in bm.mbr_EIs], [int(x) for x in bm.mbr_eletype],
            list(bm.mbr_GAv), list(bm.mbr_kf),
            [bm.get_local_span_coords(T * f) for f in (0.0, 0.3, 0.61, 0.97, 1.0)],
            [np.array(bm.get_span_k(i)) for i in range(bm.no_spans)]]


@scenario
class C17(ModelOps):
    id = "C17"

    @classmethod
    def gen(cls, rng, tier):
        streams = []
        kinds = [] if rng.random() < 0.6 else ["alloc-memory", "num-memory"]
        for c in range(rng.choice([1, 1, 2])):
            led = ModelLedger(rng, c, c, **dict(swarm(rng), settle=0.3))
            led.emit("aux", case=[gen.load(rng, led.d) for _ in range(2)],
                     veh=gen.vehicle(rng))
            for _ in range(rng.randint(6, 12) if tier == "quick" else rng.randint(10, 22)):
                q = rng.random()
                if q < 0.12:
                    led.load()
                elif q < 0.2:
                    led.restr()
                elif q < 0.26:
                    led.disp()
                elif q < 0.36:
                    led.emit("analyze", npts=None, check=True, fault=None)
                elif q < 0.44:
                    led.emit("use", what=rng.choice(["cases", "bridge", "section"]))
                elif q < 0.54:
                    led.emit("good", what=rng.choice(GOOD_EDITS), v=round(rng.uniform(0.5, 3), 3))
                else:
                    led.emit("bad", what=rng.choice(BAD_EDITS), v=round(rng.uniform(0.5, 3), 3))
            for w in rng.sample(GOOD_EDITS, 3):
                led.emit("good", what=w, v=round(rng.uniform(0.5, 3), 3))
            led.emit("use", what="cases")
            led.emit("use", what="bridge")
            led.emit("use", what="section")
            led.emit("analyze", npts=None, check=True, fault=None)
            streams.append(led.ops)
        return {"ops": number(interleave(rng, streams)), "faults": []}

    def op_aux(self, op):
        import pycba as cba
        s = self.slot(op)
        if s is None:
            return
        s.lc = cba.LoadCases(s.obj)
        s.case = [list(r) for r in op["case"]]
        s.lc.add("A", s.case)
        s.lc.add("B", [[1, 1, 3.0]])
        s.cases = [["A", s.case], ["B", [[1, 1, 3.0]]]]
        s.veh_d = op["veh"]
        s.veh = cba.Vehicle(list(op["veh"]["axs"]), list(op["veh"]["axw"]))
        s.br = cba.BridgeAnalysis(s.obj, s.veh)
        L = s.d["L"][0]
        s.segs = [["linear", [0.0, L], [3e4, 5e4]]]
        s.sec = cba.SectionEI(s.segs)
        s.sec_len = L
        s.spans = []
        s.bm = cba.Beam()
        s.lc2 = cba.LoadCases(s.obj)
        s.lc2.add(f"UDL on span {len(s.d['L'])}", [[1, 1, 2.0]])
        s.pat = cba.LoadPattern(s.obj)
        s.pat.set_dead_loads([[1, 1, 2.0]], 1.3, 0.9)
        s.pat.set_live_loads(s.case, 1.6, 0.0)

    def _observe(self, s):
        from . import world
        import pycba as cba
        st = world.full_state(s.obj)
        lcs = getattr(s, "lc", None)
        st["aux"] = None if lcs is None else {
            "cases": [[c.name, world.norm_LM(c.loads)] for c in lcs],
            "veh": [np.array(s.veh.axs, float), np.array(s.veh.axw, float),
                    np.array(s.veh.axle_coords, float), float(s.veh.L), float(s.veh.W)],
            "sec": [world.rig_probe(s.sec, s.sec_len), np.array(s.sec.breakpoints)],
            "cases2": [[c.name, world.norm_LM(c.loads), repr(c.loaded_spans)] for c in s.lc2],
            "br": [s.br.ba is s.obj, s.br.veh is s.veh],
            "pat": [world.norm_LM(s.pat.LMg), world.norm_LM(s.pat.LMq),
                    [float(g) for g in (s.pat.gamma_g_max, s.pat.gamma_g_min,
                                        s.pat.gamma_q_max, s.pat.gamma_q_min)]],
            "bm": seen(s.bm),
            "static": world.norm_LM(s.br.static_LM)}
        st["units"] = repr(cba.get_units())
        st["backend"] = cba.get_backend()
        return st

    def op_use(self, op):
        s = self.slot(op)
        if s is None or not hasattr(s, "lc"):
            return
        from . import world
        w = op["what"]
        if w == "cases":
            out, _ = self.ctx.call(op, lambda: s.lc.response_matrix("M"))
            defs = [dict(copy.deepcopy(s.d), LM=copy.deepcopy(r)) for _, r in s.cases]
            obs = ["err", out[1]] if out[0] == "err" else ["ok", np.array(out[1][1])]
            self.ctx.query("many", [defs], obs, "cases-after-rejection",
                           "load-case responses after rejected edits differ:", mode="many-M")
        elif w == "bridge":
            pos = 0.37 * sum(s.d["L"]) + 0.0123
            out, _ = self.ctx.call(op, lambda: world.snap(s.br.static_vehicle(pos)))
            if out[0] == "ok":
                s.res = out[1]
            self.ctx.query("positions", [s.d, [pos], s.veh_d],
                           ["ok", [[out[0], out[1]]]],
                           "bridge-after-rejection",
                           "a vehicle placement after rejected edits differs:", mode="positions")
        else:
            out, _ = self.ctx.call(op, lambda: world.rig_probe(s.sec, s.sec_len))
            import pycba as cba
            want = world.rig_probe(cba.SectionEI(s.segs), s.sec_len)
            self.ctx.check(out[0] == "ok" and diff_exact(out[1], want) is None,
                           "section-after-rejection", "section changed by a rejected segment")

    def op_good(self, op):
        """A valid edit: accepted, and with the effect it has on an object never refused anything."""
        import pycba as cba
        from . import world
        s = self.slot(op)
        if s is None or not hasattr(s, "lc"):
            return
        w, v = op["what"], op["v"]
        k = int(v * 1000)
        name = ("NEW", "NEW2", "NEW3", "N4", "N5", "N7", "N8", "N9", "N10", "N12")[k % 10]
        new = name not in [q[0] for q in s.cases]
        rows = [[1, 1, v]]
        seg = [["linear", [s.sec_len, s.sec_len + v], [4e4, 4e4 * v]],
               ["const", [s.sec_len, s.sec_len + v], 4e4],
               ["pwl", [s.sec_len, s.sec_len + 1, s.sec_len + 2], [4e4, 3e4, 5e4]]][k % 3]
        span = [4.0 + v, 3e4 * v, 1 + k % 3]

        def spans(bm, ss):
            for q in ss:
                bm.add_span(*q)
            return bm

        def go():
            if w == "section":
                s.sec.add_segment(*seg)
                return world.rig_probe(s.sec, s.sec_len), np.array(s.sec.breakpoints)
            if w == "case":
                if new:
                    s.lc.add_case(name, rows)
                else:
                    s.lc.add_udl(name, 1, v)
                return world.norm_LM(s.lc.case(name, create=False).loads)
            if w == "set":
                s.lc.set(name, rows)
                return world.norm_LM(s.lc.case(name, create=False).loads)
            if w == "vehicle":
                s.br.add_vehicle([v, 2.0], [10.0, 20.0, 5.0 * v])
                return [np.array(s.br.veh.axs, float), np.array(s.br.veh.axw, float)]
            if w == "span":
                return seen(spans(s.bm, [span]))
            s.pat.set_live_loads(rows, 1.0 + v, -v)
            return [world.norm_LM(s.pat.LMq), float(s.pat.gamma_q_max),
                    float(s.pat.gamma_q_min)]

        out, _ = self.ctx.call(op, go)
        if w == "section":
            s.segs = s.segs + [seg]
            want = (world.rig_probe(cba.SectionEI(s.segs), s.sec_len),
                    np.array(cba.SectionEI(s.segs).breakpoints))
            s.sec_len = float(seg[1][-1])
        elif w == "case":
            if new:
                s.cases.append([name, rows])
            else:
                [q for q in s.cases if q[0] == name][0][1].append([1, 1, v])
            want = world.norm_LM([q for q in s.cases if q[0] == name][0][1])
        elif w == "set":
            if new:
                s.cases.append([name, rows])
            else:
                [q for q in s.cases if q[0] == name][0][1] = rows
            want = world.norm_LM(rows)
        elif w == "vehicle":
            s.veh = s.br.veh
            s.veh_d = {"axs": [v, 2.0], "axw": [10.0, 20.0, 5.0 * v]}
            want = [np.array([v, 2.0]), np.array([10.0, 20.0, 5.0 * v])]
        elif w == "span":
            s.spans.append(span)
            want = seen(spans(cba.Beam(), s.spans))
        else:
            want = [world.norm_LM(rows), 1.0 + v, -v]
        self.ctx.stat("probe:accepted:" + w)
        if self.ctx.check(out[0] == "ok", "valid-edit-refused",
                          f"the valid edit '{w}' was refused: {out[1:]}"):
            self.ctx.check(diff_exact(out[1], want), "edit-after-rejection",
                           f"the valid edit '{w}' has another effect than on an object that never "
                           "refused one:")

    def op_bad(self, op):
        import pycba as cba
        s = self.slot(op)
        if s is None or not hasattr(s, "lc"):
            return
        b, w, v, n = s.obj.beam, op["what"], op["v"], len(s.d["L"])
        L1 = s.sec_len

        def go():
            if w == "span-type":
                b.add_span(5.0 * v, 3e4, "XX")
            elif w == "member-type":
                b.add_member(4.0 * v, 3e4, 9)
            elif w == "span-section":
                b.add_span(L1 + 1.0, s.sec)
            elif w == "span-gav-section":
                b.add_span(L1 + 2.0, 3e4, 1, s.sec)
            elif w == "disp-length":
                b.prescribed_displacements = [0.01] * (2 * n + 1)
            elif w == "add_trap":
                s.obj.add_trap(1, 2.0, 3.0, a=0.5)
            elif w == "ic-bad":
                s.obj.add_ic(1, "not a number")
            elif w == "lc-trap":
                s.lc.add_trap("NEW", 1, 2.0, 3.0, a=0.5)
            elif w == "lc-ic":
                s.lc.add_ic("NEW2", 1, "bad")
            elif w == "lc-segment":
                s.lc.add_segment_udl("NEW3", 3.0, 1.0, v)
            elif w == "lc-dup":
                s.lc.add("A", [[1, 1, 9.0]])
            elif w == "lc-append-dup":
                s.lc.append(cba.LoadCase("B", [[1, 1, 7.0]]))
            elif w == "lm-append-dup":
                s.lc.add_case("A")
            elif w == "lc-missing":
                s.lc.case("nope", create=False)
            elif w == "lc-remove":
                s.lc.factors({"nope": 1.0})
            elif w == "combo-len":
                s.lc.analyze_combination([1.0] * 5)
            elif w == "combo-name":
                s.lc.combine({"nope": 2.0})
            elif w == "factors":
                s.lc.combined_loads([[1.0, 1.0], [2.0, 1.0]])
            elif w == "sec-type":
                s.sec.add_segment("cubic", [L1, L1 + 1], [1.0, 2.0])
            elif w == "sec-gap":
                s.sec.add_segment("linear", [L1 + 1, L1 + 2], [1.0, 2.0])
            elif w == "sec-order":
                s.sec.add_segment("pwl", [L1, L1 + 2, L1 + 1], [1.0, 2.0, 3.0])
            elif w == "sec-negative":
                s.sec.add_segment("pwl", [L1, L1 + 1, L1 + 2], [1e4, -5.0, 1e4])
            elif w == "sec-len":
                s.sec.add_segment("linear", [L1, L1 + 1], [1.0, 2.0, 3.0])
            elif w == "clear":
                s.br.run_load_model(v, 9.0, clearances=(-1.0, 2.0))
            elif w == "clear-nan":
                s.br.run_load_model(v, 9.0, clearances=(float("nan"), 1.0))
            elif w == "bridge-none":
                cba.BridgeAnalysis(s.obj, None).run_vehicle(1.0)
            elif w == "shear-step":
                s.br.run_vehicle(0, shear_points=[1.0 + v])
            elif w == "veh-counts":
                cba.Vehicle([1.0, 2.0], [10.0])
            elif w == "train-counts":
                cba.make_train([s.veh, s.veh], [1.0, 2.0])
            elif w == "train-type":
                cba.make_train([s.veh, "x"], [3.0])
            elif w == "units":
                cba.set_units("furlong")
            elif w == "backend":
                cba.set_backend("gnuplot")
            elif w == "pattern-unset":
                cba.LoadPattern(s.obj).analyze()
            elif w == "il-bad":
                cba.InfluenceLines(s.d["L"], [3e4] * (n + 2), s.d["R"])
            elif w == "modal-mass":
                s.obj.modal([1.0] * (n + 3))
            elif w == "bm-type":
                s.bm.add_span(5.0 * v, 3e4, "XX")
            elif w == "bm-section":
                s.bm.add_span(L1 + 1.0, s.sec)
            elif w == "bm-gav":
                s.bm.add_member(L1 + 2.0, 3e4, 1, s.sec)
            elif w == "bm-length":
                s.bm.add_span([None, "long"][int(v * 100) % 2], 3e4)
            elif w == "span-length":
                b.add_span("long", 3e4)
            elif w == "span-none":
                b.add_member(None, 3e4)
            elif w == "lc-span-udl":
                s.lc2.add_span_udl(v)
            elif w == "lc-extend":
                s.lc.extend([cba.LoadCase("N4", [[1, 1, v]]), cba.LoadCase("A", [[1, 1, v]])])
            elif w == "lc-extend-broken":
                bad = cba.LoadCase("N6")
                bad.loads = Broken()
                s.lc.extend([cba.LoadCase("N5", [[1, 1, v]]), bad])
            elif w == "lc-row":
                s.lc.add_load("N7" if v < 1.7 else "A", Broken([1, 1, v]))
            elif w == "case-row":
                s.lc.case("A").add_load(Broken([1, 1, v]))
            elif w == "case-helper":
                c, bad = s.lc.case("A"), Broken([v])
                [lambda: c.add_udl(1, bad), lambda: c.add_pl(1, bad, 1.0),
                 lambda: c.add_pudl(1, v, bad, 1.0), lambda: c.add_ml(1, bad, 1.0),
                 lambda: c.add_trap(1, v, bad)][int(v * 100) % 5]()
            elif w == "lc-set":
                s.lc.set("A", Broken([[1, 1, v]]), loaded_spans=(0,))
            elif w == "lc-set-meta":
                s.lc.set("A" if v < 1.7 else "N12", [[1, 1, v]], (0,), {"by": Broken()})
            elif w == "lc-helper":
                nm, k = "N10" if int(v * 1000) % 2 else "B", int(v * 100) % 6
                bad = Broken([v])
                [lambda: s.lc.add_udl(nm, 1, bad), lambda: s.lc.add_pl(nm, 1, bad, 1.0),
                 lambda: s.lc.add_pudl(nm, 1, v, bad, 1.0), lambda: s.lc.add_ml(nm, 1, bad, 1.0),
                 lambda: s.lc.add_trap(nm, 1, v, bad),
                 lambda: s.lc.add_all_spans_udl(nm, bad)][k]()
            elif w == "br-set":
                s.br.set_bridge([None, b, "beam"][int(v * 100) % 3])
            elif w == "lc-set-new":
                s.lc.set("N8", Broken([[1, 1, v]]))
            elif w == "lc-add-broken":
                s.lc.add_case("N9", Broken([[1, 1, v]]))
            elif w == "loads-type":
                s.obj.set_loads(5)
            elif w == "loads-broken":
                s.obj.set_loads([[1, 1, v], Broken([1, 1, v])])
            elif w == "row-broken":
                b.add_load(Broken([1, 1, v]))
            elif w == "br-vehicle":
                s.br.add_vehicle([1.0, 2.0], [10.0])
            elif w == "br-bridge":
                s.br.add_bridge([5.0, 6.0], [1.0, 2.0, 3.0], [-1, 0, -1, 0, -1, 0])
            elif w == "sec-late":
                # one bad station among several, anywhere (the last one included)
                k = 3 + int(v * 1000) % 4
                ys = [1e4 + 500.0 * i for i in range(k)]
                ys[(k - 1 - int(v * 100) % k)] = -5.0
                s.sec.add_segment("pwl", [L1 + v * i for i in range(k)], ys)
            elif w == "sec-call":
                s.sec.add_segment("poly", [L1, L1 + v], lambda x: 1.0 - x)
            elif w == "sec-scalar":
                s.sec.add_segment("const", [L1, L1 + v], [1e4, 2e4])
            elif w == "disp-type":
                b.prescribed_displacements = 0.5 * v
            elif w == "restr-broken":
                b.restraints = Broken([-1, 0] * (n + 1))
            elif w == "pattern-dead":
                s.pat.set_dead_loads(Broken([[1, 1, v]]), 1.0 + v, 0.5)
            elif w == "pattern-live":
                s.pat.set_live_loads(Broken([[1, 1, v]]), 1.0 + v, 0.5)

        before = self._observe(s)
        out, _ = self.ctx.call(op, go)
        if out[0] == "ok":
            self.ctx.stat("bad-accepted:" + w)
            # not refused: outside this property; drop the object from the run
            if diff_exact(self._observe(s), before) is not None:
                del self.s[op["m"]]
            return
        self.ctx.stat("probe:rejected:" + w)
        self.ctx.check(diff_exact(self._observe(s), before), "rejected-edit-changed-object",
                       f"the refused call '{w}' ({out[1]}) changed the object:")

    def analyzed(self, s, op, out, fired, snap, d_try, before):
        self.ask_static(d_try, True, [out[0], snap if out[0] == "ok" else out[1]],
                        "analysis-after-rejection",
                        "analysis after rejected edits differs from an undisturbed model:")
