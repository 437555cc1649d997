"""Copies and saved states, across process deaths: C20.

Every process life is a fork of the same pristine process.  It ends in a crash,
between two operations or in the middle of one; only what the user saved (the
bytes of a pickle, an exported CSV) reaches the next life.  Within a life objects
are copied and restored from those bytes; each copy must show what its original
showed, follow its own ledger from then on, and leave every other object alone.
"""
from __future__ import annotations

import copy
import gc
import io
import os
import pickle
import struct
import sys

import numpy as np

from . import gen, world
from .base import LINE_FAULTS, SEAM_FAULTS, interleave, number, scenario, Slot
from .core import HarnessError, LineFault, _in_child, diff_exact, outcome
from .scen_bridge import BridgeLedger, BridgeOps, bswarm, check_envelope
from .scen_hold import take
from .scen_nl import nl_args, nl_beam


class _Kill(LineFault):
    """The process dies at the k-th executed line of pycba."""

    def _loc(self, frame, event, arg):
        if event == "line":
            n = self.n
            self.n = n + 1
            if n == self.at:
                where = os.path.basename(frame.f_code.co_filename) + ":" + frame.f_code.co_name
                self.die(where)
        return self._loc


class _Full(io.RawIOBase):
    """A disk that takes only the first ``room`` bytes."""

    def __init__(self, room):
        self.room, self.data = room, bytearray()

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        take_ = b[:max(0, self.room - len(self.data))]
        self.data += take_
        if len(take_) < len(b):
            raise OSError(28, "No space left on device")
        return len(b)


# --------------------------------------------------------------- what is shown
def plain(o):
    """Public plain data of an object, nested."""
    if isinstance(o, (bool, int, float, str, type(None), np.generic)):
        return o.item() if isinstance(o, np.generic) else o
    if isinstance(o, np.ndarray):
        return np.array(o, copy=True) if o.dtype != object else [plain(v) for v in o]
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [plain(v) for v in o]
    if isinstance(o, dict):
        return {str(k): plain(v) for k, v in o.items()}
    return type(o).__name__


def attrs(o, skip=()):
    return {k: plain(v) for k, v in vars(o).items()
            if not k.startswith("_") and k not in skip and not callable(v)}


def show_value(kind, o):
    if kind in ("res", "env", "modal"):
        return take(o)
    if kind == "il":
        return {"def": world.definition(o.ba), "pos": [float(p) for p in o.pos],
                "res": [world.snap(r) for r in o.vResults]}
    if kind == "nl":
        return attrs(o)
    if kind == "nlres":
        return world.snap_nl(o)
    if kind == "veh":
        return {"axs": plain(np.asarray(o.axs, float)), "axw": plain(np.asarray(o.axw, float)),
                "co": plain(np.asarray(o.axle_coords, float)), "L": float(o.L), "n": int(o.NoAxles)}
    if kind == "sec":
        return [float(o.length), np.array(o(np.linspace(0.0, float(o.length), 19))),
                np.array(o.breakpoints), bool(o.is_constant)]
    if kind == "tend":
        return attrs(o)
    if kind == "case":
        return [o.name, [[float(v) for v in r] for r in o.loads]]
    raise HarnessError(kind)


def show_slot(s):
    """Everything a group of objects around one model shows."""
    out = {"ba": world.full_state(s.obj)}
    b = getattr(s, "br", {}).get(0)
    if b is not None:
        o = b["o"]
        out["br"] = [world.definition(o.ba), o.ba is s.obj,
                     None if b["veh"] is None else show_value("veh", o.veh),
                     [float(p) for p in o.pos], [world.snap(r) for r in o.vResults]]
    if getattr(s, "lc", None) is not None:
        out["lc"] = [[c.name, [[float(v) for v in r] for r in c.loads]] for c in s.lc]
    if getattr(s, "pat", None) is not None:
        out["pat"] = attrs(s.pat, skip=("ba",))
    return out


def show(s):
    return show_slot(s) if isinstance(s, Slot) else show_value(s.kind, s.o)


class Val:
    """A value on its own (result, envelope, vehicle, influence line, ...)."""

    def __init__(self, kind, o, led=None):
        self.kind, self.o, self.led = kind, o, led


def plain_cases(s):
    return [[n, [[float(v) for v in r] for r in rows]] for n, rows in s.cases]


# ------------------------------------------------------------------- oracles
def pattern_of(ba, p):
    import pycba as cba
    lp = cba.LoadPattern(ba)
    set_pattern(lp, p)
    return lp


def set_pattern(lp, p):
    lp.set_dead_loads([list(r) for r in p["g"]], *p["fg"])
    lp.set_live_loads([list(r) for r in p["q"]], *p["fq"])


def o_pattern(d, p):
    def go():
        ba = world.build(d)
        ba.npts = d["npts"]
        return world.snap_env(pattern_of(ba, p).analyze(), deep=False)

    return world.result(go)


def o_pickles(kind, d):
    """Whether a new object of this kind can be pickled at all."""
    def go():
        import pycba as cba
        if kind in ("nl", "nlres"):
            o = world.build_nl(d)
        elif kind == "il":
            o = world.build_il(d)
        else:
            o = world.build(d)
            if kind == "br":
                o = cba.BridgeAnalysis(o, cba.Vehicle([2.0], [50.0, 50.0]))
            elif kind == "lc":
                o = cba.LoadCases(o)
            elif kind == "pat":
                o = cba.LoadPattern(o)
            elif kind == "all":
                o = [o, cba.BridgeAnalysis(o, cba.Vehicle([2.0], [50.0, 50.0])),
                     cba.LoadCases(o), cba.LoadPattern(o)]
            elif kind in ("res", "env"):
                o.analyze()
                o = o.beam_results
        pickle.dumps(o)

    return world.result(go)


world.ORACLES["fresh-pattern"] = o_pattern
world.ORACLES["pickles"] = o_pickles


# ---------------------------------------------------------------- the scenario
@scenario
class C20(BridgeOps):
    id = "C20"
    stub = "process death: _exit of a forked process; the disk of saved states: a byte store"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.25 else SEAM_FAULTS + LINE_FAULTS
        crashes = rng.choice([0, 1, 1, 2])
        seamk = [k for k in kinds if not k.startswith("line")]
        streams, files = [], []
        for c in range(rng.choice([1, 1, 2])):
            led = BridgeLedger(rng, f"m{c}", c, **dict(bswarm(rng), max_spans=rng.choice([1, 2, 3])))
            live = [led.m]            # slots of this lineage, as far as is known here
            saved = []
            vals, vsaved = [], []
            nxt = [0]
            led.emit("lc", rows=[gen.load(rng, led.d)])
            pat = lambda: {"g": [[i + 1, 1, round(rng.uniform(1, 9), 2)]
                                 for i in range(len(led.d["L"]))],
                           "q": [[i + 1, 1, round(rng.uniform(1, 12), 2)]
                                 for i in range(len(led.d["L"]))],
                           "fg": [1.35, rng.choice([1.0, 0.9])], "fq": [1.5, 0.0]}
            p0 = pat()
            led.emit("pat", p=p0)

            def f(p=0.25, ks=None):
                ks = kinds if ks is None else [k for k in ks if k in kinds]
                return gen.pick_fault(rng, ks, p)

            def name(x):
                nxt[0] += 1
                return f"{x}{c}.{nxt[0]}"

            def val(kind):
                v = name("v")
                o = {"op": "val", "c": c, "v": v, "kind": kind, "m": rng.choice(live)}
                if kind == "nl":
                    n = nl_beam(rng)
                    n["mesh"] = round(sum(n["L"]) / 5, 3)
                    o["n"] = n
                elif kind == "il":
                    d = gen.beam(rng, max_spans=2, springs=0, settle=0, gav=0, kf=0,
                                 sections=0.2, segments=0.1, npts=False, loads=0)
                    o["d"] = d
                elif kind == "veh":
                    o["veh"] = gen.vehicle(rng)
                elif kind == "sec":
                    o["e"] = gen.section(rng, 10.0) if rng.random() < 0.6 else \
                        {"seg": [["const", [0.0, 10.0], 30000.0]]}
                elif kind == "tend":
                    from .scen_share import gen_profile
                    o["p"] = gen_profile(rng, 10.0) or {"kind": "Parabola", "kw": {
                        "e_left": 0.0, "e_mid": 0.3, "e_right": 0.1}}
                elif kind == "case":
                    o["rows"] = [gen.load(rng, led.d) for _ in range(2)]
                elif kind == "modal":
                    o["mass"] = rng.choice([300.0, 900.0])
                led.ops.append(o)
                vals.append((v, kind, o))
                return vals[-1]

            def via():
                return rng.choice(["ba", "ba", "br", "br", "lc", "pat", "all"])

            def burst(k):
                """Unstable and back again, so that every count of edits is met."""
                R0 = list(led.d["R"])
                for _ in range(k):
                    if led.restr("mechanism"):
                        led.analyze()
                    led.d["R"] = list(R0)
                    if rng.random() < 0.6:
                        led.emit("R", R=list(R0))

            led.analyze()
            N = rng.randint(9, 15) if tier == "quick" else rng.randint(14, 34)
            at = sorted(rng.sample(range(3, N), min(crashes, N - 3)))
            T = led.span_len()
            for step in range(N):
                if c == 0 and step in at:
                    # the process dies; the ops that follow belong to the next life
                    if rng.random() < 0.5:
                        led.m = rng.choice(live)
                        k = rng.choice(["analyze", "run", "csv", "save", "patrun", "lcask"])
                        kill = {"kind": "kill", "frac": round(rng.random(), 4)}
                        if k == "analyze":
                            led.emit("analyze", npts=rng.choice([None, 25]), check=True, fault=kill)
                        elif k == "run":
                            led.emit("run", **dict(led.run_args(0, tier), fault=kill))
                        elif k == "csv":
                            led.emit("csv", f=rng.choice("ab"), fault=kill)
                        elif k == "patrun":
                            led.emit("patrun", fault=kill)
                        elif k == "lcask":
                            led.emit("lcask", f=[1.2] * 6, fault=kill)
                        else:
                            s = rng.choice(saved) if saved and rng.random() < 0.5 else name("s")
                            saved.append(s)
                            led.emit("save", to=s, via=via(), proto=4, fault=kill)
                    else:
                        led.ops.append({"op": "crash", "c": c})
                    for s in saved[-2:]:
                        to = name("r")
                        led.ops.append({"op": "restore", "c": c, "to": to, "f": s})
                        live.append(to)
                    for v, kind, o in vsaved[-2:]:
                        to = name("w")
                        led.ops.append({"op": "restore", "c": c, "to": to, "f": v})
                        vals.append((to, kind, o))
                    led.m = rng.choice(live[-2:])
                    burst(rng.choice([0, 0, 2, 5, 8]))
                led.m = rng.choice(live[-3:])
                q = rng.random()
                if q < 0.07:
                    led.load()
                elif q < 0.12:
                    led.loads()
                elif q < 0.19:
                    led.restr()
                elif q < 0.22:
                    led.disp()
                elif q < 0.25:
                    LM = led.poison()
                    led.analyze()
                    led.undo(LM)
                elif q < 0.28:
                    R0 = list(led.d["R"])
                    if led.restr("mechanism"):
                        led.analyze()
                        if rng.random() < 0.5:   # a copy taken in this state
                            to = name("k")
                            led.emit("copy", to=to, via="ba", how=rng.choice(["deep", "p4"]))
                            live.append(to)
                        led.d["R"] = R0
                        led.emit("R", R=R0)
                elif q < 0.31:
                    led.newveh(0)
                elif q < 0.40:
                    led.analyze(fault=f(0.3), npts=rng.choice([None, None, 20, 40]))
                elif q < 0.48:
                    led.emit("run", **dict(led.run_args(0, tier), fault=f(0.3, SEAM_FAULTS)))
                elif q < 0.52:
                    r = rng.random()
                    if r < 0.5:
                        led.emit("lcset", rows=[gen.load(rng, led.d)], name=rng.choice("ab"))
                    else:
                        led.emit("lcask", f=[rng.choice([1.35, -0.5, 0.0]) for _ in range(6)],
                                 fault=f(0.2, seamk))
                elif q < 0.535:
                    led.emit("lcadd", row=gen.load(rng, led.d), k=rng.randrange(3))
                elif q < 0.57:
                    r = rng.random()
                    if r < 0.4:
                        led.emit("patset", p=pat())
                    else:
                        led.emit("patrun", fault=f(0.2, seamk))
                elif q < 0.72:
                    to = name("k")
                    led.emit("copy", to=to, via=via(),
                             how=rng.choice(["deep", "deep", "p2", "p4", "p5"]))
                    live.append(to)
                    # and at once something that would betray a shared part
                    led.m = rng.choice([to, led.m])
                    r = rng.random()
                    if r < 0.25:
                        led.load()
                    elif r < 0.45:
                        led.restr("mechanism" if rng.random() < 0.3 else "stable")
                    elif r < 0.6:
                        led.newveh(0)
                    if r < 0.8:
                        led.analyze(npts=rng.choice([None, 30]))
                elif q < 0.82:
                    s = rng.choice(saved) if saved and rng.random() < 0.3 else name("s")
                    saved.append(s)
                    led.emit("save", to=s, via=via(), proto=rng.choice([2, 4, 5]),
                             fault={"kind": "disk-full", "frac": round(rng.random(), 4)}
                             if kinds and rng.random() < 0.3 else None)
                elif q < 0.87 and saved:
                    to = name("r")
                    led.ops.append({"op": "restore", "c": c, "to": to, "f": rng.choice(saved)})
                    live.append(to)
                elif q < 0.89 and len(live) > 2:
                    led.ops.append({"op": "drop", "c": c, "m": live.pop(rng.randrange(1, len(live)))})
                elif q < 0.91:
                    led.emit("csv", f=rng.choice("ab"))
                    led.ops.append({"op": "readcsv", "c": c, "f": rng.choice("ab")})
                else:
                    if not vals or rng.random() < 0.5:
                        v, kind, o = val(rng.choice(["res", "env", "env", "il", "nl", "nl", "modal",
                                                     "veh", "sec", "tend", "case"]))
                    else:
                        v, kind, o = rng.choice(vals)
                    cls._use(rng, led, v, kind, o, c, f)
                    to = name("x")
                    if rng.random() < 0.6:
                        led.ops.append({"op": "vcopy", "c": c, "v": v, "to": to,
                                        "how": rng.choice(["deep", "p2", "p4", "p5"])})
                        vals.append((to, kind, o))
                    else:
                        s = name("s")
                        led.ops.append({"op": "vsave", "c": c, "v": v, "to": s, "proto": 4})
                        vsaved.append((s, kind, o))
                    for _ in range(rng.randint(0, 2)):
                        cls._use(rng, led, *rng.choice(vals[-3:]), c, f)
            for m in live[-3:]:
                led.m = m
                led.analyze()
                if rng.random() < 0.3:
                    led.emit("run", **dict(led.run_args(0, tier), fault=None))
            led.ops.append({"op": "readcsv", "c": c, "f": "a"})
            streams.append(led.ops)
        return {"ops": number(interleave(rng, streams)), "faults": kinds}

    @staticmethod
    def _use(rng, led, v, kind, o, c, f):
        """Something done to a value on its own."""
        e = {"op": "use", "c": c, "v": v, "kind": kind, "fault": None}
        if kind == "nl":
            e["a"] = nl_args(rng, o["n"], {})
            e["a"].pop("share", None)
            if e["a"]["kind"] == "static":
                e["a"]["lmax"], e["a"]["rec"] = 0.3, 3
            e["fault"] = f(0.2, ["num-memory", "alloc-memory"])
        elif kind == "il":
            T = sum(o["d"]["L"])
            e["step"] = round(T / rng.randint(3, 8), 4)
            e["poi"] = round(o["d"]["L"][0] * rng.uniform(0.1, 0.9), 4)
            e["eff"] = rng.choice("MV")
            e["create"] = rng.random() < 0.6
            e["fault"] = f(0.25, SEAM_FAULTS)
        elif kind == "env":
            e["how"] = rng.choice(["augment", "sum", "zero", "per_span"])
        elif kind == "veh":
            e["how"] = rng.choice(["reverse", "axw"])
            e["w"] = round(rng.uniform(20, 200), 1)
        elif kind == "sec":
            e["len"] = round(rng.uniform(1, 4), 2)
            e["ei"] = float(rng.randint(10000, 90000))
        elif kind == "tend":
            e["e"] = round(rng.uniform(-0.3, 0.3), 3)
        elif kind == "case":
            e["row"] = [1, 1, round(rng.uniform(1, 20), 2)]
        else:
            e["x"] = round(rng.uniform(0.1, 0.9), 3)
        led.ops.append(e)

    # ------------------------------------------------------- process lives
    def __init__(self, ctx):
        super().__init__(ctx)
        self.store = {}        # name -> {"bytes", "led"}: the only durable state
        self.csv = {}          # file -> the table a completed export must hold
        self.v = {}
        self.memo = {}

    def run(self):
        ops = list(self.ctx.spec["ops"])
        life = 0
        while ops:
            ops = self._life(ops, life)
            life += 1
            if self.ctx.violations:
                break
            if ops:
                self.ctx.log("crash", life)
                self.ctx.stat("probe:restart")
        self.ctx.iop = 10 ** 6

    def _life(self, ops, life):
        """Run operations in a process of their own until it dies; -> the rest."""
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                code = self._body(ops, w)
            except BaseException:
                import traceback
                self._send(w, {"harness": traceback.format_exc()})
            finally:
                os._exit(code)
        os.close(w)
        done, err, fatal = 0, None, None
        with os.fdopen(r, "rb") as f:
            while True:
                h = f.read(8)
                if len(h) < 8:
                    break
                m = pickle.loads(f.read(struct.unpack("<Q", h)[0]))
                if "harness" in m:
                    err = m["harness"]
                elif "raised" in m:
                    fatal = m["raised"]
                elif "unsure" in m:
                    self.csv.pop(m["unsure"], None)
                elif "killed" in m:
                    self.ctx.log("killed", m["i"], m["killed"])
                    self.ctx.sig.append("killed")
                    self.ctx.fault_fired("process-kill")
                    self.ctx.stat("probe:killed@" + m["killed"].split(":")[0])
                    done = m["next"]
                else:
                    self._merge(m)
                    done = m["next"]
        _, st = os.waitpid(pid, 0)
        if err:
            raise HarnessError(err)
        if fatal:
            self.ctx.iop = fatal[0]
            self.ctx.check(False, fatal[1], fatal[2])
            return []
        code = os.waitstatus_to_exitcode(st)
        if code == 0:
            return []
        if code != 77:
            self.ctx.check(False, "process-died", f"the process ended with status {code}")
            return []
        return ops[done:]

    def _merge(self, m):
        c = self.ctx
        for k in ("events", "violations", "queries", "sig"):
            getattr(c, k).extend(m[k])
        for k in ("stats", "faults"):
            d = getattr(c, k)
            for n, v in m[k].items():
                d[n] = d.get(n, 0) + v
        c.checks += m["checks"]
        self.store.update(m["store"])
        self.csv.update(m["csv"])

    @staticmethod
    def _send(w, m):
        data = pickle.dumps(m, protocol=4)
        data = struct.pack("<Q", len(data)) + data
        while data:
            n = os.write(w, data)
            data = data[n:]

    def _body(self, ops, w):
        import traceback
        from .engine import _blame
        c = self.ctx
        for j, op in enumerate(ops):
            c.iop = op.get("i", j)
            c.events, c.violations, c.queries, c.sig = [], [], [], []
            c.stats, c.faults, c.checks = {}, {}, 0
            self.new_store, self.new_csv = {}, {}
            if op["op"] == "crash":
                c.fault_fired("process-crash")
                self._send(w, self._delta(j + 1))
                return 77
            if op["op"] == "csv":
                self._send(w, {"unsure": op["f"]})
                self.csv.pop(op["f"], None)
            kill = op.get("fault") and op["fault"]["kind"] == "kill"
            try:
                if kill:
                    self._killed(op, w, j)
                    return 77
                getattr(self, "op_" + op["op"])(op)
                if not c.violations:
                    self.verify(op)
            except HarnessError:
                raise
            except BaseException as e:
                text = f"{type(e).__name__}: {e} [" + traceback.format_exc()[-600:] + "]"
                if _blame(e.__traceback__):
                    self._send(w, {"raised": (c.iop, "unexpected-exception", text)})
                elif isinstance(e, (TypeError, ValueError, AttributeError, LookupError,
                                    ArithmeticError)):
                    self._send(w, {"raised": (c.iop, "unreadable-object", text)})
                else:
                    raise
                return 0
            self.store.update(self.new_store)
            self.csv.update(self.new_csv)
            self._send(w, self._delta(j + 1))
            if c.violations:
                return 0
        return 0

    def _delta(self, nxt):
        c = self.ctx
        return {"next": nxt, "events": c.events, "violations": c.violations,
                "queries": c.queries, "sig": c.sig, "stats": c.stats, "faults": c.faults,
                "checks": c.checks, "store": self.new_store, "csv": self.new_csv}

    def _killed(self, op, w, j):
        """The process dies at some line of pycba while the operation runs."""
        bare = dict(op, fault=None)
        go = lambda: getattr(self, "op_" + bare["op"])(bare)

        def count():
            lf = LineFault(-1)
            with lf:
                outcome(go)
            sys.settrace(None)
            return lf.n

        n = _in_child(count)
        k = _Kill(int(op["fault"]["frac"] * n))

        def die(where):
            self._send(w, {"killed": where, "i": op.get("i", j), "next": j + 1})
            os._exit(77)

        k.die = die
        with k:
            outcome(go)
        sys.settrace(None)
        die("end:" + op["op"])

    # ------------------------------------------------------------------ verify
    def verify(self, op):
        c, what = self.ctx.check, op["op"]
        touched = {op.get("m"), op.get("v")} if what not in ("copy", "save", "vcopy", "vsave",
                                                            "csv", "val") else set()
        for group in (self.s, self.v):
            for m, s in group.items():
                now = show(s)
                if hasattr(s, "show") and m not in touched:
                    if not c(diff_exact(now, s.show), "not-independent",
                             f"object {m} was changed by '{what}' on "
                             f"{op.get('m', op.get('v'))}:"):
                        return
                if isinstance(s, Slot):
                    key = repr(s.d)
                    if key not in self.memo:
                        # apart, so that asking moves nothing process-wide here
                        self.memo[key] = _in_child(
                            lambda: world.result(lambda: world.want_definition(s.d)))[1]
                    if not c(diff_exact(now["ba"]["def"], self.memo[key]), "definition",
                             f"model {m} does not have its definition after '{what}':"):
                        return
                s.show = now

    # ------------------------------------------------------------- copying
    def members(self, s):
        out = {"ba": s.obj}
        if 0 in getattr(s, "br", {}):
            out["br"] = s.br[0]["o"]
        if getattr(s, "lc", None) is not None:
            out["lc"] = s.lc
        if getattr(s, "pat", None) is not None:
            out["pat"] = s.pat
        return out

    def pack(self, s, via):
        mem = self.members(s)
        if via == "all":
            return mem
        if via not in mem:
            via = "ba"
        return {via: mem[via]}

    def unpack(self, got, led):
        """A slot around what came out of a copy; the model is reached through it."""
        if "ba" in got:
            ba = got["ba"]
        elif "br" in got:
            ba = got["br"].ba
        elif "lc" in got:
            ba = got["lc"].beam_model
        else:
            ba = got["pat"].ba
        s = Slot(ba, copy.deepcopy(led["d"]))
        s.br, s.lc, s.pat = {}, None, None
        if "br" in got:
            s.br = {0: {"o": got["br"], "veh": copy.deepcopy(led["veh"])}}
        if "lc" in got:
            s.lc, s.cases = got["lc"], copy.deepcopy(led["cases"])
        if "pat" in got:
            s.pat, s.p = got["pat"], copy.deepcopy(led["p"])
        return s

    def ledger(self, s, got):
        led = {"d": s.d, "kinds": sorted(got)}
        if "br" in got:
            led["veh"] = s.br[0]["veh"]
        if "lc" in got:
            led["cases"] = s.cases
        if "pat" in got:
            led["p"] = s.p
        return copy.deepcopy(led)

    def duplicate(self, o, how):
        if how == "deep":
            return copy.deepcopy(o)
        return pickle.loads(pickle.dumps(o, protocol=int(how[1])))

    def refused(self, kind, d, out, how):
        if how != "deep":
            self.ctx.query("pickles", [kind, d], ["err", out[1]], "cannot-be-saved",
                           f"an object with this history cannot be pickled ({out[2]!r:.200}):",
                           mode="outcome")
        else:
            self.ctx.check(False, "cannot-be-copied", f"the copy failed: {out[1]} {out[2]!r:.200}")

    def same(self, s, t, kinds, how):
        a, b = show(s), show(t)
        a = {k: v for k, v in a.items() if k in b} if isinstance(a, dict) and \
            isinstance(s, Slot) else a
        self.ctx.stat("probe:copied-" + how)
        return self.ctx.check(diff_exact(b, a), "copy-differs",
                              f"a copy ({how}, {kinds}) does not show what the original shows:")

    def op_copy(self, op):
        s = self.slot(op)
        if s is None or op["to"] in self.s:
            return
        got = self.pack(s, op["via"])
        out, _ = self.ctx.call(op, lambda: self.duplicate(got, op["how"]))
        if out[0] != "ok":
            self.refused(op["via"], s.d, out, op["how"])
            return
        t = self.unpack(out[1], self.ledger(s, got))
        if self.same(s, t, sorted(got), op["how"]):
            self.s[op["to"]] = t

    def op_save(self, op):
        s = self.slot(op)
        if s is None:
            return
        got = self.pack(s, op["via"])
        led = self.ledger(s, got)
        self._save(op, got, led, show_slot(s), None, s.d)

    def _save(self, op, got, led, shown, kind, d):
        full = op.get("fault") and op["fault"]["kind"] == "disk-full"
        bare = dict(op, fault=None)

        def go():
            data = pickle.dumps(got, protocol=op["proto"])
            if full:
                f = io.BufferedWriter(_Full(int(op["fault"]["frac"] * len(data))))
                pickle.dump(got, f, protocol=op["proto"])
                f.flush()
            return data

        out, _ = self.ctx.call(bare, go)
        if full:
            self.ctx.fault_fired("disk-full")
            return        # nothing was saved; what was saved before is still there
        if out[0] != "ok":
            self.refused(kind or op.get("via"), d, out, "p4")
            return
        self.new_store[op["to"]] = {"bytes": out[1], "led": led, "kind": kind, "shown": shown}
        self.ctx.stat("probe:saved")

    def op_restore(self, op):
        e = self.store.get(op["f"])
        if e is None or op["to"] in self.s or op["to"] in self.v:
            return
        out, _ = self.ctx.call(op, lambda: pickle.loads(e["bytes"]))
        if not self.ctx.check(out[0] == "ok", "cannot-be-restored",
                              f"a saved state cannot be restored: {out[1]} {out[2]!r:.200}"):
            return
        if e["kind"] is None:
            t = self.unpack(out[1], e["led"])
            a = {k: v for k, v in e["shown"].items() if k in show(t)}
        else:
            t = Val(e["kind"], out[1], copy.deepcopy(e["led"]))
            a = e["shown"]
        if self.ctx.check(diff_exact(show(t), a), "restored-differs",
                          "what is restored is not what was saved:"):
            (self.s if e["kind"] is None else self.v)[op["to"]] = t
            self.ctx.stat("probe:restored")

    def op_drop(self, op):
        self.s.pop(op["m"], None)
        gc.collect()

    # ------------------------------------------------------------- using
    def _tell(self, s):
        """As documented: a bridge is told when the loads of its model are replaced."""
        b = getattr(s, "br", {}).get(0)
        if b is not None:
            b["o"].set_bridge(s.obj)

    def op_loads(self, op):
        super().op_loads(op)
        if self.slot(op) is not None:
            self._tell(self.slot(op))

    def made(self, s):
        s.br, s.lc, s.pat = {}, None, None

    def analyzed(self, s, op, out, fired, snap, d_try, before):
        if fired:
            return
        self.ask_static(d_try, op.get("check", True), [out[0], snap if out[0] == "ok" else out[1]],
                        "analysis", "the analysis of a copied or restored model differs from a "
                                    "new model's:")

    def after_run(self, s, b, op, out, fired, snap):
        if fired or self.ctx.violations or gen.stability(s.d) is None:
            return
        self.ask_positions(s, b, op, out, snap, "traverse",
                           "a traverse of a copied or restored bridge differs:")
        if snap is not None:
            check_envelope(self.ctx, snap)

    def op_lc(self, op):
        import pycba as cba
        s = self.slot(op)
        if s is None:
            return
        s.lc = cba.LoadCases(s.obj)
        s.lc.add("a", [list(r) for r in op["rows"]])
        s.cases = [["a", [list(r) for r in op["rows"]]]]

    def op_lcset(self, op):
        s = self.slot(op)
        if s is None or s.lc is None:
            return
        rows = [list(r) for r in op["rows"]]
        out, _ = self.ctx.call(op, lambda: s.lc.set(op["name"], [list(r) for r in rows]))
        if out[0] == "ok":
            for c in s.cases:
                if c[0] == op["name"]:
                    c[1] = rows
                    return
            s.cases.append([op["name"], rows])

    def op_lcadd(self, op):
        s = self.slot(op)
        if s is None or s.lc is None or not s.cases:
            return
        name, rows = s.cases[op["k"] % len(s.cases)]
        out, _ = self.ctx.call(op, lambda: s.lc.add_load(name, list(op["row"])))
        if out[0] == "ok":
            rows.append(list(op["row"]))
            self.ctx.check(diff_exact(show_slot(s)["lc"], [[n, r] for n, r in plain_cases(s)]),
                           "cases", "a copied or restored collection does not hold its cases:")

    def op_lcask(self, op):
        from .scen_collect import factor_row
        s = self.slot(op)
        if s is None or s.lc is None:
            return
        f = op["f"][:len(s.cases)]
        rows = [factor_row(r, k) for k, (_, rr) in zip(f, s.cases) for r in rr]
        out, fired = self.ctx.call(
            op, lambda: world.snap(s.lc.analyze_combination(f).beam_results))
        if not fired:
            self.ask_static(dict(s.d, LM=rows), True, [out[0], out[1]], "combination",
                            "a combination of a copied or restored collection differs:")

    def op_pat(self, op):
        s = self.slot(op)
        if s is None:
            return
        s.pat, s.p = pattern_of(s.obj, op["p"]), copy.deepcopy(op["p"])

    def op_patset(self, op):
        s = self.slot(op)
        if s is None or s.pat is None:
            return
        set_pattern(s.pat, op["p"])
        s.p = copy.deepcopy(op["p"])

    def op_patrun(self, op):
        s = self.slot(op)
        if s is None or s.pat is None:
            return
        out, fired = self.ctx.call(op, lambda: world.snap_env(s.pat.analyze(), deep=False))
        self._tell(s)
        d = copy.deepcopy(s.d)
        if out[0] == "ok":   # as documented, the last arrangement stays on the model
            s.d["LM"] = [list(r) for r in s.obj.beam.loads]
        if not fired:
            F = 1e-9 * max(gen.fscale({"LM": s.p["g"] + s.p["q"], "L": s.d["L"]}), 1.0)
            self.ctx.query("fresh-pattern", [d, s.p], [out[0], out[1]], "pattern",
                           "a pattern run of a copied or restored model differs:",
                           mode="outcome", floor={"*": 10 * F, "x": 1e-9})

    # ------------------------------------------------------- exported files
    def op_csv(self, op):
        s = self.slot(op)
        if s is None or s.obj.beam_results is None:
            return
        br = s.obj.beam_results
        out, _ = self.ctx.call(op, lambda: br.to_csv("out-" + op["f"] + ".csv"))
        if not op.get("fault"):
            self.ctx.check(out[0] == "ok", "export-refused",
                           f"an export onto a healthy disk failed: {out[1]} {out[2]!r:.200}")
        if out[0] == "ok":
            r = world.snap(br)
            self.new_csv[op["f"]] = {k: r[k] for k in ("x", "M", "V", "rot", "D")}

    def op_readcsv(self, op):
        want = self.csv.get(op["f"])
        if want is None:
            return
        import csv
        with open("out-" + op["f"] + ".csv", newline="") as f:
            rows = list(csv.reader(f))
        n = len(want["x"])
        cols = list(zip(*[[float(x) for x in r] for r in rows[-n:]]))
        ok = len(cols) >= 2 and any(np.array_equal(np.array(c), want["x"]) for c in cols) and \
            any(np.array_equal(np.array(c), want["M"]) for c in cols)
        self.ctx.check(ok, "exported-file-changed",
                       "a completed export no longer holds the results it was given")
        self.ctx.stat("probe:csv-read")

    # ------------------------------------------------------- values on their own
    def op_val(self, op):
        import pycba as cba
        k, s, o, led = op["kind"], self.slot(op), None, None
        if op["v"] in self.v:
            return
        if k == "nl":
            o, led = world.build_nl(op["n"]), op["n"]
        elif k == "il":
            o, led = world.build_il(op["d"]), {"d": op["d"], "set": None}
        elif k == "veh":
            o = cba.Vehicle(list(op["veh"]["axs"]), list(op["veh"]["axw"]))
        elif k == "sec":
            o, led = world.rigidity(op["e"]), op["e"]
        elif k == "tend":
            from .scen_share import profile
            o = profile(op["p"])
        elif k == "case":
            o = cba.LoadCase("c", [list(r) for r in op["rows"]])
        elif s is None:
            return
        elif k == "res":
            o = s.obj.beam_results
        elif k == "env":
            if s.obj.beam_results is not None:
                o = getattr(s, "env", None)
                if o is None:
                    o = cba.Envelopes([s.obj.beam_results])
        elif k == "modal":
            out, _ = self.ctx.call(op, lambda: s.obj.modal(op["mass"], n_modes=2))
            o = out[1] if out[0] == "ok" else None
        if o is not None:
            self.v[op["v"]] = Val(k, o, copy.deepcopy(led))
            self.ctx.stat("probe:value-" + k)

    def op_vcopy(self, op):
        v = self.v.get(op["v"])
        if v is None or op["to"] in self.v:
            return
        out, _ = self.ctx.call(op, lambda: self.duplicate(v.o, op["how"]))
        if out[0] != "ok":
            self.refused_value(v, out, op["how"])
            return
        t = Val(v.kind, out[1], copy.deepcopy(v.led))
        if self.same(v, t, v.kind, op["how"]):
            self.v[op["to"]] = t

    def refused_value(self, v, out, how):
        if v.kind in ("nl", "il"):
            self.refused(v.kind, v.led["d"] if v.kind == "il" else v.led, out, how)
        else:
            self.refused("ba", {"L": [1.0]}, out, how)

    def op_vsave(self, op):
        v = self.v.get(op["v"])
        if v is None:
            return
        d = v.led["d"] if v.kind == "il" else v.led
        self._save(op, v.o, copy.deepcopy(v.led), show(v), v.kind, d)

    def op_use(self, op):
        import pycba as cba
        v = self.v.get(op["v"])
        if v is None or v.kind != op["kind"]:
            return
        k, o = v.kind, v.o
        if k == "nl":
            out, fired = self.ctx.call(op, lambda: world.snap_nl(world.run_nl(o, op["a"])))
            if not fired:
                self.ctx.query("nl", [v.led, op["a"]], [out[0], out[1]], "nonlinear",
                               "the analysis of a copied or restored beam differs:",
                               mode="outcome", rtol=1e-9)
        elif k == "il":
            if v.led["set"] is None and not op["create"]:
                return

            def go():
                if op["create"]:
                    o.create_ils(op["step"])
                return o.get_il(op["poi"], op["eff"])

            out, fired = self.ctx.call(op, go)
            if out[0] == "ok":
                if op["create"]:
                    v.led["set"] = (v.led["d"], op["step"], 1.0)
                self.ctx.query("il", [[v.led["set"]], op["poi"], op["eff"], self.ctx.iop],
                               {"x": np.array(out[1][0], float), "eta": np.array(out[1][1], float)},
                               "influence-line", "the influence line of a copied or restored "
                                                 "object differs:", mode="il", rtol=1e-7)
        elif k == "env":
            other = [w.o for n, w in sorted(self.v.items()) if w.kind == "env" and w is not v and
                     w.o.npts == o.npts and w.o.nsup == o.nsup]
            e = other[0] if other else o
            a, b = take(o), take(e)
            if op["how"] == "zero":
                out, _ = self.ctx.call(op, lambda: cba.Envelopes.zero_like(o))
            elif op["how"] == "per_span":
                out, _ = self.ctx.call(op, lambda: o.per_span("Mmax"))
            else:
                out, _ = self.ctx.call(op, lambda: getattr(o, op["how"])(e))
                if out[0] == "ok":
                    now = take(o)
                    w = {"Mmax": np.maximum(a["Mmax"], b["Mmax"]),
                         "Mmin": np.minimum(a["Mmin"], b["Mmin"])} if op["how"] == "augment" \
                        else {"Mmax": a["Mmax"] + b["Mmax"], "Mmin": a["Mmin"] + b["Mmin"]}
                    self.ctx.check(diff_exact({x: now[x] for x in w}, w), "envelope",
                                   f"{op['how']} on a copied or restored envelope is wrong:")
        elif k == "veh":
            if op["how"] == "reverse":
                self.ctx.call(op, lambda: o.reverse())
            else:
                o.axw[0] = op["w"]
        elif k == "sec":
            at = float(o.length)
            seg = ["const", [at, at + op["len"]], op["ei"]]
            out, _ = self.ctx.call(op, lambda: o.add_segment(*seg))
            if self.ctx.check(out[0] == "ok", "section",
                              f"a segment that continues a section is refused: {out[2]!r:.200}"
                              if out[0] != "ok" else ""):
                v.led = {"seg": v.led["seg"] + [seg]}
                self.ctx.check(diff_exact(show(v), show_value("sec", world.rigidity(v.led))),
                               "section", "a copied or restored section that was extended is "
                                          "not the section of its segments:")
        elif k == "tend":
            if hasattr(o, "e_left"):
                o.e_left = op["e"]
        elif k == "case":
            self.ctx.call(op, lambda: o.add_load(list(op["row"])))
        elif k == "res":
            self.ctx.call(op, lambda: (o.at(op["x"]), o.to_dataframe(), o.deflection_curve()))
        elif k == "modal":
            self.ctx.call(op, lambda: o.mode_shape(0))
