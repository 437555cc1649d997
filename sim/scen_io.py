"""Exports under disk and compiler faults: C12 C13."""
from __future__ import annotations

import copy
import gzip
import io
import os
import stat

import numpy as np

from . import disk, gen
from .base import LINE_FAULTS, ModelLedger, ModelOps, interleave, number, scenario
from .core import HarnessError, _in_child, diff_exact, digest, outcome

MEM = ["alloc-memory", "alloc-interrupt"]
ROOTED = ("disk-enospc", "disk-eio-write", "disk-eio-once", "disk-eio-close", "disk-eacces-open",
          "disk-eintr-write", "disk-short")
NAMED = ("str", "Path", "rel", "relPath", "dots")   # targets given as the name of a file
ENVCOLS = ["Mmax", "Mmin", "Vmax", "Vmin", "Vco_Mmax", "Vco_Mmin", "Mco_Vmax", "Mco_Vmin"]


class Broken(io.StringIO):
    """A user's stream that fails on its n-th write."""

    def __init__(self, n):
        super().__init__()
        self.n = n
        self.fired = False

    def write(self, s):
        self.n -= 1
        if self.n < 0:
            self.fired = True
            raise OSError(5, "stream failed")
        return super().write(s)


class IoOps(ModelOps):
    """Runs one export under its fault."""

    def path(self, name):
        return os.path.join(self.ctx.scratch, name)

    def given(self, p, how):
        """The same path as the user may spell it: absolute, relative, a Path, ..."""
        from pathlib import Path
        if how in ("rel", "relPath"):
            p = os.path.relpath(p, self.ctx.scratch)   # the working directory of the process
        elif how == "dots":
            d, b = os.path.split(p)
            p = os.path.join(d, "..", os.path.basename(d), ".", b)
        return Path(p) if how in ("Path", "relPath") else p

    def check_cwd(self):
        self.ctx.check(os.path.realpath(os.getcwd()) == os.path.realpath(self.ctx.scratch),
                       "process-changed", "an export left the process in another directory")

    def export(self, op, fn, size=None):
        """fn() under op's fault -> (outcome, fired)."""
        f = op.get("fault")
        ctx = self.ctx
        if f and f["kind"] in disk.KINDS:
            if size is None:
                raise HarnessError("no size for a disk fault")
            out, fired, where = disk.with_disk(f, ctx.scratch, size, fn)
            if fired:
                ctx.fault_fired(f["kind"])
                ctx.stat("probe:fault@disk:" + f["kind"])
            else:
                ctx.stat("fault-unfired")
            ctx.sig.append(f"{op.get('c', 0)}{op['op']}!{f['kind'] if fired else ''}:{out[0]}")
            ctx.log("op", ctx.iop, op["op"], out[0] if out[0] == "ok" else out[1],
                    "F" if fired else "", where)
            return out, fired
        return ctx.call(op, fn)


def read_csv(text, delim):
    """{column: values} by an independent reader; raises ValueError when malformed."""
    if not text.endswith("\n"):
        raise ValueError("the last line is not complete")
    lines = text.split("\n")[:-1]
    names = [s.strip() for s in lines[0].lstrip("# ").split(delim)]
    rows = [[float(v) for v in ln.split(delim)] for ln in lines[1:]]
    if any(len(r) != len(names) for r in rows):
        raise ValueError("a row has another number of values than the header")
    A = np.array(rows, float).reshape(len(rows), len(names))
    return {n: A[:, i] for i, n in enumerate(names)}


# =========================================================================== C12
@scenario
class C12(IoOps):
    id = "C12"
    stub = "disk: files are real, faults come from a simulated file layer and real resource limits"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.2 else rng.sample(sorted(disk.KINDS), rng.randint(2, 6))
        extra = MEM + (LINE_FAULTS if rng.random() < 0.3 else [])
        streams = []
        for c in range(rng.choice([1, 2, 2])):
            led = ModelLedger(rng, c, c, max_spans=rng.choice([1, 2, 3]),
                              sections=rng.choice([0, 0.3]), gav=rng.choice([0, 0.3]),
                              kf=rng.choice([0, 0.3]))
            led.analyze()
            files = [f"a{c}.csv", f"b{c}.csv", "shared.csv", f"deep{c}/x.csv"]
            for _ in range(rng.randint(6, 11) if tier == "quick" else rng.randint(8, 20)):
                q = rng.random()
                if q < 0.12:
                    led.load()
                    led.analyze(npts=rng.choice([None, 5, 20, 60]))
                elif q < 0.17:
                    led.loads()
                    led.analyze()
                elif q < 0.22:
                    led.analyze(fault={"kind": "num-memory", "frac": round(rng.random(), 3)})
                elif q < 0.32:
                    led.emit("env", n=rng.randrange(2), sets=[
                        [gen.load(rng, led.d)] for _ in range(rng.randint(1, 3))])
                else:
                    target = rng.choices(["str", "Path", "rel", "relPath", "dots", "gz", "handle",
                                          "stringio", "broken", "pipe", "nodir", "isdir",
                                          "bytes"],
                                         [8, 3, 4, 1, 1, 1, 3, 2, 2, 1, 2, 1, 1])[0]
                    what = rng.choice(["res", "ba", "ba", "env", "env"])
                    fault = gen.pick_fault(rng, kinds, 0.55) if kinds else None
                    if fault is None and kinds and rng.random() < 0.15:
                        fault = gen.pick_fault(rng, extra, 1.0)
                    e = led.emit("csv", what=what, target=target, file=rng.choice(files),
                                 n=rng.randrange(2), delim=rng.choice([",", ",", ",", ";", "\t"]),
                                 attrs=None if rng.random() < 0.5 else
                                 rng.sample(ENVCOLS, rng.randint(1, 5)),
                                 stale=rng.choice([None, None, "long", "short"]),
                                 nth=rng.randint(0, 30), fault=fault)
                    if fault and rng.random() < 0.75:
                        led.emit("csv", **dict({k: v for k, v in e.items()
                                                if k not in ("op", "c", "m")},
                                               fault=None, stale=None, target=e["target"]
                                               if e["target"] in NAMED else "str"))
            led.emit("csv", what="ba", target="str", file=files[0], n=0, delim=",", attrs=None,
                     stale=None, nth=0, fault=None)
            streams.append(led.ops)
        return {"ops": number(interleave(rng, streams)), "faults": kinds}

    def op_env(self, op):
        import pycba as cba
        s = self.slot(op)
        if s is None or any(r[0] > len(s.d["L"]) for LM in op["sets"] for r in LM):
            return
        from . import world

        def go():
            ba = world.build(dict(s.d, LM=[]))
            ba.npts = 11
            res = []
            for LM in op["sets"]:
                ba.set_loads([list(r) for r in LM])
                ba.analyze()
                res.append(ba.beam_results)
            return cba.Envelopes(res)

        out, _ = self.ctx.call(op, go)
        if out[0] == "ok":
            if not hasattr(s, "envs"):
                s.envs = {}
            s.envs[op["n"]] = (out[1], world.snap_env(out[1]))

    def op_csv(self, op):
        from . import world
        s = self.slot(op)
        if s is None or s.res is None:
            return
        kw = {} if op["delim"] == "," else {"delimiter": op["delim"]}
        if op["what"] == "env":
            e = getattr(s, "envs", {}).get(op["n"])
            if e is None:
                return
            attrs = op["attrs"] or ["Mmax", "Mmin", "Vmax", "Vmin"]
            if op["attrs"]:
                kw["attrs"] = tuple(op["attrs"])
            want = {"x": e[1]["x"], **{k: e[1][k] for k in attrs}}
            call = lambda t: e[0].to_csv(t, **kw)
        else:
            r = s.res
            want = {"x": r["x"], "M": r["M"], "V": r["V"], "R": r["rot"], "D": r["D"]}
            call = (lambda t: s.obj.beam_results.to_csv(t, **kw)) if op["what"] == "res" else \
                (lambda t: s.obj.to_csv(t, **kw))
        if kw.get("delimiter"):
            names = op["delim"].join(want)
            kw["header"] = names
        self._csv(s, op, call, want)
        # whatever happened, the numbers in memory are the same
        self.ctx.check(diff_exact(world.snap(s.obj.beam_results), s.res), "results-changed",
                       "an export changed the results in memory:")
        for e, snap in getattr(s, "envs", {}).values():
            self.ctx.check(diff_exact(world.snap_env(e), snap), "results-changed",
                           "an export changed an envelope in memory:")

    def _size(self, call):
        def go():
            p = os.path.join(self.ctx.scratch, "size.probe")
            out = outcome(lambda: call(p))
            return os.path.getsize(p) if out[0] == "ok" else 0
        return _in_child(go)

    def _csv(self, s, op, call, want):
        ctx, t = self.ctx, op["target"]
        f = op.get("fault")
        p = self.path(op["file"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        must_fail, handle, obj = False, None, p
        if t == "gz":
            p = obj = p + ".gz"
            if f and f["kind"] in disk.KINDS:
                f = None
        elif t in ("Path", "rel", "relPath", "dots"):
            obj = self.given(p, t)
        elif t == "bytes":
            handle = obj = open(p, "wb")
        elif t == "handle":
            handle = obj = open(p, "w")
        elif t == "stringio":
            obj = io.StringIO()
        elif t == "broken":
            obj = Broken(min(op["nth"], len(want["x"])))
            must_fail = True
        elif t == "pipe":
            rd, wr = os.pipe()
            os.close(rd)   # nobody reads: the kernel refuses every write
            handle = obj = os.fdopen(wr, "wb", buffering=0)
            must_fail = True
        elif t == "nodir":
            obj, must_fail = self.path("nowhere/x.csv"), True
        elif t == "isdir":
            os.makedirs(self.path("folder.csv"), exist_ok=True)
            obj, must_fail = self.path("folder.csv"), True
        if t not in NAMED and f and f["kind"] in disk.KINDS:
            f = None  # the stream is the caller's
        if op["stale"] and t in NAMED:
            with open(p, "w") as fh:
                fh.write("stale,remains\n" * (4000 if op["stale"] == "long" else 1))
        size = self._size(call) if f and f["kind"] in disk.KINDS else None
        out, fired = self.export(dict(op, fault=f), lambda: call(obj), size)
        if handle is not None:
            handle.close()
        self.check_cwd()
        if out[0] == "err":
            if t == "broken" or must_fail:
                ctx.stat("probe:reported")
                ctx.check(isinstance(out[2], OSError) or fired, "wrong-error",
                          f"the failing target was reported as {out[1]}: {out[2]}")
                return
            ctx.stat("probe:reported" if fired else "probe:refused")
            ctx.check(fired and not (f["kind"] in disk.SILENT), "export-refused",
                      f"export to a working target raised {out[1]}: {out[2]}")
            return
        if must_fail:
            ctx.check(False, "failure-not-reported",
                      f"export to a failing target ({t}) returned normally")
            return
        if t == "stringio":
            text = obj.getvalue()
        else:
            if not ctx.check(os.path.isfile(p), "incomplete-file",
                             "the export returned normally but there is no file"):
                return
            op_ = gzip.open if t == "gz" else io.open
            with op_(p, "rb") as fh:
                text = fh.read().decode("latin1")
        how = f" under {f['kind']}" if fired else ""
        try:
            got = read_csv(text, op["delim"])
        except ValueError as e:
            ctx.check(False, "incomplete-file",
                      f"the export returned normally{how} but the file is malformed: {e}")
            return
        ctx.check(diff_exact(got, want), "incomplete-file",
                  f"the export returned normally{how} but the file does not hold the results:")
        ctx.log("csv", digest(got))
        ctx.stat("probe:complete-after-fault" if fired else "probe:complete")


# =========================================================================== C13
FAKE = """#!/bin/sh
# stand-in for pdflatex: behaviour in the file 'mode', sheds a PDF naming the source it read
PATH=/usr/bin:/bin
for tex; do :; done
base="${tex%.tex}"
mode="$(cat "$(dirname "$0")/mode")"
sum="$(cksum < "$tex")"
printf 'This is a stand-in TeX\\n'
case "$mode" in
 ok) printf '%%PDF-1.5\\n%s\\n%%%%EOF\\n' "$sum" > "$base.pdf" ;;
 okbytes) printf '\\377\\376 overfull kip\\302\\n'; printf '%%PDF-1.5\\n%s\\n%%%%EOF\\n' "$sum" > "$base.pdf" ;;
 rc1) printf '! Undefined control sequence.\\n'; exit 1 ;;
 rc1bytes) printf '\\377\\302 ! error\\n'; exit 1 ;;
 rc1pdf) printf '%%PDF-1.5\\npartial' > "$base.pdf"; exit 1 ;;
 nopages) printf 'No pages of output.\\n' ;;
 killed) printf '%%PDF-1.5\\npart' > "$base.pdf"; kill -9 $$ ;;
 term) kill -15 $$ ;;
 noisy) i=0; while [ $i -lt 400 ]; do printf 'Underfull hbox %0200d\\n' $i; i=$((i+1)); done
   printf '%%PDF-1.5\\n%s\\n%%%%EOF\\n' "$sum" > "$base.pdf" ;;
esac
"""
MODES = ["ok", "okbytes", "rc1", "rc1bytes", "rc1pdf", "nopages", "killed", "term", "noisy",
         "absent", "badexec"]
GOOD = ("ok", "okbytes", "noisy")
DRAW = ["draw-error", "draw-interrupt", "draw-memory"]


def cksum(data):
    """POSIX cksum of data, as the stand-in compiler prints it."""
    crc = 0
    n = len(data)
    tail = b""
    while n:
        tail += bytes([n & 0xFF])
        n >>= 8
    for b in data + tail:
        crc = ((crc << 8) & 0xFFFFFFFF) ^ _CRC[(crc >> 24) ^ b]
    return f"{crc ^ 0xFFFFFFFF} {len(data)}"


def _crc_table():
    out = []
    for i in range(256):
        c = i << 24
        for _ in range(8):
            c = ((c << 1) ^ 0x04C11DB7) & 0xFFFFFFFF if c & 0x80000000 else (c << 1) & 0xFFFFFFFF
        out.append(c)
    return out


_CRC = _crc_table()


@scenario
class C13(IoOps):
    id = "C13"
    real = "pycba, matplotlib, Pillow, subprocess"
    stub = "pdflatex (a scripted stand-in); disk faults come from a simulated file layer and " \
           "real resource limits"

    @classmethod
    def gen(cls, rng, tier):
        kinds = [] if rng.random() < 0.2 else rng.sample(sorted(disk.KINDS), rng.randint(2, 6))
        streams = []
        enc = rng.choice([None, None, "cp1252", "latin-1", "ascii"])
        for c in range(rng.choice([1, 1, 2])):
            led = ModelLedger(rng, c, c, max_spans=rng.choice([1, 2, 3]), sections=0, gav=0,
                              kf=0, npts=False)
            led.analyze()
            stem = [f"d{c}", f"sub{c}/e", "shared"]
            for _ in range(rng.randint(4, 7) if tier == "quick" else rng.randint(6, 13)):
                q = rng.random()
                if q < 0.15:
                    led.load()
                elif q < 0.2:
                    led.loads()
                    led.analyze()
                elif q < 0.8:
                    mode = rng.choice(MODES) if kinds else rng.choice(GOOD)
                    comp = rng.random() < 0.55
                    # a .tex target of plot() means TikZ by inference
                    e = led.emit(
                        "tikz", file=rng.choice(stem), ext=rng.choice([".tex", ".tex", "", ".x"]),
                        compile=comp, mode=mode, via=rng.choice(["save", "save", "plot", "ba",
                                                                 "plotpdf" if comp else "plot"]),
                        loads=rng.choice([None, None, "rows"]), enc=enc,
                        units=rng.choice([None, None, "us", "n-mm", "none", "nonsense"]),
                        how=rng.choice(["abs", "abs", "rel", "Path", "relPath", "dots"]),
                        opts=rng.choice([{}, {}, {"labels": False}, {"scale": 2.0},
                                         {"dimensions": False, "load_values": False}]),
                        fault=gen.pick_fault(rng, kinds, 0.4) if kinds else None)
                    if kinds and rng.random() < 0.7:
                        r = {k: v for k, v in e.items() if k not in ("op", "c", "m")}
                        led.emit("tikz", **dict(r, fault=None, mode=rng.choice(GOOD),
                                                units=None if e["units"] == "nonsense" else
                                                e["units"]))
                else:
                    ext = rng.choice([".png", ".png", ".svg", ".pdf"])
                    e = led.emit("fig", file=rng.choice(stem), ext=ext,
                                 what=rng.choice(["beam", "ba"]),
                                 how=rng.choice(["abs", "abs", "rel", "Path", "relPath", "dots"]),
                                 fault=gen.pick_fault(rng, kinds + DRAW, 0.6) if kinds else None)
                    if kinds and rng.random() < 0.6:
                        r = {k: v for k, v in e.items() if k not in ("op", "c", "m")}
                        led.emit("fig", **dict(r, fault=None))
            led.emit("tikz", file=stem[0], ext=".tex", compile=True, mode="ok", via="save",
                     loads=None, enc=enc, units="us", opts={}, fault=None)
            streams.append(led.ops)
        return {"ops": number(interleave(rng, streams)), "faults": kinds}

    def __init__(self, ctx):
        super().__init__(ctx)
        self.bin = os.path.join(ctx.scratch, "bin")

    def _compiler(self, mode):
        os.makedirs(self.bin, exist_ok=True)
        exe = os.path.join(self.bin, "pdflatex")
        if os.path.exists(exe):
            os.unlink(exe)
        if mode != "absent":
            with io.open(exe, "w", encoding="utf-8") as f:
                f.write(FAKE if mode != "badexec" else "#!/nonexistent/interpreter\n")
            os.chmod(exe, 0o755)
            with io.open(os.path.join(self.bin, "mode"), "w", encoding="utf-8") as f:
                f.write(mode)

    def _state(self, s):
        from . import world
        return world.full_state(s.obj)

    def op_tikz(self, op):
        s = self.slot(op)
        if s is None:
            return
        ctx = self.ctx
        pre = self._state(s)
        f = op.get("fault")
        self._compiler(op["mode"])
        p = self.path(op["file"] + op["ext"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        opts = dict(op["opts"])
        if op["units"]:
            opts["units"] = op["units"]
        loads = None
        if op["loads"]:
            loads = [[1, 2, 12.5, round(0.3 * s.d["L"][0], 3)], [1, 1, 3.25]]
        comp, via = op["compile"], op["via"]
        if via == "plotpdf":
            p = self.path(op["file"] + ".pdf")
            comp = True
        q = self.given(p, op.get("how", "abs"))

        def go():
            if via == "save":
                return s.obj.beam.save_tikz(q, loads, compile=comp, **opts)
            if via == "plotpdf":
                return s.obj.beam.plot(loads, tikz=True, save=q, **opts)
            if via == "plot":
                return s.obj.beam.plot(loads, tikz=True, save=q, compile=comp, **opts)
            return s.obj.plot_beam(loads, tikz=True, save=q, compile=comp, **opts)

        old = os.environ["PATH"]
        os.environ["PATH"] = self.bin
        disk.Disk.encoding = op.get("enc")
        try:
            ref = outcome(lambda: s.obj.beam.to_tikz(loads, standalone=True, **opts))
            size = len(ref[1].encode()) if ref[0] == "ok" else 100
            if f and f["kind"] == "disk-fsize" and comp:
                f = None    # the limit would also hit the stand-in compiler
            if f and f["kind"] == "disk-emfile" and comp:
                f = dict(f, kind="disk-eacces-open")
            out, fired = self.export(dict(op, fault=f), go, size)
        finally:
            disk.Disk.encoding = None
            os.environ["PATH"] = old
        self.check_cwd()
        ctx.check(diff_exact(self._state(s), pre), "model-changed",
                  f"a drawing export (ended {out[0]}) changed the model:")
        good = op["mode"] in GOOD or not comp
        if out[0] == "err":
            ctx.stat("probe:reported")
            loud = fired and f["kind"] not in disk.SILENT
            ctx.check(loud or not good or ref[0] == "err", "export-refused",
                      f"a healthy export raised {out[1]}: {out[2]}")
            return
        ctx.check(ref[0] == "ok", "rejected-setting-accepted",
                  "the in-memory rendering is refused, the export is not")
        if ctx.violations:
            return
        got = os.fspath(out[1])
        tex = os.path.splitext(p)[0] + ".tex"
        how = f" under {f['kind']}" if fired else ""
        if not ctx.check(os.path.isfile(tex), "no-file", f"export returned{how} without a file"):
            return
        with io.open(tex, "rb") as fh:
            data = fh.read()
        ctx.check(data == ref[1].encode("utf-8"), "file-differs",
                  f"export returned{how}; the file is not the in-memory rendering "
                  f"({len(data)} of {size} bytes)")
        if comp:
            pdf = os.path.splitext(p)[0] + ".pdf"
            ctx.check(os.path.realpath(got) == os.path.realpath(pdf), "wrong-path",
                      f"the returned path {os.path.basename(got)} is not the PDF")
            ctx.check(op["mode"] in GOOD, "compiler-failure-not-reported",
                      f"the compiler ended '{op['mode']}' and the export returned normally")
            if ctx.violations or not ctx.check(os.path.isfile(pdf), "no-file", "there is no PDF"):
                return
            with io.open(pdf, "rb") as fh:
                body = fh.read()
            ctx.check(body == f"%PDF-1.5\n{cksum(data)}\n%%EOF\n".encode(), "file-differs",
                      "the PDF was not produced from the saved text")
            ctx.stat("probe:compiled")
        else:
            ctx.check(os.path.realpath(got) == os.path.realpath(tex), "wrong-path",
                      f"the returned path {os.path.basename(got)} is not the file written")
        ctx.log("tikz", digest(list(data)))
        ctx.stat("probe:saved")

    def op_fig(self, op):
        import matplotlib.pyplot as plt
        s = self.slot(op)
        if s is None:
            return
        ctx = self.ctx
        pre = self._state(s)
        p = self.path(op["file"] + op["ext"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.exists(p):
            os.unlink(p)
        f = op.get("fault")

        def go(q):
            if op["what"] == "beam":
                return s.obj.beam.plot(save=q)
            return s.obj.plot_beam(save=q)

        size = None
        if f and f["kind"] in disk.KINDS:
            def probe():
                q = self.path("probe" + op["ext"])
                o = outcome(lambda: go(q))
                return os.path.getsize(q) if o[0] == "ok" else 0
            size = _in_child(probe)
            if f["kind"] == "disk-emfile":
                f = dict(f, kind="disk-eacces-open")  # font files are opened lazily too
        out, fired = self.export(dict(op, fault=f), lambda: go(self.given(p, op.get("how", "abs"))),
                                 size)
        try:
            self.check_cwd()
            ctx.check(diff_exact(self._state(s), pre), "model-changed",
                      f"a figure export (ended {out[0]}) changed the model:")
            if out[0] == "err":
                ctx.stat("probe:reported")
                ctx.check(fired and f["kind"] not in disk.SILENT, "export-refused",
                          f"a healthy export raised {out[1]}: {out[2]}")
                return
            how = f" under {f['kind']}" if fired else ""
            if not ctx.check(os.path.isfile(p), "no-file",
                             f"figure export returned{how} without a file"):
                return
            with io.open(p, "rb") as fh:
                data = fh.read()
            ctx.check(self._whole(op["ext"], data, out[1]), "file-differs",
                      f"figure export returned{how} with an incomplete file:")
            ctx.stat("probe:figure")
        finally:
            plt.close("all")

    def _whole(self, ext, data, ax):
        if ext == ".svg":
            import xml.dom.minidom
            try:
                xml.dom.minidom.parseString(data)
            except Exception as e:
                return f" {e}"
            return None
        if ext == ".pdf":
            return None if data.startswith(b"%PDF") and data.rstrip().endswith(b"%%EOF") \
                else " truncated PDF"
        from PIL import Image
        try:
            a = np.asarray(Image.open(io.BytesIO(data)).convert("RGBA"))
        except Exception as e:
            return f" {e}"
        buf = io.BytesIO()
        ax.figure.savefig(buf, bbox_inches="tight")
        b = np.asarray(Image.open(io.BytesIO(buf.getvalue())).convert("RGBA"))
        return None if a.shape == b.shape and np.array_equal(a, b) else " other pixels"
