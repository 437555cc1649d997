"""Fault engine, comparison and run context of the pycba simulator.

Everything a simulated run does is decided by its spec (a JSON object holding
the operation list with its faults), which is itself a pure function of one
integer seed.  Nothing here reads a clock or an unseeded random source.
"""
from __future__ import annotations

import copy
import hashlib
import os
import pickle
import signal
import struct
import sys
import threading

import numpy as np


class HarnessError(Exception):
    """The simulator itself is wrong (never reported as a violation)."""


class SimInterrupt(KeyboardInterrupt):
    """Asynchronous interrupt injected by the simulator."""


# --------------------------------------------------------------------------
# Seams.  Installed once, before pycba is imported; inert unless armed.
# --------------------------------------------------------------------------
class Seam:
    """Counts calls made by pycba code and raises at the armed one."""

    kinds = None  # set of seam kinds being watched, or None (inert)
    count = 0
    at = -1
    exc = None
    fired = False
    where = ""
    threads = {}  # thread ident -> ThreadFault (simulated threads only)

    @classmethod
    def thit(cls, kind, name):
        st = cls.threads.get(threading.get_ident())
        if st is None or kind not in st.kinds:
            return
        if not sys._getframe(2).f_globals.get("__name__", "").startswith("pycba"):
            return
        n = st.count
        st.count = n + 1
        if n == st.at:
            st.fired = True
            raise st.exc()

    @classmethod
    def arm(cls, kinds, at, exc):
        cls.kinds, cls.at, cls.exc = frozenset(kinds), at, exc
        cls.count, cls.fired, cls.where = 0, False, ""

    @classmethod
    def disarm(cls):
        cls.kinds = None
        cls.at, cls.exc = -1, None

    @classmethod
    def hit(cls, kind, name, depth=2):
        g = sys._getframe(depth).f_globals.get("__name__", "")
        if not g.startswith("pycba"):
            return
        n = cls.count
        cls.count = n + 1
        if n == cls.at:
            cls.fired = True
            cls.where = kind + ":" + name
            exc = cls.exc
            cls.kinds = None
            if exc is not None:
                raise exc()


def _wrap(owner, name, kind):
    import functools

    orig = getattr(owner, name, None)
    if orig is None or getattr(orig, "_sim_wrapped", False):
        return

    @functools.wraps(orig)
    def wrapper(*a, **k):
        ks = Seam.kinds
        if ks is not None and kind in ks:
            Seam.hit(kind, name)
        elif Seam.threads:
            Seam.thit(kind, name)
        return orig(*a, **k)

    wrapper._sim_wrapped = True
    try:
        setattr(owner, name, wrapper)
    except (AttributeError, TypeError):
        pass


NUMERIC = ("solve", "inv", "eigvalsh", "eigh", "eigvals", "eig", "det", "lstsq",
           "cond", "norm", "matrix_rank", "pinv", "svd", "cholesky", "qr")
ALLOC = ("zeros", "empty", "ones", "full", "array", "copy", "linspace", "arange",
         "concatenate", "vstack", "hstack", "column_stack", "zeros_like",
         "empty_like", "ones_like", "where", "maximum", "minimum", "append",
         "insert", "cumsum", "unique", "asarray", "atleast_1d", "interp", "array_equal", "allclose",
         "isclose", "sort")


def install_seams():
    import scipy.integrate
    import scipy.linalg

    for n in NUMERIC:
        _wrap(np.linalg, n, "numeric")
    for n in ("eigh", "eigvalsh", "solve", "expm", "eig", "lstsq", "inv", "solveh_banded",
              "cho_solve", "cho_factor", "lu_factor", "lu_solve"):
        _wrap(scipy.linalg, n, "numeric")
    for n in ("cumulative_trapezoid", "trapezoid", "quad", "solve_ivp", "simpson"):
        _wrap(scipy.integrate, n, "numeric")
    for n in ALLOC:
        if n in ("maximum", "minimum"):
            continue  # ufuncs: pycba uses them as objects in places
        _wrap(np, n, "alloc")


def install_id_seam():
    """The allocator behind id(): an object's identity passes to the next object of
    its type as soon as it is dropped -- which CPython may always do, and which real
    memory does only now and then -- so that results filed under an identity are met.
    """
    import sys
    import weakref

    alive, free, top = {}, {}, [(1 << 60) + 1]

    def sim_id(obj, real=id):
        k = real(obj)
        e = alive.get(k)
        if e is not None and e[0]() is obj:
            return e[1]
        pool = free.setdefault(type(obj), [])

        def gone(_ref, k=k, pool=pool):
            e = alive.get(k)
            if e is not None and e[0] is _ref:
                del alive[k]
                pool.append(e[1])

        try:
            ref = weakref.ref(obj, gone)
        except TypeError:       # lists, numbers, ...: the address itself
            return k
        if pool:
            n = pool.pop()
        else:
            n = top[0]
            top[0] += 16
        alive[k] = (ref, n)
        return n

    for name, mod in list(sys.modules.items()):
        if name == "pycba" or name.startswith("pycba."):
            if "id" not in vars(mod):
                mod.id = sim_id


def install_plot_seams():
    """After matplotlib/plotly import: drawing primitives called by pycba."""
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes
    from matplotlib.figure import Figure

    for n in ("subplots", "figure", "show", "pause", "close", "Polygon", "Circle"):
        if n in ("Polygon", "Circle"):
            continue
        _wrap(plt, n, "draw")
    for n in ("plot", "fill_between", "annotate", "text", "add_patch", "scatter", "grid",
              "set_xlabel", "set_ylabel", "set_title", "set_xlim", "set_ylim", "set_yticks",
              "legend", "invert_yaxis", "bar", "bar_label", "axhline", "axvline",
              "twinx", "set_aspect", "autoscale_view", "margins", "add_collection",
              "add_line", "hlines", "vlines", "step", "imshow", "pcolormesh", "cla",
              "set_xticks", "set_xticklabels", "set_yticklabels", "axis", "get_ylim"):
        _wrap(Axes, n, "draw")
    for n in ("savefig", "subfigures", "subplots", "add_subplot", "suptitle",
              "tight_layout"):
        _wrap(Figure, n, "draw")
    try:
        import plotly.graph_objects as go
        import plotly.subplots as ps

        for n in ("add_trace", "add_hline", "update_yaxes", "update_xaxes",
                  "update_layout", "add_annotation", "add_shape", "add_scatter"):
            _wrap(go.Figure, n, "draw")
        _wrap(ps, "make_subplots", "draw")
    except Exception:  # plotly is optional
        pass
    # plt.pause and plt.show: virtual clock, never a real wait
    orig_pause = plt.pause

    def pause(t, _o=orig_pause):
        if Seam.kinds is not None and "draw" in Seam.kinds:
            Seam.hit("draw", "pause")
        CLOCK[0] += float(t)

    def show(*a, **k):
        if Seam.kinds is not None and "draw" in Seam.kinds:
            Seam.hit("draw", "show")

    pause._sim_wrapped = show._sim_wrapped = True
    plt.pause, plt.show = pause, show


CLOCK = [0.0]  # simulated seconds (drawing pauses)


# ---------------------------------------------------------------- line faults
_FINAL = {}


def _final_lines(path):
    """Lines of `finally` blocks, and of the `try` and `with` statements they belong to."""
    got = _FINAL.get(path)
    if got is None:
        import ast
        got = set()
        try:
            with open(path, encoding="utf-8") as fh:
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError, ValueError):
            tree = ast.Module([], [])
        for q in ast.walk(tree):
            if isinstance(q, ast.Try) and q.finalbody:
                got.add(q.lineno)
                got.update(range(q.finalbody[0].lineno, q.finalbody[-1].end_lineno + 1))
            elif isinstance(q, ast.With):
                got.add(q.lineno)
        _FINAL[path] = got
    return got


def _putting_back(frame, root):
    """Whether this line runs inside a clean-up.

    An interrupt inside the putting-back itself cannot be survived by any Python code, so a
    line fault waits for the first line outside it.
    """
    while frame is not None:
        code = frame.f_code
        if code.co_filename.startswith(root):
            if code.co_name == "__exit__" or frame.f_lineno in _final_lines(code.co_filename):
                return True
        frame = frame.f_back
    return False


class LineFault:
    """sys.settrace based asynchronous interrupt at the k-th pycba line."""

    def __init__(self, at, exc=SimInterrupt, modules=None):
        self.at, self.exc, self.n, self.fired, self.where = at, exc, 0, False, ""
        self.root = PYCBA_DIR[0]

    def _glob(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(self.root):
            return self._loc
        return None

    def _loc(self, frame, event, arg):
        if event == "line":
            n = self.n
            self.n = n + 1
            if 0 <= self.at <= n and not _putting_back(frame, self.root):
                self.fired = True
                self.where = os.path.basename(frame.f_code.co_filename) + ":" + \
                    frame.f_code.co_name
                sys.settrace(None)
                raise self.exc()
        return self._loc

    def __enter__(self):
        sys.settrace(self._glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


PYCBA_DIR = ["/nonexistent"]

EXC = {
    "linalg": np.linalg.LinAlgError,
    "memory": MemoryError,
    "interrupt": SimInterrupt,
    "runtime": RuntimeError,
    "os": OSError,
}

# fault kind -> (seam kinds, exception)
FAULTS = {
    "linalg": (("numeric",), "linalg"),
    "num-memory": (("numeric",), "memory"),
    "num-interrupt": (("numeric",), "interrupt"),
    "alloc-memory": (("alloc",), "memory"),
    "alloc-interrupt": (("alloc",), "interrupt"),
    "draw-error": (("draw",), "runtime"),
    "draw-interrupt": (("draw",), "interrupt"),
    "draw-memory": (("draw",), "memory"),
    "line-interrupt": None,
    "line-memory": None,
}


def _in_child(fn):
    """Run fn in a forked copy of this process; return its picklable value."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            out = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(out)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0:
        raise HarnessError(f"forked step failed with status {st}")
    return pickle.loads(data)


def outcome(fn):
    """('ok', value) or ('err', exception class name, exception)."""
    try:
        return ("ok", fn(), None)
    except HarnessError:
        raise
    except BaseException as e:  # injected interrupts included
        return ("err", type(e).__name__, e)


# Operations whose last steps publish what they made.  An interrupt between two lines of one
# publication cannot be survived by any Python code, so line faults of these operations land
# before their last lines (and outside every clean-up, see _putting_back).
TAILED = {"run", "brun", "static", "anim", "create", "il", "get", "plot"}
TAIL = 60


def with_fault(fault, fn, tail=0):
    """Run fn under a fault {'kind','frac'}; returns (outcome, fired, where, n)."""
    kind = fault["kind"]
    if kind not in FAULTS:
        raise HarnessError(f"unknown fault {kind}")

    if FAULTS[kind] is None:
        exc = EXC["interrupt"] if kind.endswith("interrupt") else EXC["memory"]

        def count():
            lf = LineFault(-1)
            with lf:
                outcome(fn)
            sys.settrace(None)
            return lf.n

        n = _in_child(count)
        if n == 0:
            return outcome(fn), False, "", 0
        at = int(fault["frac"] * n)
        if tail:
            at = min(at, n - tail if n > 4 * tail else int(0.7 * n))
        lf = LineFault(at, exc)

        def run():
            with lf:
                return fn()

        out = outcome(run)
        sys.settrace(None)
        return out, lf.fired, lf.where, n

    kinds, exc = FAULTS[kind]

    def count():
        Seam.arm(kinds, -1, None)
        outcome(fn)
        return Seam.count

    n = _in_child(count)
    if n == 0:
        return outcome(fn), False, "", 0
    Seam.arm(kinds, int(fault["frac"] * n), EXC[exc])
    try:
        out = outcome(fn)
    finally:
        fired, where = Seam.fired, Seam.where
        Seam.disarm()
    return out, fired, where, n


# ---------------------------------------------------------------- comparing
def arr(v):
    return np.array(v, dtype=float, copy=True)


def digest(v):
    h = hashlib.sha256()

    def put(o):
        if isinstance(o, np.ndarray):
            h.update(str(o.shape).encode())
            h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                put(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b"[")
            for i in o:
                put(i)
            h.update(b"]")
        elif isinstance(o, float):
            h.update(struct.pack("d", o))
        else:
            h.update(repr(o).encode())

    put(v)
    return h.hexdigest()[:16]


def same(a, b):
    """Bit-for-bit equality of nested snapshots (NaN equals NaN)."""
    return diff_exact(a, b) is None


def spoil(o, depth=0):
    """A caller who overwrites, in place, what a call returned."""
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.dtype.kind in "fi":
            o[...] = o * 3 + 7
    elif isinstance(o, list):
        for i, v in enumerate(o):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                o[i] = v * 3 + 7
            else:
                spoil(v, depth + 1)
    elif isinstance(o, dict):
        for k in list(o):
            if isinstance(o[k], (int, float)) and not isinstance(o[k], bool):
                o[k] = o[k] * 3 + 7
            else:
                spoil(o[k], depth + 1)
    elif isinstance(o, tuple):
        for v in o:
            spoil(v, depth + 1)
    elif type(o).__module__.startswith("pycba") and depth < 4:
        if type(o).__name__ not in ("Beam", "BeamAnalysis", "SectionEI", "Vehicle", "LoadCases",
                                    "NonlinearBeamAnalysis"):
            for v in vars(o).values():
                spoil(v, depth + 1)


def diff_exact(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return f"{path}.{k} missing"
            d = diff_exact(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return f"{path} shape {a.shape} != {b.shape}"
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            eq = (a == b) | (np.isnan(a) & np.isnan(b))
        else:
            eq = a == b
        if np.all(eq):
            return None
        return f"{path} differs in {int(np.sum(~np.asarray(eq)))} of {a.size} values"
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path} length {len(a)} != {len(b)}"
        for i, (p, q) in enumerate(zip(a, b)):
            d = diff_exact(p, q, f"{path}[{i}]")
            if d:
                return d
        return None
    try:
        if a == b or (a != a and b != b):
            return None
    except Exception:
        pass
    return f"{path} {a!r} != {b!r}"


def diff_close(a, b, rtol=1e-7, floor=0.0, path=""):
    """Nested closeness: each array is compared on the scale of its own size."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return f"{path}.{k} missing"
            fl = floor.get(k, floor) if isinstance(floor, dict) else floor
            d = diff_close(a[k], b[k], rtol, fl, f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (
            any(isinstance(i, (dict, list, tuple, np.ndarray, str)) for i in a)):
        if len(a) != len(b):
            return f"{path} length {len(a)} != {len(b)}"
        for i, (p, q) in enumerate(zip(a, b)):
            d = diff_close(p, q, rtol, floor, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
        return None if a == b else f"{path} {a!r} != {b!r}"
    x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if x.shape != y.shape:
        return f"{path} shape {x.shape} != {y.shape}"
    if x.size == 0:
        return None
    fx, fy = np.isfinite(x), np.isfinite(y)
    if not np.array_equal(fx, fy):
        return f"{path} non-finite values differ"
    if not fx.any():
        return None
    x, y = x[fx], y[fx]
    fl = floor if not isinstance(floor, dict) else floor.get("*", 0.0)
    scale = max(float(np.max(np.abs(y))), float(np.max(np.abs(x))), 0.0)
    tol = rtol * scale + fl
    e = np.abs(x - y)
    if np.all(e <= tol):
        return None
    i = int(np.argmax(e))
    return f"{path} got {x.flat[i]!r}, expected {y.flat[i]!r} (tol {tol:.2g})"


# ---------------------------------------------------------------- run context
class Violation(Exception):
    pass


class Ctx:
    """Collects everything a run produces."""

    def __init__(self, spec):
        self.spec = spec
        self.events = []
        self.violations = []
        self.queries = []
        self.stats = {}
        self.faults = {}
        self.checks = 0
        self.iop = -1
        self.sig = []
        self.scratch = None

    def log(self, *parts):
        self.events.append("|".join(str(p) for p in parts))

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def fault_fired(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def check(self, ok, cls, msg):
        """ok may be a bool or a diff string/None."""
        self.checks += 1
        bad = (ok is not None) if not isinstance(ok, (bool, np.bool_)) else (not ok)
        if bad:
            detail = ok if isinstance(ok, str) else ""
            self.violations.append(
                {"op": self.iop, "class": cls, "message": f"{msg} {detail}".strip()})
            self.log("VIOLATION", self.iop, cls)
        return not bad

    def query(self, fn, args, observed, cls, msg, rtol=1e-7, floor=None, mode="close"):
        """Compare `observed` with oracle fn(args), evaluated in a pristine process."""
        self.queries.append({"fn": fn, "args": copy.deepcopy(args), "observed": observed, "op": self.iop,
                             "class": cls, "message": msg, "rtol": rtol,
                             "floor": floor if floor is not None else {}, "mode": mode})

    def call(self, op, fn):
        """Run an operation with its fault, logging the outcome."""
        f = op.get("fault")
        if f:
            out, fired, where, n = with_fault(f, fn, TAIL if op["op"] in TAILED else 0)
            if fired:
                self.fault_fired(f["kind"])
                self.stat("probe:fault@" + where.split(":")[0] + ":" + where.split(":")[-1])
            else:
                self.stat("fault-unfired")
        else:
            out, fired, where = outcome(fn), False, ""
        self.sig.append(f"{op.get('c', 0)}{op['op']}{'!' + f['kind'] if f and fired else ''}:{out[0]}")
        self.log("op", self.iop, op["op"], out[0] if out[0] == "ok" else out[1],
                 "F" if fired else "", where)
        return out, fired


def set_alarm(sec):
    signal.alarm(int(sec))


def preload():
    """Import and warm what pycba imports lazily, so that a run's first use of a
    library is not special (forked runs all start from this state)."""
    import importlib

    for m in ("pandas", "plotly.graph_objects", "plotly.subplots", "subprocess", "tempfile",
              "shutil", "matplotlib.backends.backend_pdf", "matplotlib.backends.backend_svg",
              "matplotlib.animation", "PIL.Image", "scipy.integrate", "scipy.linalg",
              "scipy.interpolate", "scipy.optimize"):
        try:
            importlib.import_module(m)
        except Exception:
            pass
    # a thread preempted inside an import would keep the interpreter's import lock
    import pkgutil
    import pycba

    for m in pkgutil.walk_packages(pycba.__path__, "pycba."):
        if not m.name.endswith("__main__"):
            try:
                importlib.import_module(m.name)
            except Exception:
                pass
    import matplotlib.pyplot as plt

    fig, ax = plt.subplots()
    ax.plot([0, 1], [0, 1], label="a")
    ax.set_title("warm")
    ax.legend()
    fig.canvas.draw()
    plt.close(fig)
