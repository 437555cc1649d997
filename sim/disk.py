"""Simulated disk: faults of files opened for writing inside the run's scratch
directory, decided by the plan that is armed.  Inert unless armed."""
from __future__ import annotations

import builtins
import errno
import io
import os
import resource

from .core import SimInterrupt

_real_open = io.open

KINDS = {
    "disk-enospc": errno.ENOSPC,     # the n-th byte does not fit
    "disk-eio-write": errno.EIO,     # a write fails
    "disk-eio-once": errno.EIO,      # one write fails, later ones succeed
    "disk-eio-close": errno.EIO,     # the close reports a deferred error
    "disk-eacces-open": errno.EACCES,
    "disk-sync-rename": errno.EIO,   # flushing to, or renaming on, the disk fails
    "disk-eintr-write": None,        # interrupted by the user inside a write
    "disk-short": None,              # legal short writes: must be completed
    "disk-fsize": errno.EFBIG,       # real resource limit of the process
    "disk-emfile": errno.EMFILE,     # real resource limit of the process
}
SILENT = ("disk-short",)             # the caller need not notice


class Disk:
    kind = None      # armed fault kind
    at = 0           # bytes that still fit / opens before the fault
    fired = False
    root = None
    written = 0
    opens = 0
    encoding = None  # simulated locale encoding

    @classmethod
    def arm(cls, kind, at, root):
        cls.kind, cls.at, cls.root = kind, at, root
        cls.fired, cls.written, cls.opens = False, 0, 0

    @classmethod
    def disarm(cls):
        cls.kind = None


class SimRaw(io.FileIO):
    def write(self, b):
        k = Disk.kind
        n = len(b) if isinstance(b, (bytes, bytearray)) else memoryview(b).nbytes
        if k is None:
            return super().write(b)
        if k == "disk-short" and n > 1:
            Disk.fired = True
            n = max(1, n // 2)
            return super().write(memoryview(b).cast("B")[:n])
        if k in ("disk-enospc", "disk-eio-write", "disk-eio-once", "disk-eintr-write") and \
                Disk.written + n > Disk.at and not (k == "disk-eio-once" and Disk.fired):
            Disk.fired = True
            if k == "disk-eintr-write":
                raise SimInterrupt()
            fit = Disk.at - Disk.written
            if k == "disk-enospc" and fit > 0:
                m = super().write(memoryview(b).cast("B")[:fit])
                Disk.written += m
                return m
            raise OSError(KINDS[k], os.strerror(KINDS[k]))
        m = super().write(b)
        Disk.written += m or 0
        return m

    def close(self):
        if self.closed:
            return
        wr = self.writable()
        super().close()
        if Disk.kind == "disk-eio-close" and wr and not Disk.fired and \
                Disk.opens >= Disk.at:
            Disk.fired = True
            raise OSError(errno.EIO, "Input/output error (close)")


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    m = str(mode)
    if Disk.encoding and "b" not in m and encoding in (None, "locale"):
        encoding = Disk.encoding
    if Disk.kind is None or not any(c in m for c in "wax+"):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.path.realpath(f"/proc/self/fd/{file}" if isinstance(file, int) else os.fspath(file))
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path.startswith(Disk.root + os.sep):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    Disk.opens += 1
    if Disk.kind == "disk-eacces-open" and Disk.opens > Disk.at:
        Disk.fired = True
        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), str(file))
    raw = SimRaw(file, "".join(c for c in m if c in "rwax+"), closefd, opener)
    binary = "b" in m
    if binary and buffering == 0:
        return raw
    size = 1024 if Disk.kind != "disk-eio-close" else 8192
    buf = io.BufferedRandom(raw, size) if "+" in m else io.BufferedWriter(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
    t.mode = mode
    return t


def _rooted(p):
    p = os.path.realpath(f"/proc/self/fd/{p}" if isinstance(p, int) else os.fspath(p))
    return (os.fsdecode(p) if isinstance(p, bytes) else p).startswith(Disk.root + os.sep)


def _gate(real):
    """Calls that make a finished file durable or visible, and may fail."""
    def call(first, *a, **k):
        if Disk.kind == "disk-sync-rename" and _rooted(first):
            Disk.fired = True
            raise OSError(errno.EIO, os.strerror(errno.EIO))
        return real(first, *a, **k)
    return call


def install():
    import numpy.lib._datasource as ds

    for name in ("rename", "replace", "link", "fsync", "fdatasync"):
        setattr(os, name, _gate(getattr(os, name)))
    builtins.open = sim_open
    io.open = sim_open
    ds._file_openers._load()
    ds._file_openers._file_openers[None] = sim_open
    try:
        import pathlib
        if hasattr(pathlib, "io"):
            pathlib.io.open = sim_open
    except Exception:
        pass


def lowest_free_fd():
    fd = os.open("/dev/null", os.O_RDONLY)
    os.close(fd)
    return fd


class limits:
    """Real resource limits around a call (disk-fsize, disk-emfile)."""

    def __init__(self, kind, at):
        self.kind, self.at = kind, at

    def __enter__(self):
        self.what = resource.RLIMIT_FSIZE if self.kind == "disk-fsize" else \
            resource.RLIMIT_NOFILE
        self.old = resource.getrlimit(self.what)
        val = self.at if self.kind == "disk-fsize" else lowest_free_fd()
        resource.setrlimit(self.what, (val, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(self.what, self.old)
        return False


def with_disk(fault, root, size, fn):
    """fn() under one disk fault -> (outcome, fired, where).

    ``size`` is the number of bytes the undisturbed call writes."""
    from .core import outcome

    k = fault["kind"]
    root = os.path.realpath(root)
    if k in ("disk-fsize", "disk-emfile"):
        with limits(k, int(fault["frac"] * max(size - 1, 0))):
            out = outcome(fn)
        fired = out[0] == "err" and isinstance(out[2], OSError) or \
            (k == "disk-fsize" and size > 0) or k == "disk-emfile"
        return out, fired, k
    if k == "disk-eio-close" or k == "disk-eacces-open":
        at = 0 if fault["frac"] < 0.4 else 1   # which of the opened files
        at += k == "disk-eio-close"
    else:
        at = int(fault["frac"] * max(size - 1, 0))
    Disk.arm(k, at, root)
    try:
        out = outcome(fn)
    finally:
        fired = Disk.fired
        Disk.disarm()
    return out, fired, k
