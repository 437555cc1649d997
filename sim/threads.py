"""Deterministic scheduler of real threads.

Every simulated thread is a real Python thread, but only the holder of the baton
runs.  The baton can change hands only at a yield point: a source line (or, in
opcode mode, a bytecode instruction) executed inside pycba.  Which yield points
switch, and to which thread, is given by the spec, so one spec is one execution.
"""
from __future__ import annotations

import _thread
import sys
import threading

from . import core
from .core import HarnessError

_allocate = _thread.allocate_lock
ACTIVE = [None]


class ThreadFault:
    """A failure injected in one simulated thread only."""

    def __init__(self, kinds, at, exc):
        self.kinds, self.at, self.exc = kinds, at, exc
        self.count, self.fired = 0, False


class Deadlock(Exception):
    pass


class SimLock:
    """Stand-in for a lock created by pycba: waiting hands the baton on."""

    def __init__(self, reentrant):
        self.re, self.owner, self.n = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.re and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            s = ACTIVE[0]
            if s is None or not s.block():
                raise Deadlock("waiting for a lock nobody can release")
        self.owner = me
        self.n += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def install_lock_seam():
    """Locks created by pycba modules become SimLocks.  Before pycba is imported."""
    def seam(orig, reentrant):
        def make(*a, **k):
            if sys._getframe(1).f_globals.get("__name__", "").startswith("pycba"):
                return SimLock(reentrant)
            return orig(*a, **k)
        return make

    threading.Lock = seam(threading.Lock, False)
    threading.RLock = seam(threading.RLock, True)


class Thread:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.go = _allocate()
        self.go.acquire()
        self.done = False
        self.points = 0
        self.kill_at = -1
        self.kill_exc = None
        self.killed = False
        self.exc = None
        self.rel, self.rk, self.rnext = (), 0, -1

    def begin(self, rel):
        """A new operation starts: switches counted from its start."""
        self.rel = sorted((self.points + at, to) for at, to in rel)
        self.rk = 0
        self.rnext = self.rel[0][0] if self.rel else -1


class Scheduler:
    def __init__(self, fns, switches, opcodes=False):
        self.t = [Thread(i, f) for i, f in enumerate(fns)]
        self.sw = sorted(switches)
        self.k = 0
        self.n = 0                       # global yield points so far
        self.next = self.sw[0][0] if self.sw else -1
        self.cur = None
        self.opcodes = opcodes
        self.root = core.PYCBA_DIR[0]
        self.main = _allocate()
        self.main.acquire()
        self.taken = []                  # switches that happened
        self.where = {}
        self.blocked = 0

    # ------------------------------------------------------------- tracing
    def _glob(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(self.root):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._loc
        return None

    def _loc(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            me = self.cur
            me.points += 1
            self.blocked = 0
            if me.points == me.kill_at:
                me.killed = True
                raise me.kill_exc()
            n = self.n
            self.n = n + 1
            if n == self.next:
                self._switch(n, frame)
            elif me.points - 1 == me.rnext:
                to = me.rel[me.rk][1] % len(self.t)
                while me.rk < len(me.rel) and me.rel[me.rk][0] <= me.rnext:
                    me.rk += 1
                me.rnext = me.rel[me.rk][0] if me.rk < len(me.rel) else -1
                self._go(n, frame, to)
        return self._loc

    def _switch(self, n, frame):
        to = None
        while self.k < len(self.sw) and self.sw[self.k][0] <= n:
            to = self.sw[self.k][1] % len(self.t)
            self.k += 1
        self.next = self.sw[self.k][0] if self.k < len(self.sw) else -1
        if self.next >= 0 and self.next <= n:
            raise HarnessError("schedule out of order")
        self._go(n, frame, to)

    def _go(self, n, frame, to):
        me, nt = self.cur, self.t[to]
        if nt is me or nt.done:
            return
        self.taken.append((n, me.i, nt.i))
        c = frame.f_code
        w = c.co_filename[len(self.root) + 1:] + ":" + c.co_name
        self.where[w] = self.where.get(w, 0) + 1
        self._hand(me, nt)

    def _hand(self, me, nt):
        self.cur = nt
        nt.go.release()
        me.go.acquire()

    def block(self):
        """The current thread waits for a lock: run somebody else."""
        me = self.cur
        live = [t for t in self.t if not t.done and t is not me]
        self.blocked += 1
        if not live or self.blocked > 3 * len(self.t):
            return False
        nt = min(live, key=lambda t: (t.i - me.i) % len(self.t))
        self._hand(me, nt)
        return True

    # -------------------------------------------------------------- running
    def _body(self, t):
        t.go.acquire()
        sys.settrace(self._glob)
        try:
            t.fn(t)
        except BaseException as e:
            t.exc = e
        finally:
            sys.settrace(None)
            t.done = True
            live = [o for o in self.t if not o.done]
            if live:
                self.cur = live[0]
                live[0].go.release()
            else:
                self.main.release()

    def run(self):
        ths = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.t]
        for th in ths:
            th.start()
        ACTIVE[0] = self
        self.cur = self.t[0]
        self.t[0].go.release()
        self.main.acquire()
        ACTIVE[0] = None
        for t in self.t:
            if t.exc is not None:
                raise t.exc
