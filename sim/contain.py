"""Containment: the code under test may only create, replace or remove files
below the run's scratch directory.  An audit hook of the simulated process
refuses everything else, so that no change to pycba (one that moves a finished
file over its target, say) can reach the real filesystem from here."""
from __future__ import annotations

import errno
import os
import sys

WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
ONE = {"os.remove": 1, "os.rmdir": 1, "os.mkdir": 2, "os.truncate": None, "os.chmod": 2,
       "os.chown": 3, "os.utime": 3, "os.chflags": None, "os.removexattr": None,
       "os.setxattr": None, "shutil.rmtree": None, "shutil.chown": None, "os.mkfifo": None,
       "os.mknod": None}
TWO = {"os.rename": (2, 3), "os.link": (2, 3), "os.symlink": (None, 2)}
_on = [None]
BLOCKED = [0]


def _inside(path, root):
    if isinstance(path, int):
        return True
    path = os.fsdecode(path)
    if path in ("/dev/null", "/dev/tty"):
        return True
    # the directory entry itself is what is created, replaced or removed
    d, name = os.path.split(os.path.abspath(path))
    real = os.path.join(os.path.realpath(d), name)
    return real == root or real.startswith(root + os.sep)


def _refuse(event, path):
    BLOCKED[0] += 1
    raise PermissionError(errno.EACCES, f"contained: {event}", os.fsdecode(path))


def _hook(event, args):
    root = _on[0]
    if root is None:
        return
    if event == "open":
        path, _, flags = args
        if not isinstance(path, int) and path is not None and flags & WRITES and \
                not (_inside(path, root) and _inside(os.path.realpath(path), root)):
            _refuse(event, path)
    elif event in ONE:
        k = ONE[event]
        if k is not None and len(args) > k and args[k] not in (-1, None):
            return  # relative to an open directory that was reached from inside
        if not _inside(args[0], root):
            _refuse(event, args[0])
    elif event in TWO:
        for i in (0, 1):
            k = TWO[event][i]
            if event in ("os.symlink", "os.link") and i == 0:
                continue
            if k is not None and len(args) > k and args[k] not in (-1, None):
                continue
            if not _inside(args[i], root):
                _refuse(event, args[i])
    elif event == "os.kill" and args[0] in (0, 1, -1, os.getppid()):
        raise PermissionError(errno.EPERM, "contained: os.kill")


_hook.__cantrace__ = False


def enter(root):
    """From here on this process and its forks are contained in ``root``."""
    first = _on[0] is None
    _on[0] = os.path.realpath(root)
    if first:
        sys.addaudithook(_hook)
