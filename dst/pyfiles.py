"""The interpreter's own file calls below the directory of an hdfsim.Disk are events of that disk: kills, errors and short writes fall between and inside them.

A kill puts back what the operating system had at that moment, so data still in the interpreter's buffers is lost as in reality.
"""
import builtins
import io
import os

import _io

from . import core, hdfsim

_ORIG_OPEN = _io.open
NAMES = (("open", "os-open"), ("write", "os-write"), ("replace", "rename"), ("rename", "rename"), ("remove", "unlink"), ("unlink", "unlink"), ("truncate", "truncate"), ("ftruncate", "truncate"),
         ("link", "link"), ("symlink", "link"), ("mkdir", "mkdir"), ("rmdir", "rmdir"), ("posix_fallocate", "fallocate"))
_OS = {n: getattr(os, n) for n, _ in NAMES}


class _File:
    """Proxy of an open file whose reads and writes are events."""

    def __init__(self, f, path, writes):
        self.__dict__.update(_f=f, _p=path, _w=writes)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __setattr__(self, k, v):
        setattr(self._f, k, v)

    def _ev(self, what, rows=None, write=True):
        d = hdfsim.CURRENT[0]
        if d is not None and not d._busy_py:
            return d.event(what, self._p, rows=rows, write=write)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __next__(self):
        return next(self._f)

    def write(self, s):
        part = self._ev("write", rows=len(s))
        if part is not None:
            self._f.write(s[:part])
            self._f.flush()
            raise OSError(28, "No space left on device (injected)")
        return self._f.write(s)

    def writelines(self, it):
        for s in it:
            self.write(s)

    def read(self, *a):
        self._ev("read-file", write=False)
        return self._f.read(*a)

    def flush(self):
        if self._w:
            self._ev("flush")
        return self._f.flush()

    def close(self):
        if self._f.closed:
            return
        if self._w:
            try:
                self._ev("close-file")
            except core.SimCrash:
                raise
            except BaseException:
                try:
                    self._f.close()
                finally:
                    pass
                raise
        self._f.close()


def _path_of(fd):
    try:
        return os.readlink(f"/proc/self/fd/{fd}")
    except OSError:
        return ""


def _open(file, mode="r", *a, **k):
    d = hdfsim.CURRENT[0]
    if d is None or d._busy_py:
        return _ORIG_OPEN(file, mode, *a, **k)
    path = _path_of(file) if isinstance(file, int) else file
    if not d.inside(path):
        return _ORIG_OPEN(file, mode, *a, **k)
    w = any(c in mode for c in "wxa+")
    d.event("open-file" if w else "open-read", path, write=w)
    return _File(_ORIG_OPEN(file, mode, *a, **k), str(path), w)


def _wrap(name, what):
    orig = _OS[name]

    def fn(*a, **k):
        d = hdfsim.CURRENT[0]
        if d is None or d._busy_py:
            return orig(*a, **k)
        p = _path_of(a[0]) if isinstance(a[0], int) else a[0]
        if not d.inside(p):
            return orig(*a, **k)
        if name == "open" and not (len(a) > 1 and a[1] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
            return orig(*a, **k)
        if name == "mkdir" and os.path.isdir(p):
            return orig(*a, **k)
        part = d.event(what, p, rows=len(a[1]) if name == "write" else None)
        if part is not None:
            orig(a[0], a[1][:part])
            raise OSError(28, "No space left on device (injected)")
        return orig(*a, **k)
    fn.__name__ = name
    return fn


_done = [False]


def install():
    if _done[0]:
        return
    _done[0] = True
    builtins.open = io.open = _io.open = _open
    for n, w in NAMES:
        setattr(os, n, _wrap(n, w))
