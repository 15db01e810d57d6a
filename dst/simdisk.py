"""A disk for whole small files: the real file calls run in a scratch directory, every one of them is an event at which the run can
inject an error, a short write, a process kill or a power loss.  Works on the interpreter's own file API (open/io.open/_io.open, os.*),
so code may use open(), pathlib, tempfile or raw descriptors.
"""
import builtins
import errno
import io
import os

import _io

from . import core

_ORIG_OPEN = _io.open
_OS = {n: getattr(os, n) for n in ("open", "write", "fsync", "fdatasync", "replace", "rename", "remove", "unlink", "close", "ftruncate", "truncate", "link", "symlink", "mkdir", "rmdir")}
CURRENT = [None]
ERR = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES}


class _Raw:
    """Proxy of a file object whose effects on the disk are events of the run."""

    def __init__(self, f, disk, path):
        self.__dict__.update(_f=f, _d=disk, _p=path, _pending=False)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def write(self, s):
        d = self._d
        part = d.event("write", self._p, size=len(s))
        if part is not None:                      # short write, then the error
            self._f.write(s[:part[0]])
            self._f.flush()
            d.snap()
            raise part[1]
        n = self._f.write(s)
        if d.through:                             # the buffer may reach the disk at any moment: make it reach it now
            self._f.flush()
            d.snap()
        return n

    def writelines(self, it):
        for s in it:
            self.write(s)

    def flush(self):
        self._d.event("flush", self._p)
        self._f.flush()
        self._d.snap()

    def truncate(self, *a):
        self._d.event("truncate", self._p)
        r = self._f.truncate(*a)
        self._d.snap()
        return r

    def close(self):
        if self._f.closed:
            return
        try:
            self._d.event("close", self._p)
        except OSError:
            self._d.abandon(self._f)              # buffered data that could not be written is lost
            raise
        self._f.close()
        self._d.snap()


class Disk:
    """plan: dict(at=event number, kind=...) or None.  kinds: enospc/eio/eacces (error), short (part of a write, then ENOSPC),
    kill (process dies: what the calls have put on the disk stays), power (machine dies: unsynced data and recent renames may be lost)."""

    def __init__(self, run, root, plan, through=True):
        self.run, self.root, self.plan, self.through = run, os.path.realpath(root), plan, through
        self.n = 0
        self.hist = []                            # [(names -> inode, inode -> content)]
        self.synced = {}                          # inode -> index into hist
        self.crashed = None
        self.fired = False
        self.keep = []                            # open descriptors so that inode numbers are not reused
        self.snap()

    def inside(self, p):
        try:
            return os.path.realpath(os.fspath(p)).startswith(self.root + os.sep)
        except TypeError:
            return False

    def tree(self):
        names, data = {}, {}
        for r, _, fs in os.walk(self.root):
            for f in sorted(fs):
                p = os.path.join(r, f)
                st = os.stat(p)
                names[os.path.relpath(p, self.root)] = st.st_ino
                fd = _OS["open"](p, os.O_RDONLY)
                try:
                    data[st.st_ino] = os.read(fd, 1 << 24)
                finally:
                    _OS["close"](fd)
        return names, data

    def snap(self):
        t = self.tree()
        if not self.hist or self.hist[-1] != t:
            for p, ino in t[0].items():
                if all(ino not in h[1] for h in self.hist):
                    self.keep.append(_OS["open"](os.path.join(self.root, p), os.O_RDONLY))
            self.hist.append(t)

    def done(self):
        for fd in self.keep:
            _OS["close"](fd)
        self.keep = []

    def abandon(self, f):
        """Close without letting buffered data reach the file."""
        try:
            raw = getattr(f, "buffer", f)
            raw = getattr(raw, "raw", raw)
            fd = os.dup(raw.fileno())
            null = _OS["open"]("/dev/null", os.O_WRONLY)
            os.dup2(null, raw.fileno())
            _OS["close"](null)
            f.close()
            _OS["close"](fd)
        except (OSError, ValueError):
            pass

    def event(self, what, path, size=None, ino=None):
        """Before the call takes effect."""
        if self.crashed is not None:
            raise core.SimCrash("dead")
        i, self.n = self.n, self.n + 1
        self.run.log("io", what, os.path.basename(str(path)))
        pl = self.plan
        if pl is None or self.fired or i != pl["at"]:
            return None
        k = pl["kind"]
        if k in ("kill", "power"):
            self.fired = True
            self.run.fault(f"{k}@{what}")
            self.crashed = k
            raise core.SimCrash(k)
        if k == "short":
            if size is None or size < 2:
                k = "enospc"
            else:
                self.fired = True
                self.run.fault("short-write")
                return self.run.choose(size, "short"), OSError(errno.ENOSPC, "No space left on device (injected)")
        if k == "eacces" and what not in ("open", "replace", "remove"):
            k = "eio"
        self.fired = True
        self.run.fault(f"{k}@{what}")
        raise OSError(ERR[k], os.strerror(ERR[k]) + " (injected)")

    # -- what is on the disk after the crash ----------------------------------
    def restore(self):
        """Put the directory into the state the crash left (decided by the run)."""
        run = self.run
        if self.crashed == "kill":
            # everything the completed calls wrote; Python-level buffers are gone
            names, data = self.hist[-1]
        else:
            lo = 0
            names = self.hist[lo + run.choose(len(self.hist) - lo, "names")][0]
            data = {}
            for ino in set(names.values()):
                vers, last = [], None
                for j, (_, dj) in enumerate(self.hist):
                    if ino in dj and dj[ino] != last:
                        vers.append((j, dj[ino]))
                        last = dj[ino]
                base = self.synced.get(ino, 0)
                ok = [v for j, v in vers if j >= base]
                before = [v for j, v in vers if j <= base]
                ok = ([before[-1]] if before else [b""]) + [v for v in ok if not before or v != before[-1]]
                c = ok[run.choose(len(ok), "data")]
                data[ino] = c
                if ok.index(c) > 0 and run.flip(1, 3):               # torn: only a prefix of the new bytes made it
                    data[ino] = c[:run.choose(len(c) + 1, "torn")]
                    run.fault("torn-write")
        for r, _, fs in os.walk(self.root):
            for f in fs:
                _OS["remove"](os.path.join(r, f))
        for n, ino in sorted(names.items()):
            p = os.path.join(self.root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with _ORIG_OPEN(p, "wb") as f:
                f.write(data[ino])

    # -- installing -------------------------------------------------------------
    def __enter__(self):
        CURRENT[0] = self
        return self

    def __exit__(self, *a):
        CURRENT[0] = None
        self.done()


def _path_of(fd):
    try:
        return os.readlink(f"/proc/self/fd/{fd}")
    except OSError:
        return ""


def _open(file, mode="r", *a, **k):
    d = CURRENT[0]
    if d is None:
        return _ORIG_OPEN(file, mode, *a, **k)
    path = _path_of(file) if isinstance(file, int) else file
    if not d.inside(path):
        return _ORIG_OPEN(file, mode, *a, **k)
    if not any(c in mode for c in "wxa+"):
        d.event("open-read", path)
        return _ORIG_OPEN(file, mode, *a, **k)
    if not isinstance(file, int):
        d.event("open", path)
    f = _Raw(_ORIG_OPEN(file, mode, *a, **k), d, str(path))
    d.snap()
    return f


def _wrap(name, what):
    orig = _OS[name]

    def fn(*a, **k):
        d = CURRENT[0]
        if d is None:
            return orig(*a, **k)
        p = _path_of(a[0]) if isinstance(a[0], int) else a[0]
        if not d.inside(p):
            return orig(*a, **k)
        if name == "open" and not (len(a) > 1 and a[1] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
            return orig(*a, **k)
        if name == "close":
            r = orig(*a, **k)
            d.snap()
            return r
        if name == "write":
            part = d.event("write", p, size=len(a[1]))
            if part is not None:
                orig(a[0], a[1][:part[0]])
                d.snap()
                raise part[1]
        else:
            d.event(what, p)
        ino = os.fstat(a[0]).st_ino if what == "fsync" else None
        r = orig(*a, **k)
        d.snap()
        if ino is not None:
            d.synced[ino] = len(d.hist) - 1
        return r
    fn.__name__ = name
    return fn


def install():
    builtins.open = io.open = _io.open = _open
    for n, w in (("open", "open"), ("write", "write"), ("fsync", "fsync"), ("fdatasync", "fsync"), ("replace", "replace"), ("rename", "replace"), ("remove", "remove"), ("unlink", "remove"),
                 ("close", "close"), ("ftruncate", "truncate"), ("truncate", "truncate"), ("link", "link"), ("symlink", "link")):
        setattr(os, n, _wrap(n, w))
