"""HDF5 files under simulated faults: PyTables operations on files below one directory are events of the run.

At an event the run can raise an I/O error, a full disk (persisting for the rest of the operation), a failing allocation, a user interrupt, write only
part of the rows, or kill the process: the files are then put back to the bytes the operating system had at that moment.
"""
import errno
import os
import shutil

import numpy as np
import tables

from . import core, fresh, procsim

CURRENT = [None]
_os_open, _os_close, _os_remove, _os_write, _os_ftruncate = os.open, os.close, os.remove, os.write, os.ftruncate
_real_open = tables.open_file
KINDS_ERR = ("eio", "enospc", "memory", "h5err", "interrupt", "short")


class Disk:
    """plan: None or dict(at=event index, kind=...).  `only`: None or names of events that count."""

    def __init__(self, run, root):
        self.run, self.root = run, os.path.realpath(root)
        self.n = 0
        self.plan = None
        self.base = 0
        self.fired = False
        self.full = False
        self.dead = False
        self.image = None
        self.handles = []
        self.readonly_faults = False
        self.count_reads = True
        self.bad = ()                    # names of groups whose rows cannot be read (persisting)
        self.fired_at = None
        self.fired_in = None             # name of the worker the fault hit, None: the program itself

    # -- control ---------------------------------------------------------------
    def arm(self, plan):
        self.plan, self.base, self.fired, self.full = plan, self.n, False, False
        self.changes = 0

    _busy_py = False

    def disarm(self):
        self.plan, self.full = None, False

    def events(self):
        return self.n - self.base

    def inside(self, p):
        try:
            return os.path.realpath(os.fspath(p)).startswith(self.root + os.sep)
        except TypeError:
            return False

    # -- events ----------------------------------------------------------------
    def event(self, what, path, rows=None, write=True):
        """Returns None, or for a short write the number of rows that are still written before the error."""
        if self.dead:
            raise core.SimCrash("dead")
        procsim.point(what)
        if self.dead:
            raise core.SimCrash("dead")
        i, self.n = self.n - self.base, self.n + 1
        self.run.log("h5", what, os.path.basename(str(path)))
        pl = self.plan
        if pl is not None and pl.get("w"):          # `at` counts only what changes a file
            if not write or what == "close":
                return None
            i, self.changes = self.changes, self.changes + 1
        if self.full and write:
            raise OSError(errno.ENOSPC, "No space left on device (injected)")
        if pl is None or self.fired or i < pl["at"]:
            return None
        k = pl["kind"]
        if k in ("enospc", "short") and not write:
            return None                             # the next write hits it
        s = procsim.CURRENT[0]
        if s is not None and s.me() is not None and s.me().proc is not None and k in ("kill", "interrupt"):
            return None                             # worker processes die by themselves
        if k == "interrupt" and s is not None and s.me() is not s.main:
            return None                             # signals arrive in the main thread
        self.fired = True
        self.fired_at = (what, os.path.basename(str(path)))
        self.fired_in = s.me().name if s is not None and s.me() is not None and s.me().proc is not None else None
        self.run.fault(f"{k}@{what}")
        if k == "kill":
            self.kill()
        if k == "short":
            self.full = True
            if rows is not None and rows > 1:
                return self.run.choose(rows, "short")
            raise OSError(errno.ENOSPC, "No space left on device (injected)")
        if k == "enospc":
            self.full = True
            raise OSError(errno.ENOSPC, "No space left on device (injected)")
        if k == "eio":
            raise OSError(errno.EIO, "Input/output error (injected)")
        if k == "memory":
            raise MemoryError("injected")
        if k == "h5err":
            raise tables.HDF5ExtError("injected HDF5 error")
        if k == "interrupt":
            raise KeyboardInterrupt()
        raise core.HarnessError(k)

    def kill(self):
        self.image = self.read()
        self.dead = True
        s = procsim.CURRENT[0]
        if s is not None:
            s.die("killed")
        raise core.SimCrash("kill")

    def read(self):
        out = {}
        for r, ds, fs in os.walk(self.root):
            for d in ds:
                out[os.path.relpath(os.path.join(r, d), self.root) + "/"] = None
            for f in fs:
                p = os.path.join(r, f)
                fd = _os_open(p, os.O_RDONLY)
                try:
                    b = b""
                    while True:
                        x = os.read(fd, 1 << 22)
                        if not x:
                            break
                        b += x
                finally:
                    _os_close(fd)
                out[os.path.relpath(p, self.root)] = b
        return out

    def close_handles(self):
        dead, self.dead = self.dead, False
        cur, CURRENT[0] = CURRENT[0], None
        try:
            for h in list(tables.file._open_files._handlers):
                if self.inside(h.filename):
                    try:
                        h.close()
                    except Exception:
                        pass
        finally:
            CURRENT[0] = cur
            self.dead = dead
        self.handles = []

    def restart(self):
        """After a kill: the directory as the operating system has it, a new process."""
        cur, CURRENT[0] = CURRENT[0], None
        try:
            self._restart()
        finally:
            CURRENT[0] = cur

    def _restart(self):
        fresh.restore()
        self.close_handles()
        if self.image is not None:
            for n in os.listdir(self.root):
                p = os.path.join(self.root, n)
                shutil.rmtree(p) if os.path.isdir(p) else _os_remove(p)
            for n, b in sorted(self.image.items()):
                p = os.path.join(self.root, n)
                if b is None:
                    os.makedirs(p, exist_ok=True)
                else:
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    fd = _os_open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
                    try:
                        t = b.rstrip(b"\0")
                        _os_write(fd, t) if t else None
                        _os_ftruncate(fd, len(b))
                    finally:
                        _os_close(fd)
        self.image, self.dead = None, False
        self.disarm()

    def __enter__(self):
        CURRENT[0] = self
        return self

    def __exit__(self, *a):
        self.close_handles()
        CURRENT[0] = None



def _disk(f):
    d = CURRENT[0]
    if d is None:
        return None
    try:
        return d if d.inside(f.filename) else None
    except Exception:
        return None


def _wrap(cls, name, what, write=True, after=False):
    orig = getattr(cls, name)

    def fn(self, *a, **k):
        f = self if isinstance(self, tables.File) else getattr(self, "_v_file", None)
        d = _disk(f) if f is not None else None
        if d is None or getattr(d, "_busy", False):
            return orig(self, *a, **k)
        rows = None
        if name == "append" and isinstance(self, tables.Table):
            try:
                rows = len(a[0])
            except TypeError:
                rows = None
        if after:
            r = orig(self, *a, **k)
            d.event(what, f.filename, write=write)
            return r
        if name == "close":
            try:
                d.event(what, f.filename)
            except core.SimCrash:
                raise
            except BaseException:                   # the error is reported, the handle is gone all the same
                d._busy = True
                try:
                    orig(self, *a, **k)
                finally:
                    d._busy = False
                raise
            d._busy = True
            try:
                return orig(self, *a, **k)
            finally:
                d._busy = False
        short = d.event(what, f.filename, rows=rows, write=write)
        if d.bad and what == "read" and any(b in self._v_pathname for b in d.bad):
            d.run.fault("damaged-month")
            raise tables.HDF5ExtError("Problems reading records. (injected)")
        d._busy = True
        try:
            if short is not None:
                if short:
                    orig(self, a[0][:short], *a[1:], **k)
                    tables.Table.flush(self)
                raise OSError(errno.ENOSPC, "No space left on device (injected)")
            return orig(self, *a, **k)
        finally:
            d._busy = False
    fn.__name__ = name
    setattr(cls, name, fn)


def _open_file(filename, mode="r", *a, **k):
    d = CURRENT[0]
    if d is None or not d.inside(filename):
        return _real_open(filename, mode, *a, **k)
    d.event("open-" + mode, filename, write=mode != "r")
    h = _real_open(filename, mode, *a, **k)
    s = procsim.CURRENT[0]
    me = s.me() if s is not None else None
    d.handles.append((h, me))
    return h


def _reap(task):
    d = CURRENT[0]
    if d is None or d.dead:
        return
    CURRENT[0] = None
    try:
        for h, me in d.handles:
            if me is task and h.isopen:
                try:
                    h.close()
                except Exception:
                    pass
    finally:
        CURRENT[0] = d


_installed = [False]


def install():
    if _installed[0]:
        return
    _installed[0] = True
    tables.parameters.PYTABLES_SYS_ATTRS = tables.parameters.PYTABLES_SYS_ATTRS
    tables.open_file = tables.file.open_file = _open_file
    T, F = tables.Table, tables.File
    _wrap(T, "append", "append")
    _wrap(T, "flush", "table-flush")
    _wrap(T, "read", "read", write=False)
    _wrap(T, "read_where", "read", write=False)
    _wrap(T, "read_coordinates", "read", write=False)
    _wrap(T, "get_where_list", "read", write=False)
    for n in ("create_group", "create_table", "create_array", "create_carray", "create_earray", "create_vlarray"):
        _wrap(F, n, n.replace("_", "-"))
    _wrap(F, "flush", "file-flush")
    _wrap(F, "close", "close")
    _wrap(tables.Group, "_f_remove", "remove")
    _wrap(tables.Leaf, "_f_remove", "remove") if "_f_remove" in tables.Leaf.__dict__ else None
    _wrap(tables.Node, "_f_remove", "remove") if "_f_remove" in tables.Node.__dict__ else None
    _wrap(tables.Array, "read", "read", write=False)
    procsim.REAPERS.append(_reap)
