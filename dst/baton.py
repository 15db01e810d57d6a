"""Deterministic caller threads: real threads of which exactly one runs at a time; preemption after every traced line (inside numerical
kernels) or bytecode (elsewhere) of finmlkit is decided by the run."""
import sys
import threading

from . import core

_RealSem = threading.Semaphore
_RealThread = threading.Thread
CURRENT = [None]
QUANTA = (1, 2, 4, 10, 30, 120, 1000, 20000)


class CoopLock:
    """Stands in for a lock created by finmlkit code: waiting gives the processor to another simulated thread."""

    def __init__(self, reentrant=False):
        self.owner, self.depth, self.reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            team = CURRENT[0]
            if team is None:
                raise core.HarnessError("a lock is held while no other thread is running")
            team.pause(blocked=True)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install_locks():
    real_lock, real_rlock = threading.Lock, threading.RLock

    def mine():
        return sys._getframe(2).f_globals.get("__name__", "").startswith("finmlkit")

    def lock():
        return CoopLock() if mine() else real_lock()

    def rlock():
        return CoopLock(True) if mine() else real_rlock()
    threading.Lock, threading.RLock = lock, rlock


MON = sys.monitoring
TOOL = 3


def instrument(kernel_codes):
    """Preemption points: every bytecode of every finmlkit function, every line of its kernels."""
    import gc
    import importlib
    import pkgutil
    import types
    import finmlkit
    for m in pkgutil.walk_packages(finmlkit.__path__, "finmlkit."):
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass
    codes, todo = set(), [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
    while todo:
        c = todo.pop()
        if c in codes or not c.co_filename.startswith(core.REPO):
            continue
        codes.add(c)
        todo.extend(x for x in c.co_consts if isinstance(x, types.CodeType))
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "dst")
    for c in codes:
        MON.set_local_events(TOOL, c, MON.events.LINE if c in kernel_codes else MON.events.INSTRUCTION)
    return len(codes)


class Team:
    def __init__(self, run, max_switch=300):
        self.run = run
        self.main = _RealSem(0)
        self.left = 0
        self.switches = 0
        self.max_switch = max_switch
        self.by_id = {}
        self.blocked_spin = 0

    def event(self, code, where):
        if threading.get_ident() not in self.by_id:
            return
        self.left -= 1
        if self.left <= 0:
            self.pause()

    def pause(self, blocked=False):
        if blocked:
            self.blocked_spin += 1
            if self.blocked_spin > 20000:
                raise core.Violation("deadlock:callers", "concurrent callers wait for each other's locks for ever")
        sem = self.by_id[threading.get_ident()]
        self.main.release()
        sem.acquire()

    def go(self, fns):
        n = len(fns)
        results = [None] * n
        sems = [_RealSem(0) for _ in range(n)]
        done = [False] * n

        def body(i):
            sems[i].acquire()
            self.by_id[threading.get_ident()] = sems[i]
            try:
                results[i] = fns[i]()
            except BaseException as e:
                results[i] = ["raised", type(e).__name__, e]
            finally:
                del self.by_id[threading.get_ident()]
                done[i] = True
                self.main.release()
        ths = [_RealThread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ths:
            t.start()
        CURRENT[0] = self
        for ev in (MON.events.INSTRUCTION, MON.events.LINE):
            MON.register_callback(TOOL, ev, self.event)
        try:
            while not all(done):
                live = [i for i in range(n) if not done[i]]
                if self.switches < self.max_switch:
                    i = live[self.run.choose(len(live), "caller")]
                    self.left = QUANTA[self.run.choose(len(QUANTA), "q")]
                else:
                    i = live[self.switches % len(live)] if self.blocked_spin else live[0]
                    self.left = 10 ** 6 if self.blocked_spin else 10 ** 12
                self.switches += 1
                self.run.sig(i, self.left)
                sems[i].release()
                self.main.acquire()
        finally:
            CURRENT[0] = None
            for ev in (MON.events.INSTRUCTION, MON.events.LINE):
                MON.register_callback(TOOL, ev, None)
        for t in ths:
            t.join(5)
        return results
