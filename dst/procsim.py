"""Simulated threads, worker processes, pools, queues and clocks for the code under test.

Every simulated task is a real thread of which exactly one runs at a time; who runs next is a decision of the run, taken at every
synchronisation operation and at every file or HDF5 operation (the disk simulators call `point`).  Worker processes run in this process
but only exchange pickled copies with their parent; they die where the run says so.
"""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import concurrent.futures.thread as cft
import errno
import math
import multiprocessing as mp
import os
import pickle
import queue as _queue
import sys
import threading
import time as _time

from . import core

_RealThread = threading.Thread
_RealLock, _RealRLock = threading.Lock, threading.RLock
_RealSem = threading.Semaphore
BrokenProcessPool = cfp.BrokenProcessPool
CURRENT = [None]
REAPERS = []
MODULES = ("finmlkit", "binance2h5")


def mine(depth=2):
    return sys._getframe(depth).f_globals.get("__name__", "").startswith(MODULES)


class SimAbort(BaseException):
    """Ends a task whose simulation is over."""


class Task:
    def __init__(self, sched, name, fn, proc=None):
        self.sched, self.name, self.fn, self.proc = sched, name, fn, proc
        self.sem = _RealSem(0)
        self.cond = None
        self.done = False
        self.kill = None
        self.error = None
        self.ident = None

    def body(self):
        self.sem.acquire()
        self.ident = threading.get_ident()
        self.sched.by_id[self.ident] = self
        try:
            if self.kill is not None:
                raise self.kill
            self.fn()
        except (SimAbort, core.SimCrash) as e:
            self.error = e
        except core.Violation as e:
            self.error = e
            self.sched.violation = self.sched.violation or e
        except core.HarnessError as e:
            self.error = e
            self.sched.harness = self.sched.harness or e
        except BaseException as e:
            self.error = e
        finally:
            if self.proc is not None and self.error is not None:
                for f in REAPERS:                  # what the operating system does for a dead process
                    f(self)
            self.done = True
            self.sched.by_id.pop(self.ident, None)
            self.sched.leave(self)


class Sched:
    """with Sched(run, ...) as s: the with-body is the main thread of the simulated program."""

    def __init__(self, run, cpus=4, deaths=(), max_steps=20000, nofork=()):
        self.run, self.cpus = run, cpus
        self.tasks = []
        self.by_id = {}
        self.now = 0.0
        self.deaths = {int(d[0]): int(d[1]) for d in deaths}       # n-th pool task started in this run -> dies at its k-th point
        self.started = 0
        self.nofork, self.forks = set(nofork), 0                   # n-th worker process that cannot be started
        self.dead = None                 # the whole program died (SimCrash)
        self.violation = None
        self.harness = None
        self.max_steps, self.steps = max_steps, 0
        self.switches = 0
        self.stuck = None
        self.crashable = None

    # -- life cycle ------------------------------------------------------------
    def __enter__(self):
        if CURRENT[0] is not None:
            raise core.HarnessError("nested scheduler")
        self.main = Task(self, "main", None)
        self.main.ident = threading.get_ident()
        self.by_id[self.main.ident] = self.main
        self.tasks.append(self.main)
        CURRENT[0] = self
        return self

    def __exit__(self, et, ev, tb):
        if et is core.RunTimeout:                  # a simulated thread may be looping: leave it behind
            CURRENT[0] = None
            return False
        try:
            if et is None and self.violation is None and self.dead is None:
                # a program ends when its non-daemon threads have ended
                try:
                    self.block(lambda: all(t.done or getattr(t, "daemon", False) for t in self.tasks if t is not self.main), "exit")
                except (core.Violation, core.SimCrash) as e:
                    self.violation = self.violation or (e if isinstance(e, core.Violation) else None)
        finally:
            for t in list(self.tasks):
                if t is not self.main and not t.done:
                    t.kill = SimAbort()
            for _ in range(10000):
                left = [t for t in self.tasks if t is not self.main and not t.done]
                if not left:
                    break
                t = left[0]
                self.sweeping = True
                t.sem.release()
                self.main.sem.acquire()
            CURRENT[0] = None
            self.by_id.clear()
        if self.harness is not None:
            raise self.harness
        if self.violation is not None and not isinstance(ev, core.Violation):
            raise self.violation
        return False

    sweeping = False

    def me(self):
        return self.by_id.get(threading.get_ident())

    def spawn(self, fn, name, proc=None, daemon=False):
        t = Task(self, name, fn, proc)
        t.daemon = daemon
        self.tasks.append(t)
        _RealThread(target=t.body, daemon=True).start()
        self.run.log("spawn", name)
        return t

    def leave(self, task):
        """A task has ended: pass the processor on."""
        if self.sweeping:
            self.main.sem.release()
            return
        nxt = self.pick()
        (nxt or self.main).sem.release()

    def ready(self, t):
        if t.done:
            return False
        if t.kill is not None or t.cond is None:
            return True
        return bool(t.cond())

    def pick(self):
        if self.dead is not None or self.violation is not None or self.harness is not None:
            return self.main                       # unwinding
        rd = [t for t in self.tasks if self.ready(t)]
        if not rd:
            return None
        if len(rd) == 1:
            return rd[0]
        return rd[self.run.choose(len(rd), "sched")]

    def switch(self, me):
        nxt = self.pick()
        if nxt is None:
            if me.cond is None or me.done:
                nxt = me
            else:
                self.stuck = [t.name + ":" + str(t.why) for t in self.tasks if not t.done]
                self.violation = core.Violation("deadlock", f"nothing can run any more: {self.stuck}")
                nxt = self.main
        if nxt is not me:
            self.switches += 1
            nxt.sem.release()
            me.sem.acquire()
        self.check(me)

    def check(self, me):
        if me.kill is not None:
            k, me.kill = me.kill, None
            if isinstance(k, SimAbort):
                me.kill = k
            raise k
        if self.dead is not None:
            raise core.SimCrash("dead")
        if self.violation is not None:
            raise self.violation if me is self.main else SimAbort()

    def point(self, tag=""):
        """A point at which another task may run, or this worker process may die."""
        me = self.me()
        if me is None or self.sweeping:
            return
        self.check(me)
        self.steps += 1
        if self.steps > self.max_steps:
            self.violation = core.Violation("no-progress", f"still running after {self.max_steps} scheduling points; tasks {[t.name for t in self.tasks if not t.done][:8]}")
            self.check(me)
            return
        if me.proc is not None:
            me.proc.tick()
        if len(self.tasks) > 1:
            self.switch(me)

    def block(self, cond, why=""):
        me = self.me()
        if me is None:
            raise core.HarnessError("blocking outside the simulation")
        if self.sweeping:
            raise SimAbort()
        self.check(me)
        self.steps += 1
        me.cond, me.why = cond, why
        try:
            while True:
                self.switch(me)
                if cond():
                    return
        finally:
            me.cond = None

    def fork(self):
        n, self.forks = self.forks, self.forks + 1
        if n in self.nofork:
            self.run.fault("fork-failure")
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable (injected)")

    def die(self, why="crash"):
        """The simulated program is killed: nothing runs any more."""
        self.dead = why

    def sleep(self, s):
        self.now += max(float(s), 0.0)
        self.run.sim_ns += int(max(float(s), 0.0) * 1e9)
        self.point("sleep")


Task.why = ""
Task.daemon = False


def sched():
    s = CURRENT[0]
    if s is None:
        raise core.HarnessError("concurrency outside the simulation")
    return s


def point(tag=""):
    s = CURRENT[0]
    if s is not None:
        s.point(tag)


# ---------------------------------------------------------------------------
#  synchronisation
# ---------------------------------------------------------------------------
class SimLock:
    reentrant = False

    def __init__(self):
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        if CURRENT[0] is None and (self.owner is None or (self.reentrant and self.owner == "main")):
            self.owner = "main"                # outside a simulation (imports, preparation) there is one thread
            self.depth += 1
            return True
        s = sched()
        s.point("lock")
        me = s.me()
        if not (self.owner is None or (self.reentrant and self.owner is me)):
            if not blocking:
                return False
            s.block(lambda: self.owner is None, "lock")
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        s = CURRENT[0]
        if s is not None and s.dead is None and s.violation is None:
            s.point("unlock")

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        if a[0] is None:
            point("unlock")


class SimRLock(SimLock):
    reentrant = True


class SimEvent:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True
        point("event")

    def clear(self):
        self.flag = False

    def is_set(self):
        point("event")
        return self.flag

    def wait(self, timeout=None):
        s = sched()
        if timeout is not None and not self.flag and s.run.flip(1, 2):
            s.sleep(timeout)
            return self.flag
        s.block(lambda: self.flag, "event")
        return True


class SimCondition:
    def __init__(self, lock=None):
        self.lock = lock or SimRLock()
        self.waiting = []
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        s = sched()
        tok = [False]
        self.waiting.append(tok)
        owner, depth = self.lock.owner, self.lock.depth
        self.lock.owner, self.lock.depth = None, 0
        s.block(lambda: tok[0] and self.lock.owner is None, "condition")
        self.lock.owner, self.lock.depth = owner, depth
        return True

    def wait_for(self, pred, timeout=None):
        while not pred():
            self.wait(timeout)
        return True

    def notify(self, n=1):
        for _ in range(min(n, len(self.waiting))):
            self.waiting.pop(0)[0] = True

    def notify_all(self):
        self.notify(len(self.waiting))


class SimSemaphore:
    def __init__(self, value=1):
        self.n = value

    def acquire(self, blocking=True, timeout=None):
        s = sched()
        if self.n <= 0 and not blocking:
            return False
        s.block(lambda: self.n > 0, "semaphore")
        self.n -= 1
        return True

    def release(self, n=1):
        self.n += n
        point("semaphore")

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimThread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or f"Thread-{getattr(target, '__name__', 'run')}"
        self.daemon = bool(daemon)
        self._t = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def _body(self):
        try:
            self.run()
        except Exception as e:                     # threading.excepthook prints it and the thread ends
            s = CURRENT[0]
            if s is not None:
                s.run.log("thread-error", type(e).__name__, str(e)[:100])

    def start(self):
        s = sched()
        me = s.me()
        self._t = s.spawn(self._body, self.name, proc=me.proc if me else None, daemon=self.daemon)
        s.point("start")

    def join(self, timeout=None):
        s = sched()
        if timeout is not None and not self._t.done and s.run.flip(1, 3):
            s.sleep(timeout)
            return
        s.block(lambda: self._t.done, f"join {self.name}")

    def is_alive(self):
        point("alive")
        return self._t is not None and not self._t.done

    @property
    def ident(self):
        return id(self)


class SimQueue:
    """queue.Queue; with pickle=True multiprocessing.Queue (items travel as copies through a feeder with a delay)."""
    pickled = False

    def __init__(self, maxsize=0, **k):
        self.maxsize = maxsize or 0
        self.items, self.transit, self.tasks = [], [], 0
        self.closed = False

    def _arrive(self):
        """Items in the feeder's hands: the run decides how many have arrived."""
        s = sched()
        if self.transit:
            k = s.run.choose(len(self.transit) + 1, "feeder")
            self.items += self.transit[:k]
            del self.transit[:k]

    def put(self, item, block=True, timeout=None):
        s = sched()
        s.point("put")
        if self.maxsize and len(self.items) + len(self.transit) >= self.maxsize:
            if not block:
                raise _queue.Full()
            s.block(lambda: len(self.items) + len(self.transit) < self.maxsize, "queue full")
        self.tasks += 1
        if self.pickled:
            try:
                self.transit.append(pickle.dumps(item))
            except Exception as e:                 # the feeder thread prints the error and drops the item
                s.run.log("feeder-error", type(e).__name__)
        else:
            self.items.append(item)
        s.point("put-done")

    def put_nowait(self, item):
        self.put(item, False)

    def get(self, block=True, timeout=None):
        s = sched()
        s.point("get")
        self._arrive()
        if not self.items:
            if not block:
                raise _queue.Empty()
            if timeout is not None and s.run.flip(1, 2):
                s.sleep(timeout)
                self._arrive()
                if not self.items:
                    raise _queue.Empty()
            else:
                s.block(lambda: self.items or self.transit, "queue empty")
                if not self.items:
                    self.items.append(self.transit.pop(0))
        it = self.items.pop(0)
        return pickle.loads(it) if self.pickled else it

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        point("empty")
        self._arrive()
        return not self.items

    def qsize(self):
        point("qsize")
        return len(self.items) + len(self.transit)

    def full(self):
        return bool(self.maxsize) and self.qsize() >= self.maxsize

    def task_done(self):
        self.tasks -= 1
        point("task_done")

    def join(self):
        sched().block(lambda: self.tasks <= 0, "queue join")

    def close(self):
        self.closed = True

    def join_thread(self):
        self.items += self.transit
        self.transit = []
        point("join_thread")

    def cancel_join_thread(self):
        pass


class SimMPQueue(SimQueue):
    pickled = True


# ---------------------------------------------------------------------------
#  worker processes
# ---------------------------------------------------------------------------
class Proc:
    """One worker process."""

    def __init__(self, s, pool):
        self.s, self.pool, self.left, self.dying = s, pool, None, False

    def begin(self):
        n, self.s.started = self.s.started, self.s.started + 1
        self.left = self.s.deaths.get(n)

    def end(self):
        if self.left is not None:                  # the task had fewer points: dies when it hands over the result
            self.left = 0
            self.tick()

    def tick(self):
        if self.dying:
            raise core.SimCrash("worker died")
        if self.left is not None:
            if self.left <= 0:
                self.left = None
                self.dying = True
                self.s.run.fault("worker-death")
                raise core.SimCrash("worker died")
            self.left -= 1


class SimFuture(cf.Future):
    def result(self, timeout=None):
        sched().block(lambda: self.done(), "future")
        return super().result(0)

    def exception(self, timeout=None):
        sched().block(lambda: self.done(), "future")
        return super().exception(0)


class _Exec:
    process = True

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None, thread_name_prefix="", **k):
        s = sched()
        if max_workers is None:
            max_workers = s.cpus
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.n = max_workers
        self.init = (initializer, initargs)
        self.work, self.finished = [], []          # (future, payload), (future, kind, payload)
        self.workers, self.broken, self.closed = [], False, False
        self.pending = 0
        self.s = s
        self.manager = None
        s.run.log("executor", max_workers)
        s.run.sig("workers", max_workers)

    def _worker(self, proc):
        s = self.s
        while True:
            s.block(lambda: self.work or self.closed or self.broken, "worker idle")
            if self.broken or (not self.work and self.closed):
                return
            fut, payload = self.work.pop(0)
            if not fut.set_running_or_notify_cancel():
                self.finished.append((fut, None, None))
                continue
            if self.process:
                proc.begin()
            try:
                s.point("task")
                if self.process:
                    fn, a, k = pickle.loads(payload)
                else:
                    fn, a, k = payload
                res = fn(*a, **k)
                s.point("task-done")
                if self.process:
                    res = pickle.dumps(res)
                    proc.end()
                out = (fut, "ok", res)
            except core.SimCrash:
                if not self.process or s.dead is not None:
                    raise
                self.finished.append((fut, "died", None))
                raise
            except Exception as e:
                if self.process:
                    try:
                        e = pickle.loads(pickle.dumps(e))
                    except Exception:
                        e = RuntimeError(str(e))
                out = (fut, "error", e)
            self.finished.append(out)

    def _manage(self):
        s = self.s
        while True:
            s.block(lambda: self.finished or (self.closed and self.pending == 0), "manager")
            if not self.finished:
                return
            fut, kind, val = self.finished.pop(s.run.choose(len(self.finished), "arrival") if not self.process else 0)
            if self.broken:
                continue
            if kind == "died":
                self.broken = True
                err = BrokenProcessPool("A process in the process pool was terminated abruptly while the future was running or pending.")
                rest = [f for f in self.all if not f.done()]
                self.work.clear()
                for p in self.procs:
                    p.dying = True
                self.finished.clear()
                self.pending = 0
                for f in rest:
                    self._resolve(f.set_exception, err)
                continue
            self.pending -= 1
            if kind == "ok":
                self._resolve(fut.set_result, pickle.loads(val) if self.process else val)
            elif kind == "error":
                self._resolve(fut.set_exception, val)

    def _resolve(self, setter, val):
        try:
            setter(val)                            # callbacks run here
        except cf.InvalidStateError:
            pass
        self.s.point("resolved")

    all = ()
    procs = ()
    forked = 0

    def submit(self, fn, /, *a, **k):
        s = self.s
        s.point("submit")
        if self.broken:
            raise BrokenProcessPool("A child process terminated abruptly, the process pool is not usable anymore")
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture()
        if not self.all:
            self.all, self.procs = [], []
        self.all.append(f)
        self.pending += 1
        try:
            self.work.append((f, pickle.dumps((fn, a, k)) if self.process else (fn, a, k)))
        except Exception as e:
            self.finished.append((f, "error", e))
        if self.process and self.manager is None:
            while self.forked < self.n:            # all workers are forked at the first submission, before any thread
                s.fork()
                self.forked += 1
        if self.manager is None:
            self.manager = s.spawn(self._manage, "pool-manager")
        if len(self.workers) < self.n:
            p = Proc(s, self) if self.process else None
            self.procs.append(p) if p else None
            self.workers.append(s.spawn(lambda: self._worker(p), f"worker{len(self.workers)}", proc=p))
        s.point("submitted")
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]

        def gen():
            for f in fs:
                yield f.result()
        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for f, _ in self.work:
                f.cancel()
        self.closed = True
        if wait and self.manager is not None:
            self.s.block(lambda: self.manager.done and all(w.done for w in self.workers), "shutdown")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.s.dead is None and self.s.violation is None:
            self.shutdown(True)
        return False


class SimProcessPool(_Exec):
    process = True


class SimThreadPool(_Exec):
    process = False


def as_completed(fs, timeout=None):
    s = sched()
    left = list(dict.fromkeys(fs))
    while left:
        s.block(lambda: any(f.done() for f in left), "as_completed")
        done = [f for f in left if f.done()]
        f = done[s.run.choose(len(done), "completed")]
        left.remove(f)
        yield f


def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    s = sched()
    fs = set(fs)
    if return_when == "ALL_COMPLETED":
        s.block(lambda: all(f.done() for f in fs), "wait")
    elif return_when == "FIRST_EXCEPTION":
        s.block(lambda: all(f.done() for f in fs) or any(f.done() and cf.Future.exception(f, 0) for f in fs), "wait")
    else:
        s.block(lambda: any(f.done() for f in fs), "wait")
    done = {f for f in fs if f.done()}
    return cf._base.DoneAndNotDoneFutures(done, fs - done)


class AsyncResult:
    def __init__(self, n):
        self.n, self.vals, self.err = n, {}, None
        self.fired = False

    def ready(self):
        return len(self.vals) == self.n

    def get(self, timeout=None):
        sched().block(self.ready, "pool result")
        if self.err is not None:
            raise self.err
        return [v for i in sorted(self.vals) for v in self.vals[i]]

    def wait(self, timeout=None):
        sched().block(self.ready, "pool result")

    def successful(self):
        return self.err is None


class _One(AsyncResult):
    def get(self, timeout=None):
        return super().get()[0]


class SimPool:
    """multiprocessing.Pool: a worker that dies is replaced, its task is lost."""
    process = True

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        s = self.s = sched()
        n = s.cpus if processes is None else processes
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.n, self.work, self.closed, self.stopped, self.open, self.out = n, [], False, False, 0, []
        s.run.log("pool", n)
        s.run.sig("workers", n)
        self.workers = [s.spawn(self._worker, f"pool{i}", proc=Proc(s, self)) for i in range(n)]
        self.handler = s.spawn(self._handle, "result-handler", daemon=True)
        for w in self.workers:
            w.daemon = True

    def _worker(self):
        s = self.s
        proc = s.me().proc
        while True:
            s.block(lambda: self.work or self.closed or self.stopped, "worker idle")
            if self.stopped or not self.work:
                return
            res, i, payload = self.work.pop(0)
            proc.begin()
            try:
                s.point("task")
                fn, chunk, star = pickle.loads(payload)
                vals = []
                for a in chunk:
                    vals.append(fn(*a[0], **a[1]) if star == 2 else fn(*a) if star else fn(a))
                    s.point("item")
                vals = pickle.dumps(vals)
                proc.end()
                self.out.append((res, i, "ok", vals))
            except core.SimCrash:
                if s.dead is None and not self.stopped:
                    t = s.spawn(self._worker, "pool-new", proc=Proc(s, self))
                    t.daemon = True
                    self.workers.append(t)
                raise
            except Exception as e:
                try:
                    e = pickle.loads(pickle.dumps(e))
                except Exception:
                    e = RuntimeError(str(e))
                self.out.append((res, i, "error", e))

    def _handle(self):
        s = self.s
        while True:
            s.block(lambda: self.out or self.stopped or (self.closed and self.open == 0), "result handler")
            if not self.out:
                return
            res, i, kind, v = self.out.pop(0)
            self.open -= 1
            if kind == "ok":
                res.vals[i] = pickle.loads(v)
            else:
                res.vals[i] = []
                res.err = res.err or v
            if res.ready() and not res.fired:
                res.fired = True
                if res.err is None and getattr(res, "cb", None):
                    res.cb(res.get())
                elif res.err is not None and getattr(res, "ecb", None):
                    res.ecb(res.err)
            s.point("handled")

    def _add(self, res, i, fn, chunk, star):
        if self.closed or self.stopped:
            raise ValueError("Pool not running")
        self.work.append((res, i, pickle.dumps((fn, chunk, star))))
        self.open += 1

    def _map(self, fn, it, star, chunksize, cb=None, ecb=None):
        it = list(it)
        if chunksize is None:
            chunksize, extra = divmod(len(it), self.n * 4)
            chunksize += 1 if extra else 0
        chunksize = max(chunksize, 1)
        chunks = [it[i:i + chunksize] for i in range(0, len(it), chunksize)]
        res = AsyncResult(len(chunks))
        res.cb, res.ecb = cb, ecb
        for i, c in enumerate(chunks):
            self._add(res, i, fn, c, star)
        self.s.point("dispatched")
        return res

    def map(self, fn, it, chunksize=None):
        return self._map(fn, it, 0, chunksize).get()

    def starmap(self, fn, it, chunksize=None):
        return self._map(fn, it, 1, chunksize).get()

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._map(fn, it, 0, chunksize, callback, error_callback)

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._map(fn, it, 1, chunksize, callback, error_callback)

    def imap(self, fn, it, chunksize=1):
        rs = [self.apply_async(fn, (a,)) for a in it]
        return (r.get() for r in rs)

    def imap_unordered(self, fn, it, chunksize=1):
        rs = [self.apply_async(fn, (a,)) for a in it]

        def gen():
            left = list(rs)
            while left:
                self.s.block(lambda: any(r.ready() for r in left), "imap")
                d = [r for r in left if r.ready()]
                r = d[self.s.run.choose(len(d), "imap")]
                left.remove(r)
                yield r.get()
        return gen()

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        res = _One(1)
        res.cb, res.ecb = callback, error_callback
        self._add(res, 0, fn, [(tuple(args), kwds or {})], 2)
        self.s.point("dispatched")
        return res

    def apply(self, fn, args=(), kwds=None):
        return self.apply_async(fn, args, kwds).get()

    def close(self):
        self.closed = True

    def terminate(self):
        self.stopped = True
        for w in self.workers:
            if w.proc is not None and not w.done:
                w.proc.dying = True

    def join(self):
        self.s.block(lambda: self.handler.done and all(w.done for w in self.workers), "pool join")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class SimProcess(SimThread):
    def start(self):
        s = sched()
        p = Proc(s, None)
        p.begin()
        self._t = s.spawn(self._body, self.name, proc=p, daemon=self.daemon)
        s.point("start")

    @property
    def exitcode(self):
        return None if self._t is None or not self._t.done else (0 if self._t.error is None else -9)


class _Ctx:
    def __getattr__(self, k):
        return {"Pool": SimPool, "Process": SimProcess, "Queue": SimMPQueue, "SimpleQueue": SimMPQueue, "JoinableQueue": SimMPQueue, "Lock": SimLock, "RLock": SimRLock, "Event": SimEvent,
                "cpu_count": _cpus}[k] if k in ("Pool", "Process", "Queue", "SimpleQueue", "JoinableQueue", "Lock", "RLock", "Event", "cpu_count") else getattr(mp, k)


def _cpus(*a):
    return CURRENT[0].cpus if CURRENT[0] is not None else 4


_done = [False]
VIEWS = {}                                         # module name -> what modules under test get for it


def install():
    """Before the code under test is imported."""
    if _done[0]:
        return
    _done[0] = True
    import tables, tqdm, pandas  # noqa: F401,E401  (these keep the real primitives)
    import zipfile, logging.handlers, concurrent.futures.thread  # noqa: F401,E401
    real = dict(Lock=threading.Lock, RLock=threading.RLock, Event=threading.Event, Condition=threading.Condition, Semaphore=threading.Semaphore, BoundedSemaphore=threading.BoundedSemaphore,
                Thread=threading.Thread)
    sim = dict(Lock=SimLock, RLock=SimRLock, Event=SimEvent, Condition=SimCondition, Semaphore=SimSemaphore, BoundedSemaphore=SimSemaphore, Thread=SimThread)

    # executed in the importing modules only: finmlkit and the script get these through `import`
    class _Mod:
        def __init__(self, mod, repl):
            self.__dict__["_mod"], self.__dict__["_repl"] = mod, repl

        def __getattr__(self, k):
            r = self._repl
            return r[k] if k in r else getattr(self._mod, k)
    fut = dict(ProcessPoolExecutor=SimProcessPool, ThreadPoolExecutor=SimThreadPool, as_completed=as_completed, wait=wait)
    mpr = dict(Pool=SimPool, Process=SimProcess, Queue=SimMPQueue, SimpleQueue=SimMPQueue, JoinableQueue=SimMPQueue, Lock=SimLock, RLock=SimRLock, Event=SimEvent, Condition=SimCondition,
               Semaphore=SimSemaphore, cpu_count=_cpus, get_context=lambda *a: _Ctx())
    tm = dict(sleep=lambda t: CURRENT[0].sleep(t) if CURRENT[0] else None, time=lambda: 1.7e9 + (CURRENT[0].now if CURRENT[0] else 0.0), monotonic=lambda: (CURRENT[0].now if CURRENT[0] else 0.0),
              perf_counter=lambda: (CURRENT[0].now if CURRENT[0] else 0.0))
    global VIEWS
    views = VIEWS = {"threading": _Mod(threading, sim), "concurrent.futures": _Mod(cf, fut), "concurrent.futures.process": _Mod(cfp, fut), "concurrent.futures.thread": _Mod(cft, fut),
             "multiprocessing": _Mod(mp, mpr), "multiprocessing.pool": _Mod(__import__("multiprocessing.pool", fromlist=["x"]), dict(Pool=SimPool, ThreadPool=SimPool)),
             "queue": _Mod(_queue, dict(Queue=SimQueue, SimpleQueue=SimQueue)), "time": _Mod(_time, tm)}
    fut.update(process=views["concurrent.futures.process"], thread=views["concurrent.futures.thread"])
    mpr.update(pool=views["multiprocessing.pool"])
    import builtins
    import types
    orig = builtins.__import__
    conc = types.SimpleNamespace(futures=views["concurrent.futures"])

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and globals is not None and str(globals.get("__name__", "")).startswith(MODULES):
            if name in views:
                if fromlist or "." not in name:
                    return views[name]
                if name.startswith("concurrent."):
                    return conc
                return views["multiprocessing"]
            if name == "concurrent" and fromlist and "futures" in fromlist:
                return conc
        return orig(name, globals, locals, fromlist, level)
    builtins.__import__ = imp
    os_cpu = os.cpu_count
    os.cpu_count = lambda: _cpus() if CURRENT[0] is not None and mine() else os_cpu()
    real.clear()
