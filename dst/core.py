"""Deterministic-simulation core: one integer decides a run.

A *run* is a pure function of (plan, choices): the plan is a JSON document generated from the seed
(workload, fault placement, knobs), `choices` is the list of scheduling decisions taken while the
simulation proceeds.  In exploration the choices are drawn from a PRNG and recorded; a replay feeds
the recorded list back.  Nothing in a run reads a real clock or an unseeded source.
"""
import copy
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")


class Violation(Exception):
    """The property is broken.  `kind` is the violation class used for minimisation and matching."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)


class HarnessError(Exception):
    """The machinery itself misbehaved: never reported as a violation."""


class RunTimeout(BaseException):
    pass


class SimCrash(BaseException):
    """Simulated sudden death of the process under test."""


def derive(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Run:
    def __init__(self, plan, seed=0, choices=None, scratch=None, keep_trace=False):
        self.plan = plan
        self.seed = seed
        self.rng = random.Random(derive("sched", seed))
        self.replaying = choices is not None
        self.feed = list(choices) if choices is not None else None
        self.pos = 0
        self.choices = []
        self.faults = Counter()        # fault kind -> times it really fired
        self.probes = Counter()        # rare conditions reached
        self.sim_ns = 0                # simulated time covered
        self.nontrivial = False
        self.scratch = scratch
        self._h = hashlib.sha256()
        self._sig = hashlib.sha256()
        self.trace = [] if keep_trace else None
        self.steps = 0
        self.sub = 0                   # evaluations inside the run (comparisons made)

    # -- decisions ---------------------------------------------------------
    def choose(self, n, tag=""):
        """One scheduling decision in range(n)."""
        if n <= 1:
            return 0
        if self.feed is not None:
            v = self.feed[self.pos] if self.pos < len(self.feed) else 0
            v = min(max(int(v), 0), n - 1)
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        self.choices.append(v)
        self._h.update(b"c%d/%d" % (v, n))
        return v

    def flip(self, num, den, tag=""):
        return self.choose(den, tag) >= den - num

    # -- recording ---------------------------------------------------------
    def log(self, *ev):
        s = repr(ev)
        self._h.update(s.encode())
        self.steps += 1
        if self.trace is not None and len(self.trace) < 4000:
            self.trace.append(s)

    def sig(self, *ev):
        """Contributes to the signature under which distinct runs are counted."""
        self._sig.update(repr(ev).encode())

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.log("fault", kind)
        self.sig("f", kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    def digest(self):
        return self._h.hexdigest()[:16]

    def signature(self):
        return self._sig.hexdigest()[:16]

    # -- calling the code under test ----------------------------------------
    def call(self, label, fn, *a, **k):
        """Call into the code under test where the property says a result is due: an exception is a violation."""
        try:
            return fn(*a, **k)
        except (Violation, HarnessError, SimCrash, RunTimeout):
            raise
        except Exception as e:
            raise Violation(f"exception:{label}:{type(e).__name__}", f"{e}\n{tb_tail(e)}")


def tb_tail(e, n=6):
    return "".join(traceback.format_tb(e.__traceback__)[-n:])


def in_repo_frames(e):
    return any(f.filename.startswith(REPO + os.sep) for f in traceback.extract_tb(e.__traceback__))


# ---------------------------------------------------------------------------
RUN_CPU_LIMIT = 60


def _on_alarm(signum, frame):
    raise RunTimeout()


def execute(mod, plan, seed=0, choices=None, scratch=None, keep_trace=False):
    """Returns (run, violation or None).  Raises HarnessError on trouble of our own."""
    plan = json.loads(json.dumps(plan))      # a replay file goes through JSON too
    run = Run(plan, seed, choices, scratch, keep_trace)
    old = signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, "CPU_LIMIT", RUN_CPU_LIMIT))
    vio = None
    from . import fresh
    fresh.restore()
    try:
        mod.execute(run)
    except Violation as v:
        vio = v
    except RunTimeout:
        vio = Violation("hang", f"the run used more than {getattr(mod, 'CPU_LIMIT', RUN_CPU_LIMIT)} s of CPU without finishing")
    except HarnessError:
        raise
    except SimCrash as e:
        raise HarnessError(f"SimCrash escaped the check\n{tb_tail(e, 20)}")
    except Exception as e:
        if not in_repo_frames(e):
            raise HarnessError(f"{type(e).__name__}: {e}\n{tb_tail(e, 20)}")
        vio = Violation(f"exception:{type(e).__name__}", f"{e}\n{tb_tail(e, 12)}")      # the code under test raised where a result is due
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        cleanup = getattr(mod, "cleanup", None)
        if cleanup:
            cleanup(run)
    return run, vio


# ---------------------------------------------------------------------------
#  Minimisation: shrink the plan (lists, numbers) and the choice list while the same violation class persists.
# ---------------------------------------------------------------------------
def _paths(x, pre=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _paths(x[k], pre + (k,))
    elif isinstance(x, list):
        yield pre
        for i, v in enumerate(x):
            yield from _paths(v, pre + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _set(x, path, v):
    x = copy.deepcopy(x)
    if not path:
        return v
    y = x
    for p in path[:-1]:
        y = y[p]
    y[path[-1]] = v
    return x


def minimise(mod, plan, choices, kind, scratch, budget_s=30.0, max_tries=400):
    t0 = time.monotonic()
    tries = [0]
    best = [copy.deepcopy(plan), list(choices)]

    def test(p, c):
        if tries[0] >= max_tries or time.monotonic() - t0 > budget_s:
            return False
        tries[0] += 1
        try:
            valid = getattr(mod, "valid_plan", None)
            if valid and not valid(p):
                return False
            run, v = execute(mod, p, 0, c, scratch)
        except Exception:
            return False
        if v is not None and v.kind == kind:
            best[0], best[1] = p, run.choices
            return True
        return False

    shrinkable = getattr(mod, "SHRINK_LISTS", ("ops", "faults"))
    minlen = getattr(mod, "SHRINK_MIN", {})
    progress = True
    while progress and time.monotonic() - t0 < budget_s and tries[0] < max_tries:
        progress = False
        for path in list(_paths(best[0])):
            if not path or path[-1] not in shrinkable:
                continue
            try:
                lst = _get(best[0], path)
            except (KeyError, IndexError, TypeError):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1:
                i = 0
                while i < len(_get(best[0], path)):
                    cur = _get(best[0], path)
                    if len(cur) <= minlen.get(path[-1], 0):
                        break
                    cand = cur[:i] + cur[i + size:]
                    if len(cand) >= minlen.get(path[-1], 0) and test(_set(best[0], path, cand), best[1]):
                        progress = True
                    else:
                        i += size
                size //= 2
        simp = getattr(mod, "simplify", None)
        if simp:
            for cand in simp(best[0]):
                if test(cand, best[1]):
                    progress = True
                    break
        # choices: cut the tail, then zero blocks
        n = len(best[1])
        while n > 0:
            n //= 2
            if not test(best[0], best[1][:n]):
                break
            progress = progress or n > 0
        size = max(1, len(best[1]) // 2)
        while size >= 1 and len(best[1]) <= 4000:
            i = 0
            while i < len(best[1]):
                cur = best[1]
                if any(cur[i:i + size]):
                    if test(best[0], cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:]):
                        progress = True
                i += size
                if time.monotonic() - t0 > budget_s or tries[0] >= max_tries:
                    break
            size //= 2
        if not any(best[1]):
            best[1] = []
    return best[0], best[1], tries[0]
