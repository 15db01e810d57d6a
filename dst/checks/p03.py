"""P03: calls broken off by failing allocations, and caller threads under a deterministic scheduler on shared inputs and shared builder/kit objects; inputs compared bit for bit."""
import sys

import numpy as np
import pandas as pd

from dst import baton, breakoff, core, data, fresh, seams, work

RUNS = dict(quick=7000, thorough=600000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded preemptive scheduler over concurrent caller threads, allocation failures at any line"
LEVEL_NOTE = "Seeded search over 1-4 caller threads preempted at bytecode (kernels: line) granularity, sharing inputs and builder or kit objects; each caller's result is compared with its result alone, inputs are compared bit for bit"
RULE = "a run counts when a computation returned a result and its inputs were compared; concurrent runs count when at least two callers were interleaved; distinct by computation, input and schedule"
MEASURE = "distinct (computation, tape, caller schedule)"
REAL = ["numerical routines, transforms, feature kits, bar builders, label kits, weights, trade preprocessing (interpreted source)", "numpy", "pandas", "CPython threads"]
STUB = ["Numba's compiler", "the thread scheduler (one thread runs at a time; the seed decides every switch)", "locks created by finmlkit (cooperative)", "the allocator (fails where the run decides)"]
ASSUMPTIONS = ["numpy and pandas calls are atomic steps", "preemption inside kernels happens between source lines (compiled kernels release the GIL and only read shared arrays)"]
SHRINK_LISTS = ("ops", "cuts", "ev", "specs", "methods", "callers", "past")
SHRINK_MIN = {"specs": 1, "methods": 1, "callers": 1}
CPU_LIMIT = 60


def setup(scratch):
    seams.install()
    baton.instrument({k.func.__code__ for k in seams.KERNELS.values()})
    breakoff.instrument([m for name, m in sorted(sys.modules.items()) if name.startswith("finmlkit.")])


def gen(rng, tier, idx):
    n = rng.choice([2, 3, 5, 8, 12, 16, 24 if tier == "quick" else 48])
    job = work.gen_job(rng, n, ["core", "feat", "kit", "kit", "bars", "bars", "label", "trades", "volpro"])
    n = max(n, work.min_n(job))
    k = rng.choice([1, 2, 2, 3, 4])
    callers = []
    for _ in range(k):
        c = {}
        if job["kind"] == "bars":
            c["methods"] = rng.sample(work.METHODS, rng.choice([1, 2, 3]))
            c["tick"] = rng.random() < 0.5
        elif job["kind"] == "kit":
            c["backend"] = rng.choice(["nb", "pd"])
            c["order"] = rng.choice(["defined", "topo"])
        elif job["kind"] == "feat":
            c["backend"] = rng.choice(["nb", "pd"])
        c["own"] = rng.choice([0, 0, 0, 1, 2, 3])             # works on data of its own (bars: a builder of its own)
        c["fail"] = rng.choice([0, 0, 0, 0, rng.randrange(1, 30), rng.randrange(1, 300)])
        callers.append(c)
    past = []                      # what the process computed before
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        j = work.gen_job(rng, n, [job["kind"]])
        m = max(rng.choice([n, n, 3, 16]), work.min_n(j))
        if rng.random() < 0.6:     # the same computation, other data
            j, m = dict(job), n
        past.append(dict(job=j, tape=data.gen_tape(rng, m)))
    return dict(job=job, tape=data.gen_tape(rng, n), callers=callers, past=past)


def valid_plan(p):
    return len(p["tape"]["ops"]) >= work.min_n(p["job"]) and len(p["callers"]) >= 1 and all(len(q["tape"]["ops"]) >= work.min_n(q["job"]) for q in p["past"])


def snap(x):
    if isinstance(x, pd.DataFrame):
        return ("df", [str(c) for c in x.columns], [str(t) for t in x.dtypes], snap(x.index), [snap(x.iloc[:, i]) for i in range(x.shape[1])], str(x.columns.name))
    if isinstance(x, pd.Series):
        return ("s", str(x.name), snap(x.to_numpy()), snap(x.index))
    if isinstance(x, pd.Index):
        return ("i", str(x.name), snap(x.to_numpy()), str(getattr(x, "freq", None)))
    if isinstance(x, np.ndarray):
        return ("a", str(x.dtype), x.shape, x.tolist() if x.dtype == object else x.tobytes())
    if isinstance(x, (list, tuple)) or type(x).__name__ == "List":
        return ("l", [snap(v) for v in x])
    if type(x).__name__ == "TradesData":
        return ("t", snap(x.data), str(x.start_date), str(x.end_date), x.data_ok, x.missing_pct)
    return ("v", repr(x))


def where(a, b, path="input"):
    if a == b:
        return None
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, f"{path}.{i}")
    return f"{path}: {str(a)[:120]} became {str(b)[:120]}"


def aux_diff(job, aux):
    """Arguments handed over by the callers' later calls, against fresh ones."""
    for (what, nb), x in aux.items():
        diff = where(snap(work.theta(job, nb)), snap(x), what)
        if diff:
            return diff
    return None


def execute(run):
    pl = run.plan
    job = pl["job"]
    d = data.D(pl["tape"])
    if work.too_big(job, d, None):
        return
    name = work.label(job)
    run.sig(repr(job), repr(pl["tape"]))
    jobs = [dict(job, **c) for c in pl["callers"]]
    tapes = [d]
    for own in (1, 2, 3):
        o = data.D(pl["tape"], mutate_from=0, mut=own) if own < 3 else data.D(pl["tape"], upto=max(work.min_n(job), d.n - d.n // 3))
        tapes.append(d if work.too_big(job, o, None) else o)
    ds = [tapes[j.get("own", 0)] for j in jobs]
    alone = []
    for j, dd in zip(jobs, ds):
        fresh.restore()
        try:
            shared = work.prepared(j, dd) + ({},)
        except Exception as e:
            run.probe("refused:" + type(e).__name__)
            return
        before = snap(shared[0])
        if j.get("fail"):
            with breakoff.armed(j["fail"]) as arm:
                work.outcome(j, dd, shared)
            if arm.fired:
                run.fault("allocation")
                diff = where(before, snap(shared[0])) or aux_diff(j, shared[2])
                if diff:
                    raise core.Violation(f"input-modified:{name}", f"{j}: broken off in {arm.fired}: {diff}")
                undisturbed = work.outcome(j, dd)
                o = work.outcome(j, dd, shared)
                df = data.same(undisturbed[:2], o[:2], rtol=1e-12)
                if df:
                    raise core.Violation(f"failed-call-shows:{name}", f"{j}: after a call broken off in {arm.fired}: {df}")
        o = work.outcome(j, dd, shared)
        run.sub += 1
        diff = where(before, snap(shared[0])) or aux_diff(j, shared[2])
        if diff:
            raise core.Violation(f"input-modified:{name}", f"{j}: {diff}")
        alone.append(o[:2])
        run.log("alone", o[0])
        if o[0] == "ok":
            run.nontrivial = True
    run.probe(f"{job['kind']}:{alone[0][0]}")
    fresh.restore()
    if pl["past"]:
        run.probe("past")
    for q in pl["past"]:
        o = data.D(q["tape"])
        if not work.too_big(q["job"], o, None):
            work.outcome(q["job"], o)
    if pl["past"]:
        o = work.outcome(jobs[0], ds[0])
        run.sub += 1
        df = data.same(alone[0], o[:2], rtol=1e-12)
        if df:
            raise core.Violation(f"past-shows:{name}", f"{jobs[0]}: in a new process and after {[work.label(q['job']) for q in pl['past']]}: {df}")
    if len(jobs) < 2:
        return
    common, aux = work.prepared(job, d), {}
    each = []
    for j, dd in zip(jobs, ds):
        if dd is d:
            each.append(common + (aux,))
        else:
            mine = work.prepared(j, dd)
            each.append((mine[0], mine[1] if job["kind"] in ("bars", "volpro") else common[1], {}))
            run.probe("own-data")
    before = [snap(s[0]) for s in each]
    team = baton.Team(run)
    got = team.go([(lambda j=j, dd=dd, s=s: work.outcome(j, dd, s)) for j, dd, s in zip(jobs, ds, each)])
    for g in got:
        if g[0] == "raised" and isinstance(g[2], (core.Violation, core.HarnessError)):
            raise g[2]
    run.fault("preemption", max(0, team.switches - len(jobs)))
    run.log("team", team.switches, [g[0] for g in got])
    for i, (a, g) in enumerate(zip(alone, got)):
        run.sub += 1
        df = data.same(a, g[:2], rtol=1e-12)
        if df:
            why = f" ({g[2]}\n{core.tb_tail(g[2])})" if g[0] == "raised" else ""
            raise core.Violation(f"callers-interfere:{name}", f"caller {i} of {len(jobs)}: {jobs[i]}: alone vs concurrent: {df}{why}")
    for j, s, b in zip(jobs, each, before):
        diff = where(b, snap(s[0])) or aux_diff(j, s[2])
        if diff:
            raise core.Violation(f"input-modified:{name}", f"concurrent callers, {jobs}: {diff}")
