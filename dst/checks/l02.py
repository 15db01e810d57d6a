"""L02: a live process that is stopped and restarted at seeded instants, and alternative futures, against the historical run."""
import json

import numpy as np

from dst import catalog, core, data, feat, fresh, seams, work

RUNS = dict(quick=30000, thorough=1500000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: restarts at seeded points of a simulated market clock, and divergent futures"
LEVEL_NOTE = "Seeded search over computations, tapes, restart instants and alternative futures; values at or before the instant must be identical"
RULE = "a run counts when at least one restart or alternative future was compared on a non-empty common past; distinct by computation, tape and restart instants"
MEASURE = "distinct (computation, parameters, tape, restart instants)"
REAL = ["every numerical routine with per-element output, every transform (both backends), feature expressions and kits, event filter, volume profiles (interpreted source)", "numpy", "pandas"]
STUB = ["Numba's compiler", "the market (seeded tapes) and its clock"]
ASSUMPTIONS = ["a computation that raises on one of the two inputs reports nothing and is not compared", "external functions used in features are element-wise"]
SHRINK_LISTS = ("ops", "gone", "cuts", "ev", "specs", "cutpts")
SHRINK_MIN = {"specs": 1, "cutpts": 1}
SPECIAL = ["cusum_filter", "volume_profile_developing", "cusum_test_rolling"]


def setup(scratch):
    seams.install()


def _causal():
    return catalog.names(lambda e: e.causal is not None) + SPECIAL


def gen(rng, tier, idx):
    n = rng.choice([3, 5, 8, 12, 16, 20, 24, 32, 40, 48 if tier == "quick" else 120])
    r = rng.random()
    if r < 0.34:
        e = rng.choice(_causal())
        job = dict(kind="core", entry=e, p=catalog.ENTRIES[e].gen(rng, n))
    elif r < 0.8:
        job = work.gen_job(rng, n, ["feat"])
    else:
        job = work.gen_job(rng, n, ["kit"])
    if job["kind"] != "core":
        job["grid"] = rng.choice([None, None, "15m", "15mgap"])
    tape = data.gen_tape(rng, max(n, work.min_n(job)))
    if rng.random() < (0.3 if "PriceVolumeCorr" in json.dumps(job) else 0.02):                    # trends in price and volume, at least for some time
        k = rng.choice([n, n, n // 2, max(n - 1, 1)])
        for i, o in enumerate(tape["ops"][:k]):
            o[1], o[2], o[4] = 1 + i % 2, 10000 * (i + 1 if n % 2 else 2 * n - i), 0
    gone = []                                  # bars without prices
    if job["kind"] != "core" and rng.random() < 0.25:
        gone = sorted({rng.randrange(n) for _ in range(rng.choice([1, 2, 4, n]))})
    if job["kind"] != "core" and any(x in json.dumps(job) for x in ("DailyGap", "ORBBreak")) and rng.random() < 0.6:      # a midnight inside
        m = rng.randrange(n)
        job["grid"], tape["t0"] = "15m", tape["t0"] // data.DAY * data.DAY + data.DAY - m * 900 * data.SEC
        gone = sorted(set(gone + [m + i for i in range(rng.choice([0, 1, 1, 2])) if m + i < n]))
    return dict(job=job, tape=tape, gone=gone, cutpts=[[rng.random(), rng.choice([0, 0, 1, 2]), rng.choice([None, -1, 0, 1, 2, 3, 4, 5])] for _ in range(rng.choice([2, 3, 5]))], late=rng.random() < 0.15)


def _special(job, *tapes):
    """A recorded finding (known_findings.txt): the pandas version of PriceVolumeCorrelation looks whether the whole table is a trend."""
    if job["kind"] == "core" or job["backend"] != "pd" or '"PriceVolumeCorrelation", {"window": 4' not in json.dumps(job):
        return False
    for d in tapes:
        v = np.diff(d.vol)
        if d.n >= 10 and (np.diff(d.px) >= 0).all() and ((v >= 0).all() or (v <= 0).all()):
            return True
    return False


def _ints(x):
    if isinstance(x, bool):
        return []
    if isinstance(x, int):
        return [x]
    if isinstance(x, dict):
        return [i for v in x.values() for i in _ints(v)]
    return [i for v in x for i in _ints(v)] if isinstance(x, list) else []


def valid_plan(p):
    return len(p["tape"]["ops"]) >= max(1, work.min_n(p["job"]))


def _series(job, d, res, k, n):
    """The reported values for the first k elements."""
    if job["kind"] == "core":
        e = catalog.ENTRIES[job["entry"]]
        if job["entry"] == "cusum_filter":
            r = np.asarray(res)
            return [r[r < k]]
        if job["entry"] == "cusum_test_rolling":
            return [np.asarray(x)[:k] for x in res]
        if job["entry"] == "volume_profile_developing":
            p = job["p"]
            a = min(p["a"], p["b"], n - 1)
            return [] if a >= k else [np.asarray(x)[:max(0, k - a)] for x in res]
        out = list(res) if isinstance(res, (tuple, list)) else [res]
        return [np.asarray(out[i])[:k] for i in e.causal]
    if job["kind"] == "feat":
        return [[nm, s.to_numpy()[:k]] for nm, s in res]
    return res.iloc[:k]


def _hollow(d, gone):
    for i in gone:
        if i < d.n:
            for f in ("px", "high", "low", "pxn", "ret", "retn"):
                getattr(d, f)[i] = np.nan
    return d


def execute(run):
    pl = run.plan
    job = pl["job"]
    n = len(pl["tape"]["ops"])
    full_d = _hollow(data.D(pl["tape"]), pl["gone"])
    full = work.outcome(job, full_d)
    name = work.label(job)
    run.sig(repr(job), repr(pl["tape"]))
    if full[0] == "raised":
        run.probe("raised")
        return
    run.sim_ns += int(full_d.ts[-1] - full_d.ts[0])
    near = sorted({i for i in _ints(job) if 1 <= i < n}) or [1]      # restarts around the window lengths
    for frac, mode, off in pl["cutpts"]:
        k = max(1, min(n - 1, int(frac * n))) if n > 1 else 1
        if off is not None:
            k = max(1, min(n - 1, near[int(frac * len(near))] + off))
        if pl["late"]:
            k = max(1, n - 1 - int(frac * 3))
        if mode == 0:
            if k < work.min_n(job):
                continue
            d = _hollow(data.D(pl["tape"], upto=k), pl["gone"])
            run.fault("restart")
            fresh.restore()
        else:
            d = _hollow(data.D(pl["tape"], mutate_from=k, mut=mode), pl["gone"])
            run.fault("other-future")
        other = work.outcome(job, d)
        run.sig(k, mode)
        run.log(k, mode, other[0])
        if other[0] == "raised":
            run.probe("raised-prefix" if mode == 0 else "raised-future")
            continue
        run.nontrivial = True
        run.sub += 1
        kk = k
        df = data.same(_series(job, full_d, full[1], kk, n), _series(job, d, other[1], kk, n))
        if df:
            raise core.Violation("future-dependent:" + ("trend-special-case" if _special(job, full_d, d) else name), f"{job} at {k} of {n} ({'restart' if mode == 0 else 'other future'}): with the full history {df}")
