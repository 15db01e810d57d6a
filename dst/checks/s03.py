"""S03: months are loaded by simulated worker processes: schedules, deaths, failing forks, read errors and damaged months."""
import json
import os
import shutil

import pandas as pd

from dst import core, hdfsim, procsim, seams, store
from dst.checks import s02

RUNS = dict(quick=2200, thorough=120000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: process pool with seeded schedules, worker deaths, fork failures and read faults; comparison with the stored trades and with sequential loading"
LEVEL_NOTE = ("Seeded search over stores, queries, worker counts, interleavings of workers and result collection, deaths of workers at any HDF5 operation, forks that fail, read errors (one-time and persisting)")
RULE = "a run counts when a load of several months ran in worker processes; distinct by store, query, faults and schedule choices"
MEASURE = "distinct (store, query, worker count, faults, schedule choices)"
REAL = ["TradesData.load_trades_h5, _load_single_h5_group (interpreted source)", "pandas HDFStore, PyTables, HDF5 library on scratch files"]
STUB = ["worker processes and ProcessPoolExecutor/as_completed (simulated tasks exchanging pickled copies)", "read errors (raised at PyTables operations)", "Numba's compiler"]
ASSUMPTIONS = ["the file is not written while it is loaded"]
SHRINK_LISTS = ("rows", "loads", "batches", "deaths", "nofork", "bad")
SHRINK_MIN = {"rows": 1, "batches": 1, "loads": 1}


def setup(scratch):
    s02.setup(scratch)


def gen(rng, tier, idx):
    nm = rng.choice([2, 3, 4, 5])
    batches = []
    for m in range(nm):
        for _ in range(rng.choice([1, 1, 1, 2])):
            batches.append(store.gen_shared(rng, 1) if rng.random() < 0.5 else store.gen_batch(rng, m=m))
            batches[-1]["m"] = m
            if rng.random() < 0.1:
                batches[-1]["off"] = 31 * 86400 * 10 ** 9 - 10 ** 9
                batches[-1]["rows"][-1][0] = 2 * 10 ** 9                  # overlaps the next month
    loads = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        q = s02._ask(rng)
        q["mp"] = rng.random() < 0.92
        if rng.random() < 0.9:
            q["key"] = None
        if rng.random() < 0.5:
            q["a"], q["b"] = dict(q["a"], k="none"), dict(q["b"], k="none")
        q["deaths"] = [[rng.randrange(4), rng.choice([0, 1, 2, 3, 4, 5, 9, 99])] for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        q["nofork"] = [rng.randrange(3)] if rng.random() < 0.06 else []
        q["bad"] = [store.MONTHS[rng.randrange(nm)] for _ in range(rng.choice([1, 1, 2, 5]))] if rng.random() < 0.2 else []
        q["fault"] = dict(kind=rng.choice(["eio", "memory", "h5err"]), at=rng.randrange(30)) if rng.random() < 0.3 else None
        loads.append(q)
    return dict(batches=batches, loads=loads)


def valid_plan(p):
    return all(b["rows"] for b in p["batches"])


def cleanup(run):
    s02.cleanup(run)
    shutil.rmtree(os.path.join(run.scratch, "s03"), ignore_errors=True)


def execute(run):
    from finmlkit.bar.data_model import TradesData
    pl = run.plan
    root = os.path.join(run.scratch, "s03")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    path = os.path.join(root, "t.h5")
    run.sig(json.dumps(pl, sort_keys=True))
    stored = {}
    with hdfsim.Disk(run, root) as disk:
        for bi, b in enumerate(pl["batches"]):
            m = store.MONTHS[b["m"]]
            run.call("save_h5", run.call("TradesData", store.trades, b, bi).save_h5, path, month_key=m, overwrite_month=False)
            stored[m] = stored.get(m, []) + store.rows(b, bi)
        before = open(path, "rb").read()
        for li, q in enumerate(pl["loads"]):
            key = None if q["key"] is None else sorted(stored)[q["key"] % len(stored)]
            (a, arg_a), (z, arg_z) = s02.bound(q["a"], stored, pl), s02.bound(q["b"], stored, pl)
            if a is not None and z is not None and a > z:
                a, arg_a, z, arg_z = z, arg_z, a, arg_a
            full = s02.expected(stored, key, a, z)
            kw = dict(key=key, start_time=arg_a, end_time=arg_z)
            mpkw = dict(enable_multiprocessing=q["mp"], n_workers=q["workers"])
            if q["groups"]:
                mpkw["min_groups_for_mp"] = q["groups"]
            what = f"load {li}: {kw} {mpkw} cpus {q['cpus']}, deaths {q['deaths']}, failing forks {q['nofork']}, unreadable {q['bad']}, fault {q['fault']}"
            run.log("load", li)

            def load(**k):
                try:
                    return store.of_frame(TradesData.load_trades_h5(path, **kw, **k).data)
                except (core.Violation, core.HarnessError, core.RunTimeout):
                    raise
                except (Exception, core.SimCrash) as e:
                    return e
            seq = load(enable_multiprocessing=False)
            run.sub += 1
            seams.CAPTURE.records.clear()
            disk.bad = tuple("/trades/" + m for m in q["bad"])
            disk.arm(q["fault"])
            with procsim.Sched(run, cpus=q["cpus"], deaths=q["deaths"], nofork=q["nofork"]) as s:
                got = load(**mpkw)
            fired, inside = disk.fired, disk.fired_in
            disk.disarm()
            disk.bad = ()
            if s.forks:
                run.nontrivial = True
                run.probe("workers")
            errors = " ".join(m for l, m in seams.CAPTURE.records)
            left_out = [m for m in sorted(stored) if "/trades/" + m in errors]
            if not fired and not q["bad"]:
                if left_out:
                    raise core.Violation("spurious-error", f"{what}: {errors[:300]}")
                if isinstance(got, BaseException) != isinstance(seq, BaseException) or (isinstance(got, BaseException) and type(got) is not type(seq)) or (not isinstance(got, BaseException) and got != seq):
                    raise core.Violation("parallel-differs", f"{what}: {str(got)[:300]} / sequential: {str(seq)[:300]}")
                if not isinstance(got, BaseException):
                    s02.check_rows(got, full, stored, key, what)
                elif full:
                    raise core.Violation("refused", f"{what}: {type(got).__name__} {got}")
                continue
            # faults hit reads: whole months may be missing, if an error names them
            rest = {m: r for m, r in stored.items() if m not in left_out}
            exp = s02.expected(rest, key, a, z)
            if isinstance(got, BaseException):
                run.probe("load-refused")
                if isinstance(got, core.SimCrash):
                    raise core.Violation("crash", what)
                by_design = fired and inside is None               # the program's own read of the file failed
                if exp and not by_design:
                    raise core.Violation("gave-up", f"{what}: {type(got).__name__} {got}; still readable {exp[:3]}")
                continue
            if not exp and not got:
                raise core.Violation("empty-result", what)
            if left_out:
                run.probe("month-left-out")
            if sorted(got) != sorted(exp):
                # a month may be named although its rows could be had by another attempt
                named = s02.expected({m: r for m, r in stored.items() if m in left_out}, key, a, z)
                missing = [x for x in full if x not in got]
                extra = [x for x in got if x not in full]
                if extra or len(got) > len(full) or any(x not in named for x in missing):
                    raise core.Violation("silent-loss", f"{what}: {len(got)} rows; missing {missing[:4]}, unexpected {extra[:4]}; errors: {errors[:300]}")
                for m in left_out:
                    r = s02.expected({m: stored[m]}, key, a, z)
                    k = sum(x in got for x in r)
                    if k not in (0, len(r)):
                        raise core.Violation("part-of-month", f"{what}: {m}: {k} of {len(r)} rows")
            if any(p[0] > n[0] for p, n in zip(got, got[1:])):
                raise core.Violation("order", what)
        if open(path, "rb").read() != before:
            raise core.Violation("file-changed", "loading changed the file")
