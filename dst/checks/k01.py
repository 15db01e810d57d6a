"""K01: builds of one-second klines over a file, interrupted and disturbed at HDF5 operations, and repeated."""
import json
import os
import resource
import shutil

import numpy as np
import pandas as pd

from dst import core, hdfsim, procsim, seams, store
from dst.checks import s02

RUNS = dict(quick=750, thorough=50000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: kline builds with crash points, errors, full disks and damaged months at HDF5 operations, builds repeated; comparison with an undisturbed build"
LEVEL_NOTE = ("Seeded search over files of several months, build histories (whole file, single months, overwriting or not, trades changed in between) and fault points inside them (every PyTables operation: kill, I/O error, full disk, "
              "failing allocation, user interrupt; file size limits enforced by the operating system; months that cannot be read)")
RULE = "a run counts when a fault fired inside a build and the build was repeated and compared; distinct by file, history, fault points and outcomes"
MEASURE = "distinct (file, history, fault kind and point, outcome per month)"
REAL = ["AddTimeBarH5, TimeBarReader, TimeBarKit (interpreted source)", "TradesData.save_h5/load_trades_h5", "pandas HDFStore, PyTables, HDF5 library on scratch files"]
STUB = ["Numba's compiler", "process death (files are put back to the bytes the operating system had at the fault point)", "I/O errors (raised at PyTables operations; file size limits are real)"]
ASSUMPTIONS = ["a kill falls between PyTables operations: one flush inside the HDF5 library is atomic", "the machine itself does not lose power (HDF5 does not sync)", "one process writes the file at a time"]
SHRINK_LISTS = ("rows", "hist", "batches", "first")
SHRINK_MIN = {"rows": 1, "batches": 1, "hist": 1}
KINDS = ["kill", "kill", "kill", "eio", "enospc", "short", "memory", "h5err", "interrupt"]


def setup(scratch):
    s02.setup(scratch)


def _batch(rng, m):
    b = store.gen_batch(rng, m=m, n=rng.choice([1, 2, 3, 6]), gaps=False)
    for r in b["rows"]:
        r[0] = rng.choice([0, 1, 10 ** 6, 5 * 10 ** 8, 10 ** 9, 3 * 10 ** 9])
    return b


def _fault(rng):
    if rng.random() < 0.12:
        return dict(kind="limit", at=rng.choice([0, 1, 100, 4096, 65536, 10 ** 6, 2 * 10 ** 6, 16 * 2 ** 20, 17 * 2 ** 20, rng.randrange(20 * 2 ** 20)]))
    if rng.random() < 0.7:
        return dict(kind=rng.choice(KINDS), at=rng.randrange(rng.choice([8, 16, 40])), w=True)
    return dict(kind=rng.choice(KINDS), at=rng.randrange(rng.choice([8, 30, 60, 120])))


def gen(rng, tier, idx):
    nm = rng.choice([1, 2, 3, 3, 4])
    batches = [_batch(rng, m) for m in range(nm)]
    hist = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        k = rng.choice(["all", "all", "all", "key", "key", "save"])
        hist.append(dict(k=k, over=rng.random() < 0.35, m=rng.randrange(nm), plain=rng.random() < 0.4, subset=rng.random() < 0.2, fault=_fault(rng) if rng.random() < 0.75 else None, bad=[rng.randrange(nm)] if rng.random() < 0.1 else [],
                         batch=_batch(rng, 0) if k == "save" else None))
    return dict(batches=batches, hist=hist, stub=rng.random() < 0.1, first=[m for m in range(nm) if rng.random() < 0.3])


def valid_plan(p):
    n = len(p["batches"])
    return all(b["rows"] for b in p["batches"]) and [b["m"] for b in p["batches"]] == list(range(n)) and all(h["m"] < n and all(x < n for x in h["bad"]) and (h["batch"] is None or h["batch"]["rows"]) for h in p["hist"]) and all(x < n for x in p["first"])


def cleanup(run):
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    s02.cleanup(run)
    shutil.rmtree(os.path.join(run.scratch, "k01"), ignore_errors=True)


def same(a, b):
    return a.shape == b.shape and list(a.columns) == list(b.columns) and (a.index == b.index).all() and all(np.array_equal(a[c].values, b[c].values, equal_nan=True) for c in a.columns)


def execute(run):
    from finmlkit.bar.data_model import TradesData
    from finmlkit.bar.io import AddTimeBarH5, TimeBarReader
    from finmlkit.bar.kit import TimeBarKit
    pl = run.plan
    root = os.path.join(run.scratch, "k01")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    path = os.path.join(root, "t.h5")
    run.sig(json.dumps(pl, sort_keys=True))
    months = [store.MONTHS[m] for m in range(len(pl["batches"]))]
    trades, ref, built = {}, {}, {}             # built: month -> list of contents its klines may have now (None: not there)

    def reference(m, rows_of):
        """One-second bars of the month's trades."""
        r = sorted((x for tag, b in rows_of for x in store.rows(b, tag)), key=lambda x: x[0])
        ts = np.array([x[0] for x in r], dtype=np.int64)
        td = TradesData(ts, np.array([x[1] for x in r]), np.array([x[2] for x in r], dtype=np.float32), side=np.array([x[3] for x in r], dtype=np.int8), dt_index=pd.to_datetime(ts, unit="ns"))
        return TimeBarKit(td, period=pd.Timedelta(seconds=1)).build_ohlcv()

    parts = {}
    disk = hdfsim.Disk(run, root)

    def look(what):
        """Trades of every month, then the klines the reader shows."""
        for m in months:
            got = store.load_key(run, path, m, what=what)
            run.sub += 1
            if isinstance(got, str) or store.key(got) != store.key(trades[m]):
                raise core.Violation("trades-changed", f"{what}: {m}: {str(got)[:300]}, stored {str(trades[m])[:300]}")
        whole = run.call(f"{what}: read", TimeBarReader(path).read)
        left = whole
        shown = {}
        for m in sorted(months):
            opts = built[m]
            hit = None
            for o in sorted((o for o in opts if o is not None), key=len, reverse=True):
                if len(left) >= len(o) and same(left.iloc[:len(o)], o):
                    hit = o
                    break
            if hit is None:
                if all(o is not None for o in opts):
                    raise core.Violation("klines", f"{what}: klines of {m} are not what was built; reader shows\n{left.head(5).to_string()}\nallowed\n{[o.head(5).to_string() for o in opts]}")
                shown[m] = None
                continue
            left = left.iloc[len(hit):]
            shown[m] = hit
        if len(left):
            raise core.Violation("foreign-klines", f"{what}: {len(left)} rows belong to no complete build: {left.head(4).to_string()}")
        for m in months:
            built[m] = [shown[m]]
        run.sub += 1
        return shown

    with disk:
        for tag, b in enumerate(pl["batches"]):
            m = months[tag]
            store.trades(b, tag).save_h5(path, month_key=m)
            trades[m], parts[m] = store.rows(b, tag), [(tag, b)]
            ref[m] = run.call("reference", reference, m, parts[m])
            built[m] = [None]
        for i in pl["first"]:
            run.call("process_key", AddTimeBarH5(path).process_key, f"/trades/{months[i]}")
            built[months[i]] = [ref[months[i]]]
        if pl["stub"]:                          # what an interrupted save leaves of a month
            with pd.HDFStore(path, mode="a") as st:
                st._handle.create_group("/trades", "2022-05")
        look("start")
        hist = pl["hist"] + [dict(k="all", over=False, fault=None, bad=[], subset=False, m=0, plain=False)]
        for hi, h in enumerate(hist):
            last = hi == len(hist) - 1
            if h["k"] == "save":
                m = months[h["m"]]
                tag = len(pl["batches"]) + hi
                b = dict(h["batch"], m=h["m"])
                run.call("save_h5", store.trades(b, tag).save_h5, path, month_key=m, overwrite_month=h["over"])
                parts[m] = [(tag, b)] if h["over"] else parts[m] + [(tag, b)]
                trades[m] = store.rows(b, tag) if h["over"] else trades[m] + store.rows(b, tag)
                ref[m] = run.call("reference", reference, m, parts[m])
                look(f"step {hi} (save {m})")
                continue
            sel = months if h["k"] == "all" and not h["subset"] else [months[h["m"]]]
            fault = h["fault"]
            what = f"step {hi} ({'build' if h['k'] == 'all' else 'process_key'} {sel}, overwrite {h['over']}, fault {fault}, unreadable {[months[x] for x in h['bad']]})"
            run.log("build", hi)
            before = {m: built[m][0] for m in months}
            limit = fault is not None and fault["kind"] == "limit"
            disk.bad = tuple("/trades/" + months[x] for x in h["bad"])
            if not limit:
                disk.arm(fault)
            killed, raised, res = False, None, None
            seams.CAPTURE.records.clear()
            try:
                if limit:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (os.path.getsize(path) + fault["at"], resource.RLIM_INFINITY))
                a = AddTimeBarH5(path, keys=[x if h["plain"] else "/trades/" + x for x in sel] if h["subset"] else None)
                if h["k"] == "all":
                    res = a.process_all(overwrite=h["over"]) if h["over"] else a.process_all()
                else:
                    res = {"/trades/" + sel[0]: a.process_key(sel[0] if h["plain"] else "/trades/" + sel[0], overwrite=h["over"])}
            except core.SimCrash:
                killed = True
            except KeyboardInterrupt:
                raised = "KeyboardInterrupt"
            except (core.Violation, core.HarnessError, core.RunTimeout):
                raise
            except Exception as e:
                raised = e
            finally:
                disk.plan = None
                if limit:
                    disk.full = False
                    try:
                        disk.close_handles()
                    finally:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            fired = disk.fired and not limit
            full = disk.full
            if limit:
                errs = [t for _, t in seams.CAPTURE.records]
                fired = raised is not None or bool(errs)
                full = True
                if fired:
                    run.fault("file-size-limit")
            if killed:
                disk.restart()
                run.probe("restart")
            else:
                disk.full = False
                disk.close_handles()
            disk.bad = ()
            if raised is not None and not fired and not (h["bad"] and h["k"] == "key"):
                raise core.Violation(f"build-failed:{type(raised).__name__}", f"{what}: {raised}\n{core.tb_tail(raised) if isinstance(raised, Exception) else ''}")
            if fired or h["bad"]:
                run.nontrivial = True
            for m in sel:
                fresh = h["over"] or before[m] is None
                r = None if res is None else res.get("/trades/" + m)
                if killed or raised is not None:
                    built[m] = [before[m]] + ([ref[m], None] if fresh else [])
                    continue
                if r is None:
                    raise core.Violation("no-result", f"{what}: {m} is not in the result {res}")
                if r and not fresh:
                    raise core.Violation("not-skipped", f"{what}: {m} was built and overwriting was not requested, reported as processed")
                if r:
                    built[m] = [ref[m]]
                elif fresh:
                    # reported as failed
                    if not fired and not (months.index(m) in h["bad"]):
                        raise core.Violation("month-failed", f"{what}: {m} reported as failed without a fault of its own: {[t for _, t in seams.CAPTURE.records][:3]}")
                    built[m] = [before[m], ref[m], None]
            if res is not None and h["k"] == "all" and fired and not full:
                failed = [m for m in sel if not res.get("/trades/" + m) and (h["over"] or before[m] is None) and months.index(m) not in h["bad"]]
                if len(failed) > 1:
                    raise core.Violation("not-isolated", f"{what}: one fault, failed months {failed}")
            if isinstance(raised, Exception) and h["k"] == "all" and fired and not limit and not run_in_init(raised):
                raise core.Violation("stopped", f"{what}: {type(raised).__name__} {raised}\n{core.tb_tail(raised)}")
            shown = look(what)
            for m in sel:
                run.sig(m, None if shown[m] is None else len(shown[m]))
            if res is not None and h["k"] == "all":
                for m in sel:
                    if shown[m] is None and res.get("/trades/" + m):
                        raise core.Violation("claimed", f"{what}: {m} reported as processed, no klines")
            if last:
                for m in months:
                    if shown[m] is None:
                        raise core.Violation("not-repaired", f"{what}: {m} has no klines after the build was run again")


def run_in_init(e):
    """The error came from listing the months, before any month was processed."""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_name == "__init__" and tb.tb_frame.f_globals.get("__name__", "").startswith("finmlkit"):
            return True
        tb = tb.tb_next
    return False
