"""S01: histories of saves over several months with crashes, kills, I/O errors and full disks inside them; every month is re-read after every step."""
import json
import os
import resource
import shutil

import numpy as np
import pandas as pd

from dst import core, hdfsim, procsim, seams, store

RUNS = dict(quick=2400, thorough=120000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: HDF5 operations with crash points, errors, partial writes and full disks under save histories; comparison with a reference store"
LEVEL_NOTE = ("Seeded search over histories of overwrite and append saves and over fault points inside them (every PyTables operation: kill, I/O error, full disk, partial row write, failing allocation, user interrupt; "
              "file size limits enforced by the operating system); after every step every month is read back and compared with the reference store")
RULE = "a run counts when a fault fired inside a save and the store was compared afterwards; distinct by history, fault points and outcomes"
MEASURE = "distinct (batches, history, fault kind and point, resulting contents)"
REAL = ["TradesData.save_h5/load_trades_h5, H5Inspector (interpreted source)", "pandas HDFStore, PyTables, HDF5 library on scratch files"]
STUB = ["Numba's compiler", "process death (files are put back to the bytes the operating system had at the fault point)", "I/O errors (raised at PyTables operations; file size limits are real)"]
ASSUMPTIONS = ["a kill falls between PyTables operations: one flush inside the HDF5 library is atomic", "the machine itself does not lose power (HDF5 does not sync)", "one process writes the file at a time"]
SHRINK_LISTS = ("rows", "hist", "batches", "again")
SHRINK_MIN = {"rows": 1, "batches": 1, "hist": 1}
KINDS = ["kill", "kill", "kill", "eio", "enospc", "short", "memory", "h5err", "interrupt"]


def setup(scratch):
    procsim.install()
    seams.install()
    hdfsim.install()


def _fault(rng):
    if rng.random() < 0.12:
        return dict(kind="limit", at=rng.choice([0, 1, 100, 4096, 65536, 10 ** 6, 2 * 10 ** 6, 16 * 2 ** 20, 17 * 2 ** 20, rng.randrange(20 * 2 ** 20)]))
    return dict(kind=rng.choice(KINDS), at=rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, rng.randrange(24)]))


def gen(rng, tier, idx):
    nm = rng.choice([1, 2, 2, 3])
    batches = [store.gen_shared(rng, nm) if rng.random() < 0.5 else store.gen_batch(rng, months=nm) for _ in range(rng.choice([1, 2, 3, 4]))]
    if tier != "quick" and rng.random() < 0.1:
        batches.append(store.gen_batch(rng, n=3000, months=nm))
    hist = []
    for _ in range(rng.choice([1, 2, 3, 4, 5])):
        hist.append(dict(b=rng.randrange(len(batches)), how=rng.choice(["over", "over", "over", "app"]), fault=_fault(rng) if rng.random() < 0.6 else None, keyed=rng.random() < 0.3,
                         chunk=rng.choice([None, 1, 2, 5]), again=[_fault(rng) for _ in range(rng.choice([0, 0, 0, 1, 2]))], retry=rng.random() < 0.75, newproc=rng.random() < 0.5,
                         lib=rng.choice([None, None, "zlib", "blosc:zstd"])))
    return dict(batches=batches, hist=hist)


def valid_plan(p):
    return all(b["rows"] for b in p["batches"]) and all(h["b"] < len(p["batches"]) for h in p["hist"])


def cleanup(run):
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    hdfsim.CURRENT[0] = None
    for h in list(hdfsim.tables.file._open_files._handlers):
        try:
            h.close()
        except Exception:
            pass
    shutil.rmtree(os.path.join(run.scratch, "s01"), ignore_errors=True)


def _allowed(old, new, over, got):
    """Is `got` a state an interrupted save may leave?  old: list or None."""
    if got in ("absent", "empty"):
        got = []
        if over or not old:
            return True
    if over or old is None:
        if old is not None and store.key(got) == store.key(old):
            return True
        return any(store.key(got) == store.key(new[:k]) for k in range(len(new) + 1))
    return any(store.key(got) == store.key(old + new[:k]) for k in range(len(new) + 1))


def execute(run):
    from finmlkit.bar.data_model import TradesData
    from finmlkit.bar.io import H5Inspector
    pl = run.plan
    root = os.path.join(run.scratch, "s01")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    path = os.path.join(root, "x", "t.h5")
    run.sig(json.dumps(pl, sort_keys=True))
    disk = hdfsim.Disk(run, root)
    state = {}                                   # month -> dict(rows, known=True/False, facts)

    def read_all(what, unsure=None, old=None, new=None, over=None):
        for m in sorted({store.MONTHS[b["m"]] for b in pl["batches"]}):
            got = store.load_key(run, path, m, what=what)
            run.sub += 1
            if m == unsure:
                if not _allowed(old, new, over, got):
                    raise core.Violation("interrupted-content", f"{what}: {m} holds {str(got)[:300]}; before {str(old)[:200]}, being written {str(new)[:200]}")
                run.sig("left", "none" if got in ("absent", "empty") else len(got))
                run.probe("left-" + ("old" if old is not None and got == old else got if isinstance(got, str) else "new" if len(got) == len(new) else "part"))
                if got == "absent":
                    state.pop(m, None)
                else:
                    state[m] = dict(rows=[] if got == "empty" else got, known=False)
                continue
            s = state.get(m)
            if s is None:
                if got != "absent":
                    raise core.Violation("foreign-month", f"{what}: {m} appeared: {str(got)[:200]}")
                continue
            if not s["rows"]:
                if not isinstance(got, str):
                    raise core.Violation("content", f"{what}: {m} was empty, holds {str(got)[:200]}")
                continue
            if isinstance(got, str) or store.key(got) != store.key(s["rows"]):
                raise core.Violation("content", f"{what}: {m} holds {str(got)[:300]}, saved were {str(s['rows'])[:300]}")

    def describe(what):
        if not os.path.exists(path):
            return
        ins = H5Inspector(path)
        keys = run.call("list_keys", ins.list_keys)
        for m, s in sorted(state.items()):
            if s["known"] and f"/trades/{m}" not in keys:
                raise core.Violation("not-listed", f"{what}: {m}")
            if not s["known"]:
                continue
            meta = run.call("get_metadata", ins.get_metadata, f"/trades/{m}")
            r = s["rows"]
            exp = (len(r), min(x[0] for x in r), max(x[0] for x in r))
            got = (int(meta["record_count"]), int(meta["first_timestamp"]), int(meta["last_timestamp"]))
            if got != exp:
                raise core.Violation("metadata", f"{what}: {m}: {got}, stored {exp}")
            f = s["facts"]
            if bool(meta["data_integrity_ok"]) != f["ok"] or (f["exact"] and abs(meta["missing_pct"] - f["pct"]) > 1e-9):
                raise core.Violation("metadata-integrity", f"{what}: {m}: {meta['data_integrity_ok']}, {meta['missing_pct']} %, saved {f}")
            info = run.call("get_integrity_info", ins.get_integrity_info, f"/trades/{m}")
            if (0 if info is None else len(info)) != f["gaps"]:
                raise core.Violation("metadata-gaps", f"{what}: {m}: {0 if info is None else len(info)} gaps, saved {f['gaps']}")
        # the range query over everything
        known = [x for s in state.values() if s["known"] for x in s["rows"]]
        loose = [x for s in state.values() if not s["known"] for x in s["rows"]]
        try:
            df = TradesData.load_trades_h5(path, start_time="2019-01-01", end_time=pd.Timestamp("2022-01-01"), enable_multiprocessing=False).data
            got = store.of_frame(df)
            if not df.index.is_monotonic_increasing:
                raise core.Violation("range-order", what)
        except (KeyError, ValueError) as e:
            got = []
        except Exception as e:
            raise core.Violation(f"range:{type(e).__name__}", f"{what}: {e}")
        left = list(got)
        for x in known:
            if x not in left:
                raise core.Violation("range-lost", f"{what}: {x} is stored but a range query over all months does not return it")
            left.remove(x)
        for x in left:
            if x not in loose:
                raise core.Violation("range-foreign", f"{what}: {x}")

    with disk:
        for hi, h in enumerate(pl["hist"]):
            b = pl["batches"][h["b"]]
            m = store.MONTHS[b["m"]]
            new = store.rows(b, h["b"])
            fc = store.facts(b, h["b"])
            td = run.call("TradesData", store.trades, b, h["b"])
            attempts = [h["fault"]] + (list(h["again"]) if h["fault"] else [])
            if h["fault"] and h["retry"]:
                attempts.append(None)
            for ai, fault in enumerate(attempts):
                retry = ai > 0
                over = h["how"] == "over" or retry          # after a fault the month is saved again as a whole
                old = state[m]["rows"] if m in state else None
                kw = dict(overwrite_month=over)
                if h["keyed"]:
                    kw["month_key"] = m
                if h["chunk"]:
                    kw["chunksize"] = h["chunk"]
                if h["lib"]:
                    kw["complib"] = h["lib"]
                what = f"step {hi}.{ai} ({h['how'] if not retry else 'over'} {m}, fault {fault})"
                run.log("save", hi, ai, m, over)
                if fault is None or fault["kind"] != "limit":
                    disk.arm(fault)
                killed = raised = None
                try:
                    if fault is not None and fault["kind"] == "limit":
                        size = os.path.getsize(path) if os.path.exists(path) else 0
                        resource.setrlimit(resource.RLIMIT_FSIZE, (size + fault["at"], resource.RLIM_INFINITY))
                    td.save_h5(path, **kw)
                except core.SimCrash:
                    killed = True
                except KeyboardInterrupt:
                    raised = "KeyboardInterrupt"
                except Exception as e:
                    raised = e
                finally:
                    disk.plan = None
                    if fault is not None and fault["kind"] == "limit":
                        disk.full = False
                        try:
                            disk.close_handles()
                        finally:
                            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
                fired = disk.fired
                if fault is not None and fault["kind"] == "limit":
                    fired = raised is not None
                    if fired:
                        run.fault("file-size-limit")
                if killed:
                    disk.restart()
                    run.probe("restart")
                elif raised is not None:
                    disk.full = False
                    disk.close_handles()
                if raised is not None and not fired:
                    raise core.Violation(f"save-failed:{type(raised).__name__}", f"{what} without a fault: {raised}\n{core.tb_tail(raised) if isinstance(raised, Exception) else ''}")
                if fired and not killed and raised is None:
                    run.probe("fault-survived")             # the save coped with it: then it has to be complete
                if killed or raised is not None:
                    run.nontrivial = True
                    read_all(what, m, old, new, over)
                else:
                    if over or old is None or not state[m]["known"] or not old:
                        full = over or old is None
                        state[m] = dict(rows=list(new) if full else old + list(new), known=full, facts=dict(ok=fc["ok"], pct=fc["pct"], gaps=fc["gaps"], exact=True))
                    else:
                        f0 = state[m]["facts"]
                        state[m] = dict(rows=old + list(new), known=True, facts=dict(ok=f0["ok"] and fc["ok"], pct=0.0, gaps=f0["gaps"] + fc["gaps"], exact=False))
                    read_all(what)
                describe(what)
