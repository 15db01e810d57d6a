"""N02: the import of a directory of archives under simulated process pools, queues and threads, with failing archives, workers, processes and disks."""
import json
import os
import re
import shutil

import numpy as np

from dst import core, hdfsim, pipe, store
from dst.checks import n01

RUNS = dict(quick=1200, thorough=80000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: process_all under a simulated process pool, multiprocessing queue and writer thread with seeded schedules, worker deaths, fork failures, bad archives and disk faults"
LEVEL_NOTE = ("Seeded search over directories of archives (good, damaged, not matching their checksum, without data, ill-named), stores that hold earlier months, date filters, worker counts, schedules of workers, callbacks and writer, "
              "worker deaths, processes that cannot be started and one disk fault in the writer; the store is compared with the archives afterwards")
RULE = "a run counts when at least two archives were imported by several workers, or a fault fired; distinct by directory, configuration, faults and schedule choices"
MEASURE = "distinct (directory, configuration, faults hit, schedule choices)"
REAL = ["scripts/binance2h5.py process_all, _process_task, _writer_thread (interpreted source as in the tree)", "TradesData.save_h5", "zipfile, pandas, PyTables, HDF5 library on scratch files"]
STUB = ["ProcessPoolExecutor/Pool, multiprocessing.Queue, Thread, Lock (simulated tasks exchanging pickled copies)", "tqdm", "Numba's compiler", "I/O errors (raised at file operations)"]
ASSUMPTIONS = ["no two archives of a directory are for the same month", "one process writes the file", "a worker process dies as a whole (no partial pickles)"]
SHRINK_LISTS = ("rows", "files", "deaths", "nofork", "earlier", "dates")
SHRINK_MIN = {"rows": 1, "files": 1}
BAD = ["trunc", "flip", "nocsv", "mismatch", "emptycsv", "cols", "notzip", "badtime"]


def setup(scratch):
    pipe.install()


def gen(rng, tier, idx):
    mk = rng.choice(["spot", "spot", "um", "cm"])
    nm = rng.choice([1, 2, 3, 3, 4, 5, 5])
    ms = sorted(rng.sample(range(5), nm))
    files = []
    for i, m in enumerate(ms):
        b = pipe.gen_month(rng, m, i)
        b["bad"] = rng.choice(BAD) if rng.random() < 0.2 else None
        files.append(b)
    workers = rng.choice([1, 2, 2, 3, 4, 8])
    fault = None
    x = rng.random()
    if x < 0.3:
        fault = dict(kind=rng.choice(["eio", "eio", "enospc", "short", "memory", "h5err"]), at=rng.randrange(rng.choice([6, 20, 60])))
        if rng.random() < 0.7:
            fault["w"] = True
    deaths = [[rng.randrange(nm), rng.randrange(rng.choice([2, 6, 16, 40]))] for _ in range(rng.choice([1, 1, 2]))] if 0.3 <= x < 0.55 else []
    nofork = [rng.randrange(workers)] if 0.55 <= x < 0.62 else []
    return dict(dir=rng.choice(n01.DIRS), base=rng.choice(["turn", "micro", "leap", "century"]), mk=mk, files=files, workers=workers, fault=fault, deaths=deaths, nofork=nofork, extra=rng.random() < 0.2, cpus=rng.choice([1, 4]),
                dates=[b["m"] for b in files if rng.random() < 0.7] if rng.random() < 0.3 else None, earlier=[[m, rng.randrange(2)] for m in range(5) if rng.random() < 0.2], frm=rng.choice(ms) if rng.random() < 0.12 else None)


def valid_plan(p):
    return bool(p["files"]) and all(b["rows"] for b in p["files"])


def cleanup(run):
    n01.cleanup(run)


def execute(run):
    pl = run.plan
    mod = pipe.install()
    root = os.path.join(run.scratch, "n", pl["dir"])
    raw = os.path.join(root, "raw")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(raw)
    run.sig(json.dumps(pl, sort_keys=True))
    base, mk = pl["base"], pl["mk"]
    names = pipe.BASES[base]
    path = os.path.join(root, "out.h5")
    good, bad = {}, {}
    for b in pl["files"]:
        ym = names[b["m"]]
        z = pipe.archive("BTCUSDT", base, mk, b)
        f = os.path.join(raw, f"BTCUSDT-trades-{ym}.zip")
        d = pipe.digest(z)
        k = b["bad"]
        if k == "trunc":
            z = z[:len(z) * 2 // 3]
        elif k == "flip":
            p = z.index(b".csv") + 8
            z = z[:p] + bytes([z[p] ^ 0x10]) + z[p + 1:]
        elif k == "notzip":
            z = b"<html></html>"
        elif k == "mismatch":
            d = d[:-1] + ("0" if d[-1] != "0" else "1")
        elif k:
            z = _special(k, ym, mk)
            d = pipe.digest(z)
        with open(f, "wb") as g:
            g.write(z)
        if b["chk"] or k == "mismatch":
            with open(f + ".CHECKSUM", "w") as g:
                g.write(f"{d}  {os.path.basename(f)}\n")
        (bad if k else good)[ym] = b
    if pl["extra"]:
        for n, c in (("BTCUSDT-trades-2021-01.zip.part", b"PK"), ("notes.txt", b"x")):
            with open(os.path.join(raw, n), "wb") as g:
                g.write(c)
    dates = None if pl["dates"] is None else [names[m] for m in pl["dates"]]
    frm = None if pl["frm"] is None else names[pl["frm"]]
    had = {}
    for m, over in pl["earlier"]:               # months the file holds already
        b = dict(pipe_month(m), tag=50 + m)
        r = pipe.truth(base, mk, b)
        from finmlkit.bar.data_model import TradesData
        td = TradesData(np.array([x[0] for x in r], dtype=np.int64), np.array([x[1] for x in r]), np.array([x[2] for x in r]), np.array([x[4] for x in r], dtype=np.int64), is_buyer_maker=np.array([x[3] < 0 for x in r]), timestamp_unit="ns", preprocess=True)
        td.save_h5(path, month_key=names[m])
        had[names[m]] = sorted(x[:4] for x in r)
    disk = hdfsim.Disk(run, root)
    pipe.WORLD[0] = pipe.Exchange(run, disk)
    want = {ym: pipe.rows(base, mk, b) for ym, b in good.items() if (dates is None or not dates or ym in dates) and (frm is None or ym >= frm)}
    asked_bad = [ym for ym in bad if (dates is None or not dates or ym in dates) and (frm is None or ym >= frm)]
    kw = dict(workers=pl["workers"])
    if dates is not None:
        kw["dates"] = dates
    if frm is not None:
        kw["from_date"] = frm
    what = f"process_all({kw}), fault {pl['fault']}, deaths {pl['deaths']}, nofork {pl['nofork']}"
    with disk:
        o = pipe.start(run, disk, lambda: mod.process_all(raw, path, **kw), sched=dict(cpus=pl["cpus"], deaths=pl["deaths"], nofork=pl["nofork"], max_steps=60000), fault=pl["fault"])
        what += f": {o}"
        died, nofork = run.faults["worker-death"] > 0, run.faults["fork-failure"] > 0
        disturbed = o.fired or died or nofork
        if (len(want) > 1 and pl["workers"] > 1) or disturbed:
            run.nontrivial = True
        if o.raised is not None and not disturbed:
            raise core.Violation(f"import-failed:{type(o.raised).__name__}", f"{what}\n{core.tb_tail(o.raised)}")
        # (a CHECKSUM file that the operating system cannot read counts as missing)
        blind = o.fired and disk.fired_at[0] in ("open-read", "read-file") and disk.fired_at[1].endswith(".CHECKSUM")
        stored = {}
        g = pipe.groups(path, "trades") if os.path.exists(path) else []
        for ym in g:
            r = store.load_key(run, path, ym, what=what)
            stored[ym] = [] if isinstance(r, str) else sorted(r)
        run.sig(sorted((ym, len(r)) for ym, r in stored.items()))
        missing = []
        for ym in sorted(set(stored) | set(want) | set(had)):
            run.sub += 1
            s, w, h = stored.get(ym), want.get(ym), had.get(ym)
            if w is None:
                if s != h and not (blind and ym in asked_bad and bad[ym]["bad"] == "mismatch"):
                    raise core.Violation("foreign-month", f"{what}: {ym} holds {str(s)[:300]}, it was {str(h)[:200]}; no readable archive asked for")
                continue
            if s == w:
                continue
            if s is not None and s != h and not (o.fired and all(x in w for x in s)):
                raise core.Violation("month-content", f"{what}: {ym} holds {str(s)[:400]}, its archive {str(w)[:300]}; printed {o.prints[-8:]}")
            missing.append(ym)
        lost = len(missing) + len([ym for ym in asked_bad if not (blind and bad[ym]["bad"] == "mismatch")])
        if missing and not disturbed:
            raise core.Violation("month-lost", f"{what}: not stored: {missing}; archives that cannot be loaded: {asked_bad}; printed {o.prints[-10:]}")
        if o.fired and not died and not nofork and len(missing) > 1 and pl["fault"]["kind"] not in ("enospc", "short") and o.raised is None:
            raise core.Violation("not-isolated", f"{what}: one failure of {disk.fired_at}, lost {missing}; printed {o.prints[-10:]}")
        named = set()
        for p in o.prints:
            if re.search(r"error|fail|mismatch", p, re.I):
                named |= set(re.findall(r"\d{4}-\d{2}", p))
        if o.raised is None:
            said = max(o.errors, sum(1 for p in o.prints if re.search(r"error|fail", p, re.I)))
            if said < lost:
                raise core.Violation("not-reported", f"{what}: months {missing + asked_bad} are not stored, reported errors: {o.errors}; printed {o.prints[-10:]}")
        if not disturbed and o.errors > len(asked_bad):
            raise core.Violation("false-error", f"{what}: {o.errors} errors counted, archives that cannot be loaded: {asked_bad}")
        # the same import again, undisturbed, completes it
        if disturbed:
            run.log("again")
            o = pipe.start(run, disk, lambda: mod.process_all(raw, path, **kw), sched=dict(max_steps=60000))
            if o.raised is not None:
                raise core.Violation(f"import-failed:{type(o.raised).__name__}", f"again after {what}: {o}\n{core.tb_tail(o.raised)}")
            for ym in sorted(want):
                r = store.load_key(run, path, ym, what="again after " + what)
                run.sub += 1
                if isinstance(r, str) or sorted(r) != want[ym]:
                    raise core.Violation("not-repaired", f"again after {what}: {ym} holds {str(r)[:300]}, its archive {str(want[ym])[:300]}")


def pipe_month(m):
    return dict(m=m, off=5 * 10 ** 6, rows=[[0, 1.0, 0], [1000, 2.0, 1]], lost=False)


def _special(k, ym, mk):
    import io
    import zipfile
    text = {"emptycsv": "", "cols": "1,2,3\n4,5,6\n", "badtime": "1,10.0,1.0,10.0,soon,True,True\n", "nocsv": "x"}[k]
    z = io.BytesIO()
    with zipfile.ZipFile(z, "w") as f:
        f.writestr(zipfile.ZipInfo("readme.txt" if k == "nocsv" else f"BTCUSDT-trades-{ym}.csv", (2021, 1, 1, 0, 0, 0)), text)
    return z.getvalue()
