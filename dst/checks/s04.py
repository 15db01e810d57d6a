"""S04: every report of the inspector about generated stores, under simulated pools of all sizes, against the stored trades."""
import json
import os
import shutil

import numpy as np
import pandas as pd

from dst import core, hdfsim, procsim, seams, store
from dst.checks import s02

RUNS = dict(quick=2600, thorough=150000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: store histories, inspection under a simulated multiprocessing.Pool with seeded schedules; comparison with the stored trades"
LEVEL_NOTE = ("Seeded search over store histories (overwrites, appends in any time order, overridden keys, lost ids), thresholds on and next to actual intervals, pool sizes and schedules; each report is compared with the stored trades "
              "and with the report under another pool")
RULE = "a run counts when gaps of at least two months were inspected by several workers; distinct by store, threshold, pool sizes and schedule choices"
MEASURE = "distinct (store, thresholds, pool sizes, schedule choices)"
REAL = ["H5Inspector, _find_gaps (interpreted source)", "TradesData.save_h5", "pandas HDFStore, PyTables, HDF5 library on scratch files"]
STUB = ["multiprocessing.Pool and worker processes (simulated tasks exchanging pickled copies)", "Numba's compiler"]
ASSUMPTIONS = ["the file is not written while it is inspected"]
SHRINK_LISTS = ("rows", "hist", "batches", "looks")
SHRINK_MIN = {"rows": 1, "batches": 1, "hist": 1, "looks": 1}


def setup(scratch):
    s02.setup(scratch)


def gen(rng, tier, idx):
    nm = rng.choice([1, 2, 3, 4, 5])
    batches = [(store.gen_shared if rng.random() < 0.4 else store.gen_batch)(rng, months=nm) for _ in range(rng.choice([1, 2, 3, 5, 6]))]
    hist = [dict(b=i if i < len(batches) else rng.randrange(len(batches)), how=rng.choice(["over", "app", "app"]), key=rng.choice([None, None, None, rng.randrange(5)]), peek=rng.random() < 0.25) for i in range(rng.choice([1, 2, 3, len(batches), len(batches) + 1]))]
    looks = [dict(th=dict(k=rng.choice(["own", "own", "own", "abs", "default"]), i=rng.randrange(1000), d=rng.choice([0, 0, -1, 1]), v=rng.choice([0, 1, 10 ** 6, 60 * 10 ** 9, 3600 * 10 ** 9])), procs=rng.choice([None, 1, 2, 3, 5, 8]), cpus=rng.choice([1, 4]))
             for _ in range(rng.choice([1, 2, 3]))]
    return dict(batches=batches, hist=hist, looks=looks, same=rng.random() < 0.6)


def valid_plan(p):
    return all(b["rows"] for b in p["batches"]) and all(h["b"] < len(p["batches"]) for h in p["hist"])


def cleanup(run):
    s02.cleanup(run)
    shutil.rmtree(os.path.join(run.scratch, "s04"), ignore_errors=True)


def _gap_rows(b, tag):
    r = store.frame(b, tag)
    out = []
    for a, c in zip(r, r[1:]):
        if c[4] - a[4] > 1 and c[0] - a[0] > 60 * 10 ** 9:
            out.append((a[4], c[4], c[4] - a[4] - 1, a[0], c[0]))
    return out


def execute(run):
    from finmlkit.bar.io import H5Inspector
    pl = run.plan
    root = os.path.join(run.scratch, "s04")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    path = os.path.join(root, "t.h5")
    run.sig(json.dumps(pl, sort_keys=True))
    stored, gaps, ok, pct = {}, {}, {}, {}
    ins = H5Inspector(path)          # (one inspector may be used again and again)
    with hdfsim.Disk(run, root):
        for hi, h in enumerate(pl["hist"]):
            b = pl["batches"][h["b"]]
            new, f = store.rows(b, h["b"]), store.facts(b, h["b"])
            m = str(pd.Timestamp(new[0][0]))[:7] if h["key"] is None else store.MONTHS[h["key"]]
            td = run.call("TradesData", store.trades, b, h["b"])
            run.call("save_h5", td.save_h5, path, month_key=m, overwrite_month=h["how"] == "over")
            app = h["how"] == "app" and m in stored
            stored[m] = (stored[m] if app else []) + new
            gaps[m] = (gaps[m] if app else []) + _gap_rows(b, h["b"])
            ok[m] = f["ok"] and (ok[m] if app else True)
            pct[m] = None if app else f["pct"]
            if h.get("peek"):
                _reports(run, ins if pl["same"] else H5Inspector(path), path, stored, gaps, ok, pct, pl["looks"][:1])
        _reports(run, ins if pl["same"] else H5Inspector(path), path, stored, gaps, ok, pct, pl["looks"])


def _reports(run, ins, path, stored, gaps, ok, pct, looks):
    """Every report of the inspector against what is stored now."""
    before = open(path, "rb").read()
    keys = run.call("list_keys", ins.list_keys)
    run.sub += 1
    if sorted(keys) != sorted("/trades/" + m for m in stored):
        raise core.Violation("keys", f"{keys}, stored {sorted(stored)}")
    for m in sorted(stored):
        k, r = "/trades/" + m, stored[m]
        ts = [x[0] for x in r]
        meta = run.call("get_metadata", ins.get_metadata, k)
        exp = (len(r), min(ts), max(ts))
        got = (int(meta["record_count"]), int(meta["first_timestamp"]), int(meta["last_timestamp"]))
        if got != exp:
            raise core.Violation("metadata", f"{m}: {got}, stored {exp}")
        if bool(meta["data_integrity_ok"]) != ok[m] or (pct[m] is not None and abs(meta["missing_pct"] - pct[m]) > 1e-9):
            raise core.Violation("metadata-integrity", f"{m}: {meta}; expected ok={ok[m]} pct={pct[m]}")
        st = run.call("get_statistics", ins.get_statistics, k)
        got = (int(st["record_count"]), int(st["first_timestamp"]), int(st["last_timestamp"])) + tuple(float(v) for v in st["price_range"]) + tuple(float(v) for v in st["amount_range"])
        e2 = exp + (min(x[1] for x in r), max(x[1] for x in r), min(x[2] for x in r), max(x[2] for x in r))
        if got != e2:
            raise core.Violation("statistics", f"{m}: {got}, stored {e2}")
        info = run.call("get_integrity_info", ins.get_integrity_info, k)
        rows = [] if info is None else [(int(a), int(b), int(c), pd.Timestamp(d).value, pd.Timestamp(e).value) for a, b, c, d, e in
                                        zip(info["start_id"], info["end_id"], info["missing_ids"], info["pre_gap_time_str"], info["post_gap_time_str"])]
        if sorted(rows) != sorted(gaps[m]):
            raise core.Violation("integrity-info", f"{m}: {rows}, stored with {gaps[m]}")
        run.sub += 4
    for bad in ("/trades/1999-01", "/meta/" + sorted(stored)[0]):
        for fn in (ins.get_statistics, ins.get_integrity_info) if bad.startswith("/meta") else (ins.get_metadata, ins.get_statistics, ins.get_integrity_info):
            if not bad.startswith("/meta"):
                try:
                    fn(bad)
                except KeyError:
                    continue
                raise core.Violation("no-error", f"{fn.__name__}({bad!r})")
    summ = run.call("get_integrity_summary", ins.get_integrity_summary, verbose=len(stored) % 2 == 0)
    flagged = {m for m in stored if not ok[m]}
    if set(summ or {}) != flagged:
        raise core.Violation("summary", f"{sorted(summ or {})}, months with gaps: {sorted(flagged)}")
    for m in sorted(flagged):
        d = summ[m]["discontinuities"]
        if summ[m]["key"] != "/trades/" + m or int(summ[m]["metadata"]["record_count"]) != len(stored[m]) or d is None or sorted(int(v) for v in d["start_id"]) != sorted(g[0] for g in gaps[m]):
            raise core.Violation("summary", f"{m}: {summ[m]}")
    run.sub += 1
    diffs = sorted(b - a for m in sorted(stored) for r in [sorted(x[0] for x in stored[m])] for a, b in zip(r, r[1:])) or [0]
    for li, q in enumerate(looks):
        t = q["th"]
        th = diffs[t["i"] % len(diffs)] + t["d"] if t["k"] == "own" else t["v"] if t["k"] == "abs" else 60 * 10 ** 9
        kw = {} if t["k"] == "default" else dict(max_gap=pd.Timedelta(th, unit="ns"))
        if q["procs"]:
            kw["processes"] = q["procs"]
        what = f"inspect_gaps({kw})"
        run.log("look", li)
        with procsim.Sched(run, cpus=q["cpus"]):
            got = run.call(what, ins.inspect_gaps, **kw)
        run.sub += 1
        if sorted(got) != sorted("/trades/" + m for m in stored):
            raise core.Violation("gap-months", f"{what}: {sorted(got)}, stored {sorted(stored)}")
        for m in sorted(stored):
            ts = sorted(x[0] for x in stored[m])
            exp = [(b, b - a) for a, b in zip(ts, ts[1:]) if b - a > th]
            g = [(pd.Timestamp(a).value, pd.Timedelta(b).value) for a, b in got["/trades/" + m]]
            if g != exp:
                raise core.Violation("gaps", f"{what}: {m}: {g[:6]}, the trades make {exp[:6]}")
        if len(stored) > 1 and q["procs"] != 1:
            run.nontrivial = True
    if open(path, "rb").read() != before:
        raise core.Violation("file-changed", "inspection changed the file")
