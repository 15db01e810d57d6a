"""D02: a feed that loses, re-sends and reorders trades; the reports of the batch and of the month it is saved to must state exactly what was lost."""
import json
import os
import shutil

import numpy as np
import pandas as pd

from dst import core, feed, seams

RUNS = dict(quick=5000, thorough=200000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: simulated lossy feed; reports of the batch and of the stored months compared with what the simulator lost"
LEVEL_NOTE = ("Seeded search over trades, losses, deliveries and histories of saves, overwrites and appends over several months; missing share, gap list and flag are compared with the losses the simulator decided, "
              "before and after the trip through the file")
RULE = "a run counts when a batch with lost or re-delivered trades was reported on and read back from a file; distinct by trades, losses, deliveries and history"
MEASURE = "distinct (trades, losses, deliveries, history of saves)"
REAL = ["TradesData integrity scan and save_h5, H5Inspector (interpreted source)", "pandas HDFStore, PyTables, HDF5 on a scratch file"]
STUB = ["Numba's compiler", "the exchange feed (the run decides losses, order and copies)"]
ASSUMPTIONS = ["lost trades before the first or after the last received one cannot be known", "for a month that was appended to, the share of missing ids need only lie between those of its parts"]
SHRINK_LISTS = ("ops", "loss", "hist", "batches")
SHRINK_MIN = {"ops": 1, "batches": 1}
MONTHS = ["2021-01", "2020-02", "2024-12"]
T0 = [1609459200, 1580515200, 1733011200]


def setup(scratch):
    seams.install()


def gen(rng, tier, idx):
    batches = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        m = rng.randrange(len(MONTHS))
        n = rng.choice([1, 2, 3, 5, 8, 12, 20, 40 if tier == "quick" else 120])
        tp = feed.gen_truth(rng, n, unit=rng.choice(["ms", "ms", "us", "s", "ns"]), gaps=True, start=T0[m] + rng.choice([0, 5, 86400 * rng.randrange(0, 9)]))
        per = 10 ** 9 // feed.UNIT[tp["unit"]]
        for o in tp["ops"]:
            o[0] = min(o[0], 86400 * per // 8) if n > 20 else o[0]
        loss = []
        if rng.random() < 0.8:
            for _ in range(rng.choice([1, 1, 2, 3])):
                loss.append([rng.randrange(n), rng.choice([1, 1, 2, 3, 7])])
        batches.append(dict(m=m, tape=tp, loss=loss, net=feed.gen_net(rng, n), side=rng.choice(["maker", "none"])))
    hist = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        hist.append([rng.randrange(len(batches)), rng.choice(["over", "over", "app"]), rng.random() < 0.12, rng.random() < 0.3])
    return dict(batches=batches, hist=hist, res=rng.choice([None, None, "ms", "s"]))


def valid_plan(p):
    return all(b["tape"]["ops"] for b in p["batches"]) and all(h[0] < len(p["batches"]) for h in p["hist"])


def cleanup(run):
    shutil.rmtree(os.path.join(run.scratch, "d02"), ignore_errors=True)


def _received(b):
    t = feed.Truth(b["tape"])
    gone = set()
    for at, k in b["loss"]:
        gone.update(range(at, at + k))
    rows = [r for i, r in enumerate(t.rows) if i not in gone]
    return t, (rows or t.rows[:1]), len(t.rows)


def _expect(rows, f, dup):
    rows = sorted(rows)
    gaps, lost = [], 0
    for a, b in zip(rows, rows[1:]):
        k = b[0] - a[0] - 1
        lost += k
        if k and (b[1] - a[1]) * f > 60 * 10 ** 9:
            gaps.append((a[0], b[0], k, a[1] * f, b[1] * f))
    return dict(pct=lost / len(rows) * 100, gaps=gaps, ok=not (dup or gaps), lost=lost)


def _close(a, b):
    return abs(float(a) - b) <= 1e-9 * max(1.0, abs(b))


def _report(run, td, e, what):
    run.sub += 1
    if not _close(td.missing_pct, e["pct"]):
        raise core.Violation("missing-pct", f"{what}: {td.missing_pct} % reported, {e['pct']} % of the received number were lost")
    got = [(int(d["start_id"]), int(d["end_id"]), int(d["missing_ids"]), pd.Timestamp(d["pre_gap_time"]).value, pd.Timestamp(d["post_gap_time"]).value) for d in td.discontinuities]
    if got != e["gaps"]:
        raise core.Violation("gaps", f"{what}: reported {got}, lost {e['gaps']}")
    for d in td.discontinuities:
        if pd.Timedelta(d["time_interval"]).value != pd.Timestamp(d["post_gap_time"]).value - pd.Timestamp(d["pre_gap_time"]).value:
            raise core.Violation("gap-interval", f"{what}: {d}")
    if td.data_ok is None or bool(td.data_ok) != e["ok"]:
        raise core.Violation("flag", f"{what}: data_ok={td.data_ok}, expected {e['ok']}")


def _same_info(a, b):
    if a is None or b is None:
        return a is b
    return a.reset_index(drop=True).equals(b.reset_index(drop=True))


def execute(run):
    from finmlkit.bar.data_model import TradesData
    from finmlkit.bar.io import H5Inspector
    pl = run.plan
    root = os.path.join(run.scratch, "d02")
    shutil.rmtree(root, ignore_errors=True)
    path = os.path.join(root, "a.h5")
    run.sig(json.dumps(pl, sort_keys=True))
    made = {}

    def make(i):
        if i in made:
            return made[i]
        b = pl["batches"][i]
        t, rows, n = _received(b)
        order = feed.deliver(run, rows, b["net"])
        run.sig(order)
        if len(rows) < n:
            run.fault("lost-trade", n - len(rows))
        ts, px, am, ids, mk = feed.arrays(rows, order)
        td = run.call("TradesData", TradesData, ts, px, am, ids, is_buyer_maker=mk if b["side"] == "maker" else None, timestamp_unit=t.unit, preprocess=True, proc_res=pl["res"], name="X")
        e = _expect(rows, t.f, len(order) > len(rows))
        _report(run, td, e, f"batch {i}")
        if e["lost"] or len(order) > len(rows):
            run.nontrivial = True
        if e["gaps"]:
            run.probe("large-gap")
        made[i] = (td, e, MONTHS[b["m"]], (max(r[1] for r in t.rows) - min(r[1] for r in t.rows)) * t.f)
        run.sim_ns += made[i][3]
        return made[i]

    for i in range(len(pl["batches"])):
        make(i)
    state = {}                                  # month -> dict(flags, gaps, pcts, rows)
    for h, (i, how, raw, keyed) in enumerate(pl["hist"]):
        td, e, month, _ = made[i]
        if raw:                                 # trades that were never scanned: nothing is known about their integrity
            td = TradesData(td.data["timestamp"].values.copy(), td.data["price"].values.copy(), td.data["amount"].values.copy(), side=td.data["side"].values.copy(), timestamp_unit="ns")
            e = dict(ok=None, gaps=[], pct=0.0)
        over = how == "over"
        key = month if keyed else None
        if key is None:
            first = pd.to_datetime(td.data["timestamp"].iloc[0], unit="ns")
            month = f"{first.year:04d}-{first.month:02d}"
        if not over and month in state and state[month]["raw"] != raw:
            continue                            # different columns: HDF5 tables cannot be appended to, the save is refused
        got = run.call("save_h5", td.save_h5, path, month_key=key, overwrite_month=over, **({"chunksize": 1 + run.choose(5)} if run.flip(1, 3) else {}))
        if got != f"/trades/{month}":
            raise core.Violation("key", f"{got} for {month}")
        if over or month not in state:
            state[month] = dict(flags=[e["ok"]], gaps=list(e["gaps"]), pcts=[e["pct"]], rows=len(td.data), raw=raw)
        else:
            s = state[month]
            s["flags"].append(e["ok"])
            s["gaps"] += e["gaps"]
            s["pcts"].append(e["pct"])
            s["rows"] += len(td.data)
            run.probe("append")
        run.log("saved", h, month, how, state[month]["rows"])
        if len(state) > 1:
            run.probe("several-months")
        _stored(run, H5Inspector(path), state, f"after save {h}")


def _stored(run, ins, state, what):
    keys = run.call("list_keys", ins.list_keys)
    if sorted(keys) != sorted(f"/trades/{m}" for m in state):
        raise core.Violation("keys", f"{what}: {keys} for {sorted(state)}")
    exp_bad = {}
    for m, s in sorted(state.items()):
        k = f"/trades/{m}"
        run.sub += 1
        meta = run.call("get_metadata", ins.get_metadata, k)
        if any(f is False for f in s["flags"]):
            ok = False
        else:
            ok = None if any(f is None for f in s["flags"]) else True
        g = meta["data_integrity_ok"]
        g = None if g is None or g is pd.NaT or (not isinstance(g, (bool, np.bool_)) and pd.isna(g)) else bool(g)
        if g is not ok:
            raise core.Violation("stored-flag", f"{what} {m}: {g}, expected {ok} ({s['flags']})")
        if int(meta["record_count"]) != s["rows"]:
            raise core.Violation("stored-count", f"{what} {m}: {meta['record_count']}, {s['rows']} rows saved")
        p = float(meta["missing_pct"])
        if not (min(s["pcts"]) - 1e-9 <= p <= max(s["pcts"]) + 1e-9) or (len(s["pcts"]) == 1 and not _close(p, s["pcts"][0])):
            raise core.Violation("stored-pct", f"{what} {m}: {p}, expected {s['pcts']}")
        if max(s["pcts"]) - min(s["pcts"]) > 1e-9 and not min(s["pcts"]) < p < max(s["pcts"]):     # every part has trades, so every part counts
            raise core.Violation("stored-pct", f"{what} {m}: {p}, which leaves out a part of {s['pcts']}")
        info = run.call("get_integrity_info", ins.get_integrity_info, k)
        if not s["gaps"]:
            if info is not None and len(info):
                raise core.Violation("stored-gaps", f"{what} {m}: {info.values.tolist()}, no gap was reported for this batch")
        else:
            if info is None:
                raise core.Violation("stored-gaps", f"{what} {m}: nothing stored, expected {s['gaps']}")
            rows = [(int(r.start_id), int(r.end_id), int(r.missing_ids), pd.Timestamp(r.pre_gap_time_str).value, pd.Timestamp(r.post_gap_time_str).value) for r in info.itertuples()]
            if rows != s["gaps"]:
                raise core.Violation("stored-gaps", f"{what} {m}: {rows}, expected {s['gaps']}")
            for r in info.itertuples():
                if pd.Timedelta(r.time_interval_str).value != pd.Timestamp(r.post_gap_time_str).value - pd.Timestamp(r.pre_gap_time_str).value:
                    raise core.Violation("stored-interval", f"{what} {m}: {r}")
        if ok is False:
            exp_bad[m] = (meta, info)
    summ = run.call("get_integrity_summary", ins.get_integrity_summary, verbose=run.flip(1, 2))
    if summ is None:
        if exp_bad:
            raise core.Violation("summary", f"{what}: nothing reported, damaged months {sorted(exp_bad)}")
        return
    if sorted(summ) != sorted(exp_bad):
        raise core.Violation("summary", f"{what}: reports {sorted(summ)}, damaged months {sorted(exp_bad)}")
    for m, (meta, info) in exp_bad.items():
        if summ[m]["metadata"] != meta or summ[m]["key"] != f"/trades/{m}" or not _same_info(summ[m]["discontinuities"], info):
            raise core.Violation("summary-content", f"{what}: {m}: {summ[m]}")
