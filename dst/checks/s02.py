"""S02: histories of overwriting and appending saves, with key and range queries in between; parallel loads run under simulated worker schedules."""
import json
import os
import shutil

import numpy as np
import pandas as pd

from dst import core, hdfsim, procsim, seams, store

RUNS = dict(quick=3000, thorough=150000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: save/query histories against a reference store, parallel loads under a simulated process pool with seeded schedules"
LEVEL_NOTE = ("Seeded search over histories of saves (derived and overridden month keys, appends in any time order, overwrites) and over key and range queries whose bounds sit on, next to and between stored trades; "
              "every answer is compared with a reference store")
RULE = "a run counts when a query that selects a proper part of the store was answered and compared; distinct by history and queries"
MEASURE = "distinct (batches, history, queries, schedule choices)"
REAL = ["TradesData.save_h5/load_trades_h5 (interpreted source)", "pandas HDFStore, PyTables, HDF5 library on scratch files"]
STUB = ["Numba's compiler", "worker processes (simulated tasks exchanging pickled copies)"]
ASSUMPTIONS = ["all saves of a file have the same columns", "query bounds carry no time zone"]
SHRINK_LISTS = ("rows", "hist", "batches", "ask")
SHRINK_MIN = {"rows": 1, "batches": 1, "hist": 1}


def setup(scratch):
    procsim.install()
    seams.install()
    hdfsim.install()


def _bound(rng):
    k = rng.choice(["none", "trade", "trade", "trade", "month", "abs", "day"])
    return dict(k=k, i=rng.randrange(1000), d=rng.choice([0, 0, 0, -1, 1, 1000, -10 ** 6, 10 ** 9]), m=rng.randrange(7), s=rng.random() < 0.5)


def _ask(rng):
    return dict(key=None if rng.random() < 0.65 else rng.randrange(6), a=_bound(rng), b=_bound(rng), mp=rng.random() < 0.6, workers=rng.choice([None, None, 1, 2, 3, 8]), groups=rng.choice([None, None, None, 1, 3]),
                cpus=rng.choice([1, 2, 4, 8]), views=[[_bound(rng), _bound(rng)] for _ in range(rng.choice([0, 0, 0, 1, 2, 3]))], resave=rng.random() < 0.15)


def gen(rng, tier, idx):
    nm = rng.choice([1, 2, 3, 4, 5])
    mk = rng.choice([store.gen_shared, store.gen_batch])
    batches = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        b = mk(rng, months=nm) if rng.random() < 0.7 else store.gen_batch(rng, months=nm)
        if rng.random() < 0.12:
            b = store.gen_batch(rng, n=rng.choice([40, 80]), months=nm)
            for r in b["rows"]:
                r[0] = rng.choice([0, 0, 0, 1, 10 ** 6])                    # many trades in one nanosecond
        if rng.random() < 0.08:
            b["off"] = 31 * 86400 * 10 ** 9 - 10 ** 9                        # crosses the end of its month
            b["rows"][-1][0] = 2 * 10 ** 9
        batches.append(b)
    hist, n = [], len(batches)
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        hist.append(dict(b=rng.randrange(n), how=rng.choice(["over", "app", "app", "none"]), key=rng.choice([None, None, None, "own", rng.randrange(5)]), chunk=rng.choice([None, 1, 3]),
                         lib=rng.choice([None, None, "zlib"]), mode="w" if rng.random() < 0.05 else None, ask=[_ask(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]))
    hist[-1]["ask"] = hist[-1]["ask"] or [_ask(rng)]
    return dict(batches=batches, hist=hist)


def valid_plan(p):
    return all(b["rows"] for b in p["batches"]) and all(h["b"] < len(p["batches"]) for h in p["hist"])


def cleanup(run):
    hdfsim.CURRENT[0] = None
    for h in list(hdfsim.tables.file._open_files._handlers):
        try:
            h.close()
        except Exception:
            pass
    shutil.rmtree(os.path.join(run.scratch, "s02"), ignore_errors=True)


def bound(q, stored, months):
    """A bound as (value in ns or None, argument for the call)."""
    if q["k"] == "none":
        return None, None
    allr = sorted(x[0] for k in sorted(stored) for x in stored[k])
    if q["k"] == "trade" and allr:
        v = allr[q["i"] % len(allr)] + q["d"]
    elif q["k"] == "month":
        v = store.T0[store.MONTHS[q["m"] % len(store.MONTHS)]] + min(q["d"], 0)
    elif q["k"] == "day" and allr:
        v = allr[q["i"] % len(allr)] // (86400 * 10 ** 9) * (86400 * 10 ** 9)
        return v, str(pd.Timestamp(v).date())
    else:
        v = pd.Timestamp("2018-06-01").value + q["i"] * 86400 * 10 ** 9 * 2
    ts = pd.Timestamp(v)
    return v, (str(ts) if q["s"] else ts)


def expected(stored, key, a, b):
    """(rows in answer order or None if an error is due)"""
    keys = [key] if key is not None else sorted(stored)
    out = []
    for k in keys:
        out += [x for x in stored.get(k, []) if (a is None or x[0] >= a) and (b is None or x[0] <= b)]
    out.sort(key=lambda x: x[0])
    return out


def check_rows(got, exp, stored, key, what):
    if got == exp:
        return
    if sorted(got) != sorted(exp):
        miss = [x for x in exp if x not in got]
        extra = [x for x in got if x not in exp]
        raise core.Violation("rows", f"{what}: {len(got)} rows, {len(exp)} expected; not returned {miss[:4]}, unexpected {extra[:4]}")
    if any(p[0] > q[0] for p, q in zip(got, got[1:])):
        raise core.Violation("order", f"{what}: {[x[0] for x in got][:12]}")
    for k in ([key] if key is not None else stored):
        mine, others = set(stored[k]), {x for o in stored if o != k for x in stored[o]} if key is None else set()
        if mine & others:
            continue
        g, e = [x for x in got if x in mine], [x for x in exp if x in mine]
        if g != e:
            raise core.Violation("tie-order", f"{what}: month {k}: trades with equal timestamps are not in the order they were saved in: {g[:8]} / {e[:8]}")


def views(run, q, tape, base, stored, pl, path, path2, what):
    """Windows on a loaded tape, one after another; then possibly the window is saved to a file of its own."""
    shown = base
    for a, z in q["views"]:
        (a, arg_a), (z, arg_z) = [bound(dict(x, k="trade" if x["k"] == "none" else x["k"]), stored, pl) for x in (a, z)]
        if a > z:
            a, arg_a, z, arg_z = z, arg_z, a, arg_a
        run.log("view", a, z)
        try:
            tape.set_view_range(arg_a, arg_z)
        except ValueError:
            if a < z:
                raise core.Violation("view-refused", f"{what}: window {arg_a} - {arg_z}")
        else:
            if a >= z:
                raise core.Violation("view-accepted", f"{what}: window {arg_a} - {arg_z}")
            shown = [x for x in base if a <= x[0] <= z]
        got = store.of_frame(run.call("view", lambda: tape.data))
        run.sub += 1
        if got != shown:
            raise core.Violation("view", f"{what}: window {arg_a} - {arg_z}: {len(got)} rows, {len(shown)} expected; {got[:3]} / {shown[:3]}")
        run.probe("view")
        if not shown:
            # nothing to save: refused, and the store is left alone
            m = sorted(stored)[q["a"]["i"] % len(stored)]
            kw = dict(month_key=m) if q["b"]["i"] % 4 else {}
            if q["b"]["s"]:
                kw["overwrite_month"] = bool(q["a"]["s"])
            run.probe("empty-window-saved")
            try:
                tape.save_h5(path, **kw)
            except (ValueError, IndexError):
                pass
            except (core.Violation, core.HarnessError, core.RunTimeout):
                raise
            except Exception as e:
                raise core.Violation(f"save:{type(e).__name__}", f"{what}: an empty window, {kw}: {e}")
            got = store.load_key(run, path, m, False, what)
            if store.key(got) != store.key(stored[m]):
                raise core.Violation("lost-by-refused-save", f"{what}: saving an empty window ({kw}) left {m} with {got if isinstance(got, str) else got[:3]}")
    if q["resave"] and shown:
        key = run.call("save_h5", tape.save_h5, path2)
        if key != "/trades/" + str(pd.Timestamp(shown[0][0]))[:7]:
            raise core.Violation("returned-key", f"{what}: the window was saved under {key}")
        got = store.load_key(run, path2, key[-7:], False, what)
        os.remove(path2)
        if got != shown:
            raise core.Violation("resaved", f"{what}: the loaded rows were saved to another file; it holds {got if isinstance(got, str) else got[:3]}, not {shown[:3]}")
        run.probe("resaved")


def execute(run):
    from finmlkit.bar.data_model import TradesData
    pl = run.plan
    root = os.path.join(run.scratch, "s02")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    path = os.path.join(root, "t.h5")
    run.sig(json.dumps(pl, sort_keys=True))
    stored = {}
    with hdfsim.Disk(run, root):
        for hi, h in enumerate(pl["hist"]):
            b = pl["batches"][h["b"]]
            new = store.rows(b, h["b"])
            own = str(pd.Timestamp(new[0][0]))[:7]
            m = own if h["key"] in (None, "own") else store.MONTHS[h["key"]]
            kw = {}
            if h["key"] is not None:
                kw["month_key"] = m
            if h["how"] != "none":
                kw["overwrite_month"] = h["how"] == "over"
            if h["mode"]:
                kw["mode"] = h["mode"]
                stored.clear()
            if h["chunk"]:
                kw["chunksize"] = h["chunk"]
            if h["lib"]:
                kw["complib"] = h["lib"]
            td = run.call("TradesData", store.trades, b, h["b"])
            run.log("save", hi, m, h["how"])
            ret = run.call("save_h5", td.save_h5, path, **kw)
            if ret != f"/trades/{m}":
                raise core.Violation("returned-key", f"step {hi}: {ret}, saved under {m}")
            stored[m] = (stored.get(m, []) + new) if h["how"] == "app" else list(new)
            for qi, q in enumerate(h["ask"]):
                key = None if q["key"] is None else (sorted(stored)[q["key"] % len(stored)] if q["key"] < 4 else store.MONTHS[q["key"] - 1])
                (a, arg_a), (z, arg_z) = bound(q["a"], stored, pl), bound(q["b"], stored, pl)
                if a is not None and z is not None and a > z and q["a"]["i"] % 5:
                    a, arg_a, z, arg_z = z, arg_z, a, arg_a
                exp = expected(stored, key, a, z)
                kw = dict(key=key, start_time=arg_a, end_time=arg_z, enable_multiprocessing=q["mp"], n_workers=q["workers"])
                if q["groups"]:
                    kw["min_groups_for_mp"] = q["groups"]
                what = f"after step {hi}, query {kw}"
                run.log("query", hi, qi)
                with procsim.Sched(run, cpus=q["cpus"]):
                    try:
                        tape = TradesData.load_trades_h5(path, **kw)
                        df = tape.data
                    except (KeyError, ValueError) as e:
                        df = e
                    except (core.Violation, core.SimCrash, core.HarnessError):
                        raise
                    except Exception as e:
                        raise core.Violation(f"load:{type(e).__name__}", f"{what}: {e}\n{core.tb_tail(e)}")
                run.sub += 1
                if isinstance(df, Exception):
                    if exp:
                        raise core.Violation("refused", f"{what}: {type(df).__name__} {df}; stored in the range: {exp[:4]}")
                    run.probe("nothing-there")
                    continue
                if not exp:
                    raise core.Violation("no-error", f"{what}: returned {len(df)} rows, nothing is stored there")
                if not (df.index == pd.to_datetime(df["timestamp"].values, unit="ns")).all():
                    raise core.Violation("index", f"{what}: index and timestamps disagree")
                check_rows(store.of_frame(df), exp, stored, key, what)
                views(run, q, tape, store.of_frame(df), stored, pl, path, os.path.join(root, f"v{hi}-{qi}.h5"), what)
                if len(exp) < sum(len(r) for r in stored.values()):
                    run.nontrivial = True
                    run.probe("part")
                if q["mp"] and key is None:
                    run.probe("parallel")
