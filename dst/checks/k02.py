"""K02: histories of saves, builds and rebuilds; every read of the time bars against the bars the trades make."""
import json
import os
import shutil

import numpy as np
import pandas as pd

from dst import core, hdfsim, procsim, seams, store
from dst.checks import s02

RUNS = dict(quick=1500, thorough=80000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: histories of saves, builds, rebuilds and interrupted builds against a reference store of bars; every read and resample compared with a reference aggregation"
LEVEL_NOTE = ("Seeded search over histories (saves, appends, overridden month keys, builds with and without overwriting, builds killed at an HDF5 operation) and reads with bounds on, next to and between bars, dates, and timeframes from seconds to days")
RULE = "a run counts when a read that selects a proper part of the bars or resamples several bars into one was compared; distinct by history and reads"
MEASURE = "distinct (history, reads)"
REAL = ["AddTimeBarH5, TimeBarReader, TimeBarKit (interpreted source)", "TradesData.save_h5/load_trades_h5", "pandas HDFStore, PyTables, HDF5 library on scratch files"]
STUB = ["Numba's compiler", "process death (files are put back to the bytes the operating system had at the fault point)"]
ASSUMPTIONS = ["single-precision bars: volumes and volume-weighted prices agree to 1e-5 relative", "a bound at midnight means the whole day, as documented for dates"]
SHRINK_LISTS = ("rows", "hist", "reads")
SHRINK_MIN = {"rows": 1, "hist": 1, "reads": 1}
FRAMES = ["1s", "2s", "5s", "7s", "10s", "1min", "90s", "5min", "15min", "1h", "4h", "1D", "D", "2D"]
SEC = 10 ** 9


def setup(scratch):
    s02.setup(scratch)


def _batch(rng, nm, base):
    b = store.gen_batch(rng, months=nm, n=rng.choice([1, 2, 3, 6, 10]), gaps=False)
    b["off"] = base[b["m"]] + rng.choice([0, 0, 1, SEC - 1, SEC, 59 * SEC, rng.randrange(300) * SEC + rng.randrange(SEC)])
    long = 0
    for r in b["rows"]:
        r[0] = rng.choice([0, 1, 10 ** 6, 5 * 10 ** 8, SEC, 3 * SEC, 40 * SEC])
        if rng.random() < 0.08 and long < 2:
            r[0], long = rng.choice([100, 400, 900]) * SEC, long + 1
    return b


def _bound(rng):
    return dict(k=rng.choice(["none", "none", "bar", "bar", "bar", "day", "month", "far"]), i=rng.randrange(10 ** 6), d=rng.choice([0, 0, 0, -1, 1, 5 * 10 ** 8, -5 * 10 ** 8, 60 * SEC]), m=rng.randrange(7), t=rng.choice(["str", "ts", "ts", "dt"]))


def gen(rng, tier, idx):
    nm = rng.choice([1, 2, 3, 4])
    base = [rng.choice([0, 0, 3600 * SEC - 1, 86400 * SEC - 2 * SEC, 31 * 86400 * SEC - 2 * SEC, rng.randrange(20 * 86400) * SEC]) for _ in range(nm)]
    hist = []
    for i in range(rng.choice([1, 2, 3, 4, 5])):
        hist.append(dict(batch=_batch(rng, nm, base), how=rng.choice(["over", "over", "app"]), key=rng.randrange(5) if rng.random() < 0.12 else None,
                         build=rng.choice(["all", "all", "all-over", "key", "key-over", "none"]), plain=rng.random() < 0.3, kill=rng.randrange(24) if rng.random() < 0.12 else None, peek=rng.choice([0, 1, 2]) if rng.random() < 0.25 else None))
    return dict(hist=hist, reads=[dict(a=_bound(rng), b=_bound(rng), tf=rng.choice([None, None] + FRAMES)) for _ in range(rng.choice([1, 2, 4]))], same=rng.random() < 0.6)


def valid_plan(p):
    return all(h["batch"]["rows"] for h in p["hist"])


def cleanup(run):
    s02.cleanup(run)
    shutil.rmtree(os.path.join(run.scratch, "k02"), ignore_errors=True)


def _arg(v, t):
    ts = pd.Timestamp(v)
    return str(ts) if t == "str" else ts.to_pydatetime() if t == "dt" and v % 1000 == 0 else ts


def bars_of(rows):
    from finmlkit.bar.data_model import TradesData
    from finmlkit.bar.kit import TimeBarKit
    r = sorted(rows, key=lambda x: x[0])
    ts = np.array([x[0] for x in r], dtype=np.int64)
    td = TradesData(ts, np.array([x[1] for x in r]), np.array([x[2] for x in r], dtype=np.float32), side=np.array([x[3] for x in r], dtype=np.int8), dt_index=pd.to_datetime(ts, unit="ns"))
    df = TimeBarKit(td, period=pd.Timedelta(seconds=1)).build_ohlcv()
    return as_rows(df)


def as_rows(df):
    ns = df.index.values.astype("datetime64[ns]").astype(np.int64)
    return [(int(t),) + tuple(float(df[c].iloc[i]) for c in COLS) for i, t in enumerate(ns)] if len(df) < 50 else list(zip(ns.tolist(), *[df[c].values.astype(float).tolist() for c in COLS]))


COLS = ["open", "high", "low", "close", "volume", "trades", "median_trade_size", "vwap"]


def resample(bars, tf):
    step = int(pd.Timedelta(pd.tseries.frequencies.to_offset(tf)).value)
    out = {}
    for b in bars:
        out.setdefault(b[0] // step * step, []).append(b)
    res = []
    for t in sorted(out):
        g = out[t]
        n = sum(x[6] for x in g)
        if n == 0:
            continue
        vol = sum(x[5] for x in g)
        vw = sum(x[8] * x[5] for x in g) / vol if vol else float("nan")
        half, acc, med = n * 0.5, 0.0, None
        for size, w in sorted((x[7], x[6]) for x in g):
            acc += w
            if acc >= half:
                med = size
                break
        res.append((t, g[0][1], max(x[2] for x in g), min(x[3] for x in g), g[-1][4], vol, n, med, vw))
    return res


def _near(a, b):
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-5 * max(abs(a), abs(b))


def execute(run):
    from finmlkit.bar.io import AddTimeBarH5, TimeBarReader
    pl = run.plan
    root = os.path.join(run.scratch, "k02")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    path = os.path.join(root, "t.h5")
    run.sig(json.dumps(pl, sort_keys=True))
    stored, bars = {}, {}
    disk = hdfsim.Disk(run, root)
    rd = TimeBarReader(path)            # (one reader may be used again and again)
    with disk:
        for hi, h in enumerate(pl["hist"]):
            b = h["batch"]
            new = store.rows(b, hi)
            m = str(pd.Timestamp(new[0][0]))[:7] if h["key"] is None else store.MONTHS[h["key"]]
            app = h["how"] == "app" and all(abs(x[0] - new[0][0]) < 7200 * SEC for x in stored.get(m, []))      # (millions of empty bars otherwise)
            run.call("save_h5", store.trades(b, hi).save_h5, path, month_key=m, overwrite_month=not app)
            stored[m] = (stored.get(m, []) if app else []) + new
            if h["build"] == "none":
                if h.get("peek") is not None:
                    _reads(run, rd if pl["same"] else TimeBarReader(path), bars, pl["reads"][:h["peek"]])
                continue
            over = h["build"].endswith("over")
            sel = sorted(stored) if h["build"].startswith("all") else [m]
            if h["kill"] is not None:
                disk.arm(dict(kind="kill", at=h["kill"], w=True))
            try:
                a = AddTimeBarH5(path)
                if h["build"].startswith("all"):
                    res = run.call("process_all", a.process_all, overwrite=over)
                else:
                    res = {f"/trades/{m}": run.call("process_key", a.process_key, m if h["plain"] else f"/trades/{m}", overwrite=over)}
                disk.disarm()
            except core.SimCrash:
                disk.restart()
                run.probe("restart")
                a = AddTimeBarH5(path)
                over = True
                res = run.call("process_all", a.process_all, overwrite=True)      # after a crash everything is built again
                sel = sorted(stored)
            for k in sel:
                done = res.get("/trades/" + k)
                if bool(done) != (over or k not in bars):
                    raise core.Violation("build-result", f"step {hi}: {k}: {done}, overwrite {over}, built before {k in bars}")
                if done:
                    bars[k] = bars_of(stored[k])
            if h.get("peek") is not None:
                _reads(run, rd if pl["same"] else TimeBarReader(path), bars, pl["reads"][:h["peek"]])
        _reads(run, rd if pl["same"] else TimeBarReader(path), bars, pl["reads"])


def _reads(run, rd, bars, reads):
    """Reads against the bars of the months built so far."""
    if not bars:
        run.call("read", rd.read)
        return
    order = [x for k in sorted(bars) for x in bars[k]]
    every = sorted(order, key=lambda x: x[0])
    # a month may end with the empty bar of the first second of the next one; other overlaps leave the order of equal times open
    mixed = False
    for (ka, va) in bars.items():
        for kb, vb in bars.items():
            if ka < kb and va[-1][0] >= vb[0][0] and not (va[-1][0] - 2 * SEC <= vb[0][0] and va[0][0] <= vb[0][0]):
                mixed = True
    keys = run.call("list_keys", rd.list_keys)
    if sorted(keys) != ["/klines/" + k for k in sorted(bars)]:
        raise core.Violation("keys", f"{keys}, built {sorted(bars)}")
    for qi, q in enumerate(reads):
        (a, aa), (z, za) = _value(q["a"], every), _value(q["b"], every)
        if a is not None and z is not None and a > z and q["a"]["i"] % 7:
            a, aa, z, za = z, za, a, aa
        zz = z
        if z is not None and z % (86400 * SEC) == 0:
            zz = z + 86400 * SEC - 1000
        exp = [x for x in every if (a is None or x[0] >= a) and (zz is None or x[0] <= zz)]
        what = f"read({aa!r}, {za!r}, {q['tf']!r})"
        run.log("read", qi)
        df = run.call(what, rd.read, aa, za, q["tf"]) if q["tf"] else run.call(what, rd.read, start_time=aa, end_time=za)
        run.sub += 1
        if not len(df):
            got = []
        else:
            if any(c not in df.columns for c in COLS):
                raise core.Violation("columns", f"{what}: {list(df.columns)}")
            got = as_rows(df)
        if any(x[0] > y[0] for x, y in zip(got, got[1:])):
            raise core.Violation("order", f"{what}: {[x[0] for x in got][:10]}")
        if q["tf"] is None:
            if got != exp and (not mixed or sorted(map(str, got)) != sorted(map(str, exp))):
                d = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
                raise core.Violation("bars", f"{what}: {len(got)} bars, {len(exp)} stored there; first difference at {d}: {got[d:d + 2]} / {exp[d:d + 2]}")
        elif not mixed:
            want = resample(exp, q["tf"])
            if q["tf"].endswith("D"):
                run.probe("daily")
                if zz != z:              # documented: the last, possibly incomplete day is left out when the end is a date
                    short = [x for x in want if x[0] <= z - 86400 * SEC]
                    if len(got) == len(short):
                        want = short
            if len(got) != len(want):
                raise core.Violation("periods", f"{what}: {len(got)} periods, the bars make {len(want)}: {[str(pd.Timestamp(x[0])) for x in got][:6]} / {[str(pd.Timestamp(x[0])) for x in want][:6]}")
            for g, w in zip(got, want):
                if g[0] != w[0] or g[1:5] != w[1:5] or g[6] != w[6] or not all(_near(g[i], w[i]) for i in (5, 7, 8)):
                    raise core.Violation("aggregate", f"{what}: {g}, the bars make {w}")
            if len(want) < len(exp):
                run.nontrivial = True
        if len(exp) and len(exp) < len(every):
            run.nontrivial = True
        run.probe("mixed" if mixed else "plain")


def _value(q, every):
    if q["k"] == "none" or (q["k"] == "bar" and not every):
        return None, None
    if q["k"] == "bar":
        v = every[q["i"] % len(every)][0] + q["d"]
    elif q["k"] == "day":
        v = every[q["i"] % len(every)][0] // (86400 * SEC) * (86400 * SEC)
        return v, (str(pd.Timestamp(v).date()) if q["t"] == "str" else _arg(v, q["t"]))
    elif q["k"] == "month":
        v = store.T0[store.MONTHS[q["m"] % len(store.MONTHS)]] + min(q["d"], 0)
    else:
        v = pd.Timestamp("2018-06-01").value + q["i"] % 1500 * 86400 * SEC
    return v, _arg(v, q["t"])
