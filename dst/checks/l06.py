"""L06: histories of slicing, casts and profiles over footprint containers, broken off by failing allocations at any line, against a value model."""

import numpy as np
import pandas as pd

from dst import breakoff, core, data, seams, work

RUNS = dict(quick=12000, thorough=800000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded histories of container operations with allocation failures at any line, against an immutable value model and the profile of the whole history"
LEVEL_NOTE = "Seeded search over footprints of simulated tapes, histories of operations (slices by position and time, casts, table, profiles of the whole and of ranges) and failure points inside them"
RULE = "a run counts when at least two operations of its history succeeded and were compared; distinct by tape, bars and history"
MEASURE = "distinct (tape, bar kit, history of operations, failure points)"
REAL = ["finmlkit.bar.data_model.FootprintData", "finmlkit.feature.core.volume (profiles; interpreted source)", "bar kits and footprint kernels that produce the containers", "numpy", "pandas"]
STUB = ["Numba's compiler and typed list (a Python list)", "the allocator (fails where the run decides)", "the market (seeded tapes)"]
ASSUMPTIONS = ["a failed operation may leave the container in any mixture of its two representations, but not with other content", "a single bar is taken as a slice (an integer index gives a container of scalars)"]
SHRINK_LISTS = ("ops", "hist")
SHRINK_MIN = {"hist": 1}
RAGGED = ("price_levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances")
FLAT = ("bar_timestamps", "cot_price_levels", "sell_imbalances_sum", "buy_imbalances_sum", "imb_max_run_signed", "vp_skew", "vp_gini")
ARM = breakoff.ARM


def setup(scratch):
    seams.install()
    from finmlkit.bar import data_model
    from finmlkit.feature.core import volume
    from finmlkit.bar import utils
    breakoff.instrument((data_model, volume, utils), always=True)


def gen(rng, tier, idx):
    n = rng.choice([8, 20, 40, 80])
    tape = data.gen_tape(rng, n)
    kit = rng.choice(["TimeBarKit", "TimeBarKit", "TickBarKit", "TickBarKit", "VolumeBarKit", "DollarBarKit"])
    kp = work.gen_kit_params(rng, n, kit)
    if "sec" in kp:                            # at most some 200 bars
        kp["sec"] = max(kp["sec"], sum(o[0] for o in tape["ops"]) // 2 * 10 ** -11)
    hist = []
    for _ in range(rng.randrange(2, 9)):
        k = rng.choice(["slice", "slice", "time", "time", "numba", "numba", "numpy", "numpy", "numpy", "df", "range", "range", "range", "profile", "look"])
        hist.append(dict(k=k, of=rng.randrange(6), a=rng.randrange(-3, 90), b=rng.randrange(-3, 90), step=rng.choice([None, None, None, 1, 2, -1]), form=rng.choice(["ts", "ts", "str", "sec", "min", "int", "dt"]),
                         off=rng.choice([0, 0, 0, 1, -1, 10 ** 9]), w=rng.choice([0.5, 2.0, 10.0, 60.0, 600.0, 3600.0]), bins=rng.choice([None, 3, 7, 27]), va=rng.choice([68.34, 40.0, 95.0]), reset=rng.random() < 0.3,
                         fail=rng.choice([None, None, None, rng.randrange(1, 12), rng.randrange(1, 12), rng.randrange(1, 400)])))
    return dict(tape=tape, kit=kit, kp=kp, coarse=rng.choice([1, 1, 1, 5, 50]), hist=hist)


def valid_plan(p):
    return len(p["tape"]["ops"]) >= 4


def _bad(kind, text):
    raise core.Violation(kind, text)


def _rows(fp):
    """What the container holds, bar by bar."""
    n = len(fp.bar_timestamps)
    out = []
    for i in range(n):
        r = {f: np.array(getattr(fp, f)[i], copy=True) for f in RAGGED}
        for f in FLAT:
            v = getattr(fp, f)
            r[f] = None if v is None else np.array(v[i], copy=True)
        out.append(r)
    return out


def _diff(fp, rows, idx):
    """What differs from the rows, or None; a container that cannot be read at all differs."""
    try:
        return _differs(fp, rows, idx)
    except (TypeError, ValueError, AttributeError, IndexError, KeyError) as e:
        return f"it cannot be read: {type(e).__name__}: {str(e)[:100]}"


def _differs(fp, rows, idx):
    if len(fp) != len(idx):
        return f"it has {len(fp)} bars instead of {len(idx)}"
    for f in RAGGED:
        v = getattr(fp, f)
        if v is None:
            return f"{f} is missing"
        if len(v) != len(idx):
            return f"{f} has {len(v)} entries for {len(idx)} bars"
        for k, i in enumerate(idx):
            x = np.asarray(v[k])
            if x.dtype != rows[i][f].dtype:
                return f"{f} of bar {i} has type {x.dtype} instead of {rows[i][f].dtype}"
            if x.shape != rows[i][f].shape or not np.array_equal(x, rows[i][f]):
                return f"{f} of bar {i} is {x.tolist()[:6]} instead of {rows[i][f].tolist()[:6]}"
    for f in FLAT:
        v = getattr(fp, f)
        if len(idx) and (v is None) != (rows[idx[0]][f] is None):
            return f"{f} is {'missing' if v is None else 'present'}"
        if v is None:
            continue
        if len(v) != len(idx):
            return f"{f} has {len(v)} entries for {len(idx)} bars"
        for k, i in enumerate(idx):
            if not np.array_equal(np.asarray(v[k]), rows[i][f], equal_nan=f.startswith("vp")):
                return f"{f} of bar {i} is {v[k]} instead of {rows[i][f]}"
    return None


def _bounds(h, lo, hi, is_end):
    """(key handed over, first ns, last ns) of one bound."""
    t = lo if not is_end else hi
    t = t + h["off"]
    T = pd.Timestamp(t)
    f = h["form"]
    if f == "sec":
        return T.strftime("%Y-%m-%d %H:%M:%S"), T.floor("s").value, T.floor("s").value + 10 ** 9 - 1
    if f == "min":
        return T.strftime("%Y-%m-%d %H:%M"), T.floor("min").value, T.floor("min").value + 60 * 10 ** 9 - 1
    if f == "str":
        return T.strftime("%Y-%m-%d %H:%M:%S.") + f"{T.value % 10 ** 9:09d}", t, t
    if f == "int":
        return int(t), t, t
    if f == "dt":
        u = T.floor("us")
        return u.to_pydatetime(), u.value, u.value
    return T, t, t


def _range(h, ts):
    """Positions of the bars between two instants near stored ones."""
    n = len(ts)
    i, j = sorted((abs(h["a"]) % n, abs(h["b"]) % n))
    ka, a, _ = _bounds(h, int(ts[i]), int(ts[j]), False)
    kb, _, b = _bounds(h, int(ts[i]), int(ts[j]), True)
    return ka, kb, a, b, [q for q in range(n) if a <= ts[q] <= b]


def execute(run):
    p = run.plan
    from finmlkit.feature.core.volume import VolumePro
    tape = p["tape"]
    ARM["left"] = 0
    d = data.D(tape)
    job = dict(kit=p["kit"], kp=p["kp"])
    kit = work.bar_kit(job, (work.trades_data(d), None))
    try:
        bars = kit.build_ohlcv()
        fp = kit.build_footprints(d.tick * p["coarse"])
    except (ValueError, IndexError) as e:
        run.probe("no-bars")
        run.log("nobars", type(e).__name__)
        return
    if len(fp) == 0:
        run.probe("no-bars")
        return
    if not all(len(x) for x in fp.price_levels):
        run.probe("idle-bars")
    rows = _rows(fp)
    allts = np.array([r["bar_timestamps"] for r in rows])
    if len(set(allts.tolist())) < len(allts):
        run.probe("same-instant")
    if len({len(x) for x in fp.price_levels}) == 1 and len(fp) > 1:
        run.probe("even-levels")
    pool = [(fp, list(range(len(rows))))]
    kept = bars.copy(deep=True)
    run.sig([tape, p["kit"], p["kp"], p["coarse"], p["hist"]])
    good = 0
    for step, h in enumerate(p["hist"]):
        c, idx = pool[h["of"] % len(pool)]
        if not idx and h["k"] in ("time", "range", "profile"):
            continue
        ts = allts[idx]
        mono = len(ts) < 2 or bool(np.all(np.diff(ts) >= 0))
        what = f"step {step} ({h['k']})"
        vp = None
        if h["k"] == "slice":
            key = slice(h["a"], h["b"], h["step"])
            want = idx[key]
            call = lambda: c[key]
        elif h["k"] == "time":
            if not mono or h["form"] == "int":
                continue
            ka, kb, _, _, q = _range(h, ts)
            want = [idx[i] for i in q]
            call = lambda: c[ka:kb]
            what += f" [{ka!r}:{kb!r}]"
        elif h["k"] == "numba":
            call = c.cast_to_numba_list
        elif h["k"] == "numpy":
            call = c.cast_to_numpy
        elif h["k"] == "df":
            call = c.get_df
        elif h["k"] == "look":
            call = lambda: (c.is_valid(), c.memory_usage(), len(c), repr(c) if idx else "")
        else:
            if not mono or (h["k"] == "range" and h["form"] == "dt"):
                continue
            b = bars.iloc[idx]
            if len(b) != len(c):
                raise core.HarnessError("bars and footprints differ in length")
            if h["reset"]:
                vp = VolumePro(pd.Timedelta(seconds=7.0))
                vp.reset_parameters(h["w"], h["bins"] or 27, h["va"])
            else:
                vp = VolumePro(pd.Timedelta(seconds=h["w"]), h["bins"] or 27, h["va"])
            if h["k"] == "profile":
                call = lambda: vp.compute(b, c)
            else:
                ka, kb, fa, fb, q = _range(h, ts)
                if not q:
                    continue
                call = lambda: vp.compute_range(b, c, ka, kb)
                what += f" [{ka!r}..{kb!r}] window {h['w']} s"
        res, failed = None, False
        tries = 2 if h["fail"] else 1
        for attempt in range(tries):
            ARM["left"] = h["fail"] if attempt == 0 and h["fail"] else 0
            ARM["fired"] = None
            try:
                res = call()
                failed = False
            except MemoryError:
                if ARM["fired"] is None:
                    raise
                failed = True
                run.fault("allocation@" + h["k"])
                run.log("failed", ARM["fired"])
            except core.Violation:
                raise
            except Exception as e:
                ARM["left"] = 0
                _bad(f"raised:{h['k']}:{type(e).__name__}", f"{what}: {type(e).__name__}: {str(e)[:200]}" + (" after an operation broken off" if attempt else ""))
            finally:
                ARM["left"] = 0
            for o, (x, ix) in enumerate(pool):
                df = _diff(x, rows, ix)
                if df:
                    _bad(f"content:{h['k']}" + (":failed" if failed else ""), f"after {what}{' that failed' if failed else ''}, container {o}: {df}")
            if not failed:
                break
        run.log(h["k"], len(idx))
        if h["k"] in ("slice", "time"):
            df = _diff(res, rows, want)
            if df:
                _bad(f"slice:{h['k']}", f"{what} of {len(idx)} bars: {df}")
            if len(pool) < 6:
                pool.append((res, want))
        elif h["k"] == "df":
            _table(res, rows, idx, d.tick * p["coarse"], what)
        elif h["k"] == "look":
            if res[0] is not True or not res[1] >= 0 or res[2] != len(idx):
                _bad("look", f"{what}: {res}")
        elif h["k"] in ("profile", "range"):
            import copy
            base = copy.copy(c)
            for f in RAGGED:
                setattr(base, f, [rows[i][f].copy() for i in idx])
            ref = VolumePro(pd.Timedelta(seconds=h["w"]), h["bins"] or 27, h["va"]).compute(b, base)
            if h["k"] == "profile":
                got, pos = res, list(range(len(idx)))
            else:
                rts = np.asarray(res[0])
                sel = [i for i in range(len(rts)) if rts[i] >= fa]
                if rts[sel].tolist() != [int(ts[i]) for i in q]:
                    _bad("range-bars", f"{what}: bars {rts[sel].tolist()[:5]} instead of {[int(ts[i]) for i in q][:5]}")
                got, pos = [np.asarray(x)[sel] for x in res[1:]], q
            for nm, x, y in zip(("POC", "HVA", "LVA", "share above POC"), got, ref):
                y = np.asarray(y)[pos]
                if not np.array_equal(np.asarray(x), y, equal_nan=True):
                    k = int(np.argmax(~((np.asarray(x) == y) | (np.isnan(x) & np.isnan(y)))))
                    _bad(f"{h['k']}-value", f"{what}: {nm} of bar {idx[pos[k]]} is {x[k]}, with the whole history {y[k]}")
            if not np.all(np.isnan(ref[0])):
                run.probe("profiles")
        if not bars.equals(kept):
            _bad("bars-changed", f"{what} changed the table of bars")
        good += 1
        run.sub += 1
    if good >= 2:
        run.nontrivial = True


def _table(df, rows, idx, tick, what):
    at = df.index.get_level_values("bar_idx").to_numpy() if len(df) else np.zeros(0)
    for k, i in enumerate(idx):
        part = df[at == k]
        r = rows[i]
        o = np.argsort(-r["price_levels"], kind="stable")
        cols = dict(price_level=r["price_levels"][o] * tick, sell_ticks=r["sell_ticks"][o], buy_ticks=r["buy_ticks"][o], sell_volume=r["sell_volumes"][o], buy_volume=r["buy_volumes"][o],
                    sell_imbalance=r["sell_imbalances"][o], buy_imbalance=r["buy_imbalances"][o])
        for cname, y in cols.items():
            x = part[cname].to_numpy()
            if x.shape != y.shape or not np.array_equal(x.astype(float), np.asarray(y).astype(float)):
                _bad("table", f"{what}: {cname} of bar {i} is {x.tolist()[:6]} instead of {np.asarray(y).tolist()[:6]}")
        if len(part) and (part.index.get_level_values("bar_datetime_idx").asi8 if hasattr(part.index.get_level_values("bar_datetime_idx"), "asi8") else np.array([0]))[0] != int(r["bar_timestamps"]):
            _bad("table", f"{what}: bar {i} is listed under another time")
    if len(df) != sum(len(rows[i]["price_levels"]) for i in idx):
        _bad("table", f"{what}: {len(df)} rows")
