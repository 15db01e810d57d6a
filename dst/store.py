"""Batches of trades for the storage simulations, and what a store is expected to hold."""
import numpy as np
import pandas as pd

from . import core

MONTHS = ["2020-12", "2021-01", "2021-02", "2021-03", "2019-07"]
T0 = {m: pd.Timestamp(m + "-01").value for m in MONTHS}


def gen_batch(rng, m=None, n=None, months=3, gaps=True):
    """Rows as increments [dt_ns, lost ids, amount, maker]; the price identifies the row."""
    m = rng.randrange(months) if m is None else m
    n = n or rng.choice([1, 2, 3, 5, 8, 15])
    unit = rng.choice([10 ** 3, 10 ** 6, 10 ** 6, 10 ** 9])
    rows = []
    for _ in range(n):
        dt = rng.choice([0, 1, 1, 5, 999, 1000, 61000]) * unit
        lost = rng.choice([1, 2, 40]) if gaps and rng.random() < 0.15 else 0
        rows.append([min(dt, 3600 * 10 ** 9), lost, rng.choice([0.001, 1.0, 12.5, 1e5]), rng.randrange(2)])
    return dict(m=m, off=rng.choice([0, 0, 1, 10 ** 9, 86400 * 10 ** 9 - 1, rng.randrange(20 * 86400) * 10 ** 9, rng.randrange(20 * 86400) * 10 ** 9]), rows=rows, tick=rng.choice([0.01, 0.5]),
                raw=False)


def gen_shared(rng, months=3):
    """Like gen_batch, inside the first day of the month: several of them overlap in time."""
    b = gen_batch(rng, months=months)
    b["off"] = rng.choice([0, 0, 10 ** 9, 5 * 10 ** 9])
    return b


def frame(b, tag):
    """(timestamps, prices, amounts, sides, ids) of a batch.  Prices carry the tag, so that rows of different batches never coincide."""
    ts, i = T0[MONTHS[b["m"]]] + b["off"], 1000 * (tag + 1)
    out = []
    for k, (dt, lost, am, mk) in enumerate(b["rows"]):
        if k:
            ts += dt
            i += 1 + lost
        out.append((ts, (1000 * (tag + 1) + k) * b["tick"], float(np.float32(am)), -1 if mk else 1, i))
    return out


def trades(b, tag):
    from finmlkit.bar.data_model import TradesData
    r = frame(b, tag)
    ts, px, am = np.array([x[0] for x in r], dtype=np.int64), np.array([x[1] for x in r]), np.array([x[2] for x in r])
    return TradesData(ts, px, am, np.array([x[4] for x in r], dtype=np.int64), is_buyer_maker=np.array([x[3] < 0 for x in r]), timestamp_unit="ns", preprocess=True, name="b%d" % tag)


def facts(b, tag):
    r = frame(b, tag)
    lost, gaps = 0, 0
    for a, c in zip(r, r[1:]):
        k = c[4] - a[4] - 1
        lost += k
        gaps += bool(k and c[0] - a[0] > 60 * 10 ** 9)
    return dict(pct=lost / len(r) * 100, gaps=gaps, ok=not gaps)


def rows(b, tag):
    return [x[:4] for x in frame(b, tag)]


def of_frame(df):
    return list(zip((int(v) for v in df["timestamp"].values), (float(v) for v in df["price"].values), (float(v) for v in df["amount"].values), (int(v) for v in df["side"].values)))


def load_key(run, path, m, mp=False, what=""):
    """Rows of a month: list, or "absent" / "empty"."""
    from finmlkit.bar.data_model import TradesData
    try:
        td = TradesData.load_trades_h5(path, key=m, enable_multiprocessing=mp)
    except KeyError:
        return "absent"
    except FileNotFoundError:
        return "absent"
    except OSError as e:
        if "does not exist" in str(e):
            return "absent"
        raise core.Violation("unreadable-file", f"{what}: {str(e)[-400:]}")
    except ValueError as e:
        if "No data" in str(e):
            return "empty"
        raise core.Violation("unreadable-month", f"{what} {m}: {e}")
    except Exception as e:
        if type(e).__name__ == "HDF5ExtError":
            raise core.Violation("unreadable-file", f"{what}: {str(e)[-400:]}")
        raise core.Violation(f"unreadable-month:{type(e).__name__}", f"{what} {m}: {e}")
    df = td.data
    if not (df.index == pd.to_datetime(df["timestamp"].values, unit="ns")).all():
        raise core.Violation("index", f"{what} {m}: index and timestamps disagree")
    return of_frame(df)


def key(r):
    return sorted(r)
