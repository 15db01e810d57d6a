"""Catalogue of numerical routines: how to call each one on data derived from a tape plan.

Entry: gen(rng, n) -> JSON params; args(d, p) -> fresh argument tuple; causal: indices of outputs that are per-element series
aligned with the tape (used by L02), or None.
"""
import importlib

import numpy as np

from . import seams

ENTRIES = {}


class Entry:
    def __init__(self, name, mod, attr, gen, args, causal=None, min_n=0):
        self.name, self.mod, self.attr, self.gen, self.args, self.causal, self.min_n = name, mod, attr, gen, args, causal, min_n
        self._there = None

    def exists(self):
        """Private helpers may be renamed or inlined by a refactoring: a routine that is not there is not called."""
        if self._there is None:
            try:
                self._there = callable(self.fn())
            except (ImportError, AttributeError):
                self._there = False
        return self._there

    def fn(self):
        return getattr(importlib.import_module("finmlkit." + self.mod), self.attr)


def E(mod, attr, gen, args, name=None, **kw):
    name = name or attr
    ENTRIES[name] = Entry(name, mod, attr, gen, args, **kw)


def names(pred=lambda e: True):
    return [k for k, e in sorted(ENTRIES.items()) if pred(e) and e.exists()]


def win(rng, n):
    return rng.choice([1, 2, 3, 5, rng.randrange(1, 12), max(1, n - 1), max(1, n), n + 1, n + 5])


def win2(rng, n):
    return max(2, win(rng, n))


def cuts(rng, n, lo=1):
    k = rng.choice([1, 2, 3, 5, 8, n])
    return sorted(rng.randrange(0, max(1, n)) for _ in range(max(lo, k)))


def close_idx(d, p):
    """First boundary (-1, 0 or later) then the chosen closes, strictly increasing; repeated closes (empty bars) if asked for."""
    n = d.n
    c = [p["first"]] + [x for x in p["cuts"] if x < n]
    out = []
    for x in c:
        if not out or x > out[-1] or (x == out[-1] and p.get("empty")):
            out.append(x)
    if len(out) < 2:
        out = [min(out[0], n - 1), n - 1] if n else [-1, -1]
    return np.array(out, dtype=np.int64)


def gcl(rng, n):
    return dict(first=rng.choice([-1, 0, 0, 0]), cuts=cuts(rng, n), empty=False, theta=rng.choice([0.0, 0.5, 3.0]), tm=rng.choice([1.0, 5.0]))


def gcl_e(rng, n):
    p = gcl(rng, n)
    p["empty"] = rng.random() < 0.3
    return p


E("bar.base", "comp_bar_ohlcv", gcl_e, lambda d, p: (d.px, d.am, close_idx(d, p)), min_n=1)
E("bar.base", "comp_bar_directional_features", gcl_e, lambda d, p: (d.px, d.am, close_idx(d, p), d.side), min_n=1)


def _theta(d, p):
    ci = close_idx(d, p)
    th = np.array([0.0 if (p["theta"] == 0.0 and i % 3 == 1) else 0.01 + p["theta"] + (i % 4) for i in range(len(ci) - 1)])
    return (d.am, th, ci, p["tm"])


E("bar.base", "comp_bar_trade_size_features", gcl_e, _theta, min_n=1)


def _fp(d, p):
    from finmlkit.bar.base import comp_bar_ohlcv
    ci = close_idx(d, p)
    f = comp_bar_ohlcv.py_func if hasattr(comp_bar_ohlcv, "py_func") else comp_bar_ohlcv
    o = f(d.px, d.am, ci)
    return (d.px, d.am, ci, d.side, d.tick, o[2], o[1], 3.0)


E("bar.base", "comp_bar_footprints", gcl, _fp, min_n=2)


def _levels(d, p):
    """Per element: a small footprint around the price."""
    pl, bv, sv = [], [], []
    i0 = getattr(d, "i0", 0)
    for i in range(d.n):
        w = int(d.flags[i] + abs(d.level[i]) % 3)
        lv = np.arange(d.level[i] - 1, d.level[i] + w + 1, dtype=np.int32)
        pl.append(lv)
        bv.append(((lv * 7 + i + i0) % 5).astype(np.float32) + np.float32(d.side[i] > 0))
        sv.append(((lv * 3 + i + i0) % 4).astype(np.float32) + np.float32(d.side[i] < 0))
        if d.am[i] == 0:                           # a bar without volume
            bv[-1] *= 0
            sv[-1] *= 0
    lows = np.array([x[0] * d.tick for x in pl]) if pl else np.zeros(0)
    highs = np.array([x[-1] * d.tick for x in pl]) if pl else np.zeros(0)
    return lows, highs, pl, bv, sv


def _vpr(d, p):
    lo, hi, pl, bv, sv = _levels(d, p)
    return (d.uts, hi, lo, pl, bv, sv, p["w"], p["bins"], d.tick, p["va"])


def gvp(rng, n):
    return dict(w=rng.choice([0.5, 1.0, 3.0, 30.0, 300.0]), bins=rng.choice([None, None, 2, 5, 27]), va=rng.choice([68.34, 50.0, 95.0]), a=rng.randrange(0, n + 1), b=rng.randrange(0, n + 1))


E("feature.core.volume", "volume_profile_rolling", gvp, _vpr, causal=[0, 1, 2, 3], min_n=1)


def _vpd(d, p):
    lo, hi, pl, bv, sv = _levels(d, p)
    a, b = sorted((min(p["a"], d.n - 1), min(p["b"], d.n - 1)))
    return (d.uts, hi, lo, pl, bv, sv, int(d.uts[a]), int(d.uts[b]), p["bins"], d.tick, p["va"])


E("feature.core.volume", "volume_profile_developing", gvp, _vpd, min_n=2)


def gw(rng, n):
    return dict(w=win(rng, n), w2=win2(rng, n), flag=rng.random() < 0.5, k=rng.choice([0, 1]), nan=rng.random() < 0.4, sec=rng.choice([0.0, 0.001, 1.0, 5.0, 60.0, 5000.0]), q=rng.choice([1, 2, 3, 5]))


P = lambda d, p: d.pxn if p["nan"] else d.px
R = lambda d, p: d.retn if p["nan"] else d.ret
V = lambda d, p: d.voln if p["nan"] else d.vol

E("feature.core.time", "time_cues", gw, lambda d, p: (d.ts,), causal=[0, 1, 2, 3, 4, 5, 6, 7])
E("feature.core.utils", "comp_lagged_returns", gw, lambda d, p: (d.uts, d.px, p["sec"], p["flag"]), causal=[0])
E("feature.core.utils", "comp_zscore", gw, lambda d, p: (P(d, p), p["w"], p["k"]), causal=[0])
E("feature.core.utils", "comp_burst_ratio", gw, lambda d, p: (V(d, p), p["w"]), causal=[0])
E("feature.core.utils", "pct_change", gw, lambda d, p: (P(d, p), p["w"]), causal=[0])
E("feature.core.ma", "sma", gw, lambda d, p: (P(d, p), p["w"]), causal=[0])
E("feature.core.ma", "ewma", gw, lambda d, p: (P(d, p), p["w"]), causal=[0])
E("feature.core.momentum", "roc", gw, lambda d, p: (P(d, p), p["w"]), causal=[0])
E("feature.core.momentum", "rsi_wilder", gw, lambda d, p: (d.px, p["w"]), causal=[0])
E("feature.core.momentum", "stoch_k", gw, lambda d, p: (d.px, d.low, d.high, p["w"]), causal=[0])
E("feature.core.volatility", "true_range", gw, lambda d, p: (d.high, d.low, P(d, p)), causal=[0])
E("feature.core.volatility", "realized_vol", gw, lambda d, p: (R(d, p), p["w2"], p["flag"]), causal=[0])
E("feature.core.volatility", "bollinger_percent_b", gw, lambda d, p: (P(d, p), p["w"], 2.0), causal=[0])
E("feature.core.volatility", "parkinson_range", gw, lambda d, p: (d.high, d.low), causal=[0])
E("feature.core.volatility", "atr", gw, lambda d, p: (d.high, d.low, d.px, p["w"], p["flag"], bool(p["k"])), causal=[0])
E("feature.core.volatility", "rolling_variance_nb", gw, lambda d, p: (P(d, p), p["w"], p["k"], 1 + p["k"]), causal=[0])
E("feature.core.volatility", "variance_ratio_1_4_core", gw, lambda d, p: (P(d, p), p["w"], p["k"], "log" if p["flag"] else "simple"), causal=[0])
E("feature.core.volatility", "ewms", gw, lambda d, p: (R(d, p), p["w"]), causal=[0])
E("feature.core.volatility", "ewmst", gw, lambda d, p: (d.uts, R(d, p), max(p["sec"], 0.5)), causal=[0])
E("feature.core.volatility", "ewmst_mean0", gw, lambda d, p: (d.uts, R(d, p), max(p["sec"], 0.5)), causal=[0])
E("feature.core.trend", "adx_core", gw, lambda d, p: (d.high, d.low, d.px, p["w"]), causal=[0])
E("feature.core.correlation", "rolling_price_volume_correlation", gw, lambda d, p: (P(d, p), V(d, p), p["w2"]), causal=[0])
E("feature.core.reversion", "vwap_distance", gw, lambda d, p: (P(d, p), V(d, p), p["w"], p["flag"]), causal=[0])
E("feature.core.volume", "comp_flow_acceleration", gw, lambda d, p: (V(d, p), max(p["w"], p["q"] + 1), p["q"]), causal=[0])
E("feature.core.volume", "vpin", gw, lambda d, p: (np.where(d.side > 0, V(d, p), 0.0), np.where(d.side < 0, V(d, p), 0.0), p["w"]), causal=[0])
E("feature.core.structural_break.cusum", "cusum_test_rolling", lambda rng, n: dict(warm=rng.choice([2, 3, 5]), ex=rng.choice([2, 3, 6, 10])),
  lambda d, p: (d.px, p["warm"] + p["ex"], p["warm"]))
E("feature.core.structural_break.cusum", "cusum_test_developing", lambda rng, n: dict(warm=rng.choice([2, 3, 5])),
  lambda d, p: (np.log(d.px), p["warm"]), causal=[0, 1, 2, 3])
E("sampling.filters", "cusum_filter", lambda rng, n: dict(one=rng.random() < 0.4, th=rng.choice([1e-5, 1e-4, 1e-3, 0.01, 0.3]), nan=[rng.choice([0, 0, 1, 4]), rng.randrange(n + 1), rng.choice([0, 0, 1, 6])]),
  lambda d, p: (d.px, np.array([p["th"]]) if p["one"] or d.n == 1 else _holes(p["th"] * (1.0 + (np.arange(d.n) % 3)), p["nan"])), min_n=2)


def _holes(x, h):
    """An online estimate: not available at first, possibly missing later on."""
    x[:h[0]] = np.nan
    x[h[1]:h[1] + h[2]] = np.nan
    x[h[1] + h[2]:] *= 5.0 if h[2] else 1.0
    return x


# --- labels -----------------------------------------------------------------
def glab(rng, n):
    return dict(ev=cuts(rng, n), bar=[rng.choice([0.5, 1.0, 2.0, 1e9]), rng.choice([0.5, 1.0, 3.0, 1e9])], vert=rng.choice([0.001, 1.0, 10.0, 100.0, 1e7]),
                mc=rng.choice([0.0, 0.0, 0.5, 2.0, 1000.0]), side=rng.random() < 0.5, tg=rng.choice([1e-5, 1e-4, 1e-3, 1e-2]), minret=rng.choice([0.0, 1e-4]), nan=rng.random() < 0.2,
                span=[rng.randrange(0, max(1, n)) for _ in range(4)], norm=rng.random() < 0.5)


def evs(d, p, uniq=True):
    e = [x for x in p["ev"] if x < d.n]
    return np.array(sorted(set(e)) if uniq else e, dtype=np.int64)


def tb_args(d, p):
    e = evs(d, p)
    tg = p["tg"] * (1.0 + (e % 3)).astype(np.float64)
    if p["nan"] and len(tg):
        tg[::3] = np.nan
    side = np.where((e % 2) == 0, 1, -1).astype(np.int8) if p["side"] else None
    return (d.uts, d.px, e, tg, (float(p["bar"][0]), float(p["bar"][1])), float(p["vert"]), float(p["mc"]), side, p["minret"])


def touches(d, p):
    e = evs(d, p)
    t = np.array([min(d.n - 1, int(x) + p["span"][i % len(p["span"])]) for i, x in enumerate(e)], dtype=np.int64)
    return e, t


def conc(d, e, t):
    c = np.zeros(d.n, dtype=np.int16)
    for a, b in zip(e, t):
        c[a:b + 1] += 1
    return c


E("label.tbm", "triple_barrier", glab, tb_args, min_n=2)
E("label.weights", "average_uniqueness", glab, lambda d, p: (d.uts,) + touches(d, p), min_n=2)
E("label.weights", "return_attribution", glab, lambda d, p: touches(d, p) + (d.px, conc(d, *touches(d, p)), p["norm"]), min_n=2)
E("label.weights", "time_decay", glab, lambda d, p: (np.array([(1 + x % 5) / 5.0 for x in p["ev"]]), 0.5), min_n=2)
E("label.weights", "class_balance_weights", glab, lambda d, p: (np.array([x % 3 - 1 for x in p["ev"]], dtype=np.int8), np.array([(1 + x % 5) / 5.0 for x in p["ev"]])), min_n=2)

# --- bars --------------------------------------------------------------------
E("bar.utils", "comp_trade_side_vector", gw, lambda d, p: (d.px,), causal=[0], min_n=1)
E("bar.utils", "comp_price_tick_size", gw, lambda d, p: (d.px,), min_n=2)
E("bar.utils", "check_timestamps_order", gw, lambda d, p: (d.ts,))


def _merge(d, p):
    mk = d.side < 0
    return (d.ts, d.px, d.am.astype(np.float32), mk if p["flag"] else None)


E("bar.utils", "merge_split_trades", gw, _merge, min_n=1)
E("bar.utils", "fast_sort_trades", gw, lambda d, p: (d.ts[::-1].copy(), d.px, d.am.astype(np.float32), (d.side < 0) if p["flag"] else None))
E("bar.logic", "_time_bar_indexer", gw, lambda d, p: (d.ts, max(p["sec"], 0.5)), min_n=1)
E("bar.logic", "_tick_bar_indexer", gw, lambda d, p: (d.ts, p["w"]))
E("bar.logic", "_volume_bar_indexer", gw, lambda d, p: (d.am, float(p["w"])), min_n=1)
E("bar.logic", "_dollar_bar_indexer", gw, lambda d, p: (d.px, d.am, 100.0 * p["w"]), min_n=1)
E("bar.logic", "_cusum_bar_indexer", gw, lambda d, p: (d.ts, d.px, np.where(np.arange(d.n) < p["k"] * 2, np.nan, 1e-4 * (1 + np.arange(d.n) % 3)), 1e-5, 1.5), min_n=1)


def outcome(entry, d, p):
    """Result of one call, exceptions included, as a comparable value."""
    try:
        r = entry.fn()(*entry.args(d, p))
    except Exception as e:
        return ("raised", type(e).__name__)
    return ("ok", freeze(r))


def freeze(r):
    if isinstance(r, np.ndarray):
        return r.copy()
    if isinstance(r, (tuple, list)) or type(r).__name__ == "List":
        return [freeze(x) for x in r]
    return r
