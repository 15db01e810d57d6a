"""L05: a process restarted with only the look-back of an indicator loaded, or with another past before it (missing values included), continues with the values of the uninterrupted one."""
import copy

import numpy as np
import pandas as pd

from dst import catalog, core, data, feat, fresh, seams, work

RUNS = dict(quick=30000, thorough=1500000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: crash and warm restart of a live indicator process at seeded points with truncated history, and divergent or damaged pasts"
LEVEL_NOTE = "Seeded search over indicators with a finite look-back, their parameters, tapes, restart instants and pasts (other values, missing values); values whose look-back lies after the instant must agree up to rounding"
RULE = "a run counts when at least one value was compared after a restart or with another past; distinct by computation, tape and restart instants"
MEASURE = "distinct (computation, parameters, tape, restart instants, kind of past)"
REAL = ["every indicator with a finite look-back: numerical routines, transforms (both backends), compositions and rolling operations of them, volume profiles (interpreted source)", "numpy", "pandas"]
STUB = ["Numba's compiler", "the market (seeded tapes) and its clock"]
ASSUMPTIONS = ["recursive indicators (exponential averages, RSI, ADX, streaks and ages) have no finite look-back and are not compared", "prices and volumes of the tapes are dyadic fractions, so that running sums are exact",
               "a window without volume (or with a missing one) is not compared for the VWAP distance, which carries its last value forward", "a pandas correlation with a window of equal values is rounding noise and not compared"]
SHRINK_LISTS = ("ops", "cutpts", "gone")
SHRINK_MIN = {"cutpts": 1}


def setup(scratch):
    seams.install()


BARS = {                                   # routine -> number of bars before t that its value at t may depend on
    "time_cues": lambda p: 0,
    "comp_zscore": lambda p: p["w"] - 1,
    "comp_burst_ratio": lambda p: p["w"] - 1,
    "pct_change": lambda p: p["w"],
    "sma": lambda p: p["w"] - 1,
    "roc": lambda p: p["w"],
    "stoch_k": lambda p: p["w"] - 1,
    "true_range": lambda p: 1,
    "realized_vol": lambda p: p["w2"] - 1,
    "bollinger_percent_b": lambda p: p["w"] - 1,
    "parkinson_range": lambda p: 0,
    "atr": lambda p: None if p["flag"] else p["w"],
    "rolling_variance_nb": lambda p: p["w"] - 1,
    "variance_ratio_1_4_core": lambda p: p["w"] + 3,
    "rolling_price_volume_correlation": lambda p: p["w2"],
    "vwap_distance": lambda p: p["w"] - 1,
    "comp_flow_acceleration": lambda p: max(p["w"], p["q"] + 1) - 1,
    "vpin": lambda p: p["w"] - 1,
    "cusum_test_rolling": lambda p: max(p["warm"] + p["ex"], p["warm"] + 2),
}
TIME = {"comp_lagged_returns": lambda p: p["sec"], "volume_profile_rolling": lambda p: p["w"]}
TBARS = {
    "Identity": lambda k: 0,
    "Lag": lambda k: k["periods"],
    "Return": lambda k: k["periods"],
    "ROC": lambda k: k["periods"],
    "PctChange": lambda k: k["window"],
    "StochK": lambda k: k["length"] - 1,
    "ZScore": lambda k: k["window"] - 1,
    "BurstRatio": lambda k: k["window"] - 1,
    "VWAPDistance": lambda k: k["periods"] - 1,
    "TimeCues": lambda k: 0,
    "RealizedVolatility": lambda k: k["window"] - 1,
    "BollingerPercentB": lambda k: k["window"] - 1,
    "ParkinsonRange": lambda k: 0,
    "SMA": lambda k: k["window"] - 1,
    "FlowAcceleration": lambda k: k["window"] - 1,
    "CUSUMTest": lambda k: max(k["window_size"], k["warmup_period"] + 2),
    "ATR": lambda k: None if k["ema_based"] else k["window"],
    "PriceVolumeCorrelation": lambda k: k["window"],
    "VPIN": lambda k: k["window"] - 1,
    "VarianceRatio14": lambda k: k["window"] + 3,
    "KurtosisTransform": lambda k: k["window"] - 1,
    "TrendSlope": lambda k: k["window"] - 1,
    "MeanReversionZScore": lambda k: k["window"] - 1,
    "CandleShape": lambda k: 0,
    "HurstExponent": lambda k: k["window"] - 1,
    "BarDuration": lambda k: k["periods"],
    "BiPowerVariation": lambda k: k["window"],
}
TTIME = {"ReturnT": lambda k: k["window"]["td"], "BarRate": lambda k: k["window"]["td"]}
CORES = sorted(BARS) + sorted(TIME)
TRANS = sorted(TBARS) + sorted(TTIME)
FIRST = {"CUSUMTest": 4}                   # outputs after these are ages: bars since the last break ever


def gen_spec(rng, n):
    def t(names):
        nm = rng.choice(names)
        return ["t", nm, feat.TRANSFORMS[nm][1](rng, n)]
    r = rng.random()
    if r < 0.8:
        return t(TRANS)
    single = [x for x in TRANS if feat.TRANSFORMS[x][0] == "s" and x not in ("PriceVolumeCorrelation", "ATR")]
    if r < 0.9:
        return ["un", rng.choice(["rolling_mean", "rolling_sum", "lag", "abs"]), t(single), [rng.randrange(1, 6)]]
    a = t([x for x in single if x not in ("StochK", "BarRate")])
    nm = rng.choice(["Lag", "SMA", "Identity", "RealizedVolatility", "BurstRatio"])
    kw = feat.TRANSFORMS[nm][1](rng, n)
    kw["input_col"] = "step0"
    return ["compose", a[1:], [nm, kw]]


def gen(rng, tier, idx):
    n = rng.choice([6, 8, 12, 16, 20, 24, 32, 40, 48 if tier == "quick" else 100])
    if rng.random() < 0.4:
        e = rng.choice(CORES)
        p = catalog.ENTRIES[e].gen(rng, n)
        for k in ("w", "w2"):
            if k in p and isinstance(p[k], int) and rng.random() < 0.6:
                p[k] = rng.choice([2, 3, 4, 5, 7]) if k == "w2" else rng.choice([1, 2, 3, 4, 5, 7])
        job = dict(kind="core", entry=e, p=p)
    else:
        job = dict(kind="feat", spec=gen_spec(rng, rng.choice([n, 6, 6])), backend=rng.choice(["nb", "nb", "pd"]), grid=rng.choice([None, None, None, "15m", "15mgap"]))
    tape = data.gen_tape(rng, n, rng.choice([None, None, "trend"]))
    exact = job["kind"] == "feat" and job["backend"] == "pd" or rng.random() < 0.5
    tape["tick"] = rng.choice([0.25, 1.0, 0.5] if exact else [0.01, 0.1, 1e-7])
    if rng.random() < 0.3:                     # a quiet stretch
        a = rng.randrange(n)
        for o in tape["ops"][a:a + rng.choice([5, 10, 40])]:
            o[1] = 0
    for o in tape["ops"]:
        if o[2] and (exact or "vwap" in repr(job).lower()):      # (running sums of volumes: a huge trade leaves rounding noise)
            o[2] = 625 * max(1, min(o[2], 4 * 10 ** 6) // 625)
        if rng.random() < 0.02:
            o[4] |= rng.choice([1, 2, 3])
    if rng.random() < 0.1:                     # trends in price and volume
        for i, o in enumerate(tape["ops"]):
            o[1], o[2] = 1 + i % 2, 625 * (i + 1 if n % 2 else 2 * n - i)
    gone = [rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 4]))] if rng.random() < 0.25 else []      # bars without data
    return dict(job=job, tape=tape, gone=gone, cutpts=[[rng.random(), rng.choice([0, 0, 1, 1, 2]), rng.randrange(1000)] for _ in range(rng.choice([2, 3, 5]))])


def valid_plan(p):
    return len(p["tape"]["ops"]) >= 2


def back(need, lag):
    return np.maximum(need - lag, -1)


def lookback(job, ts):
    """Index of the earliest bar that the value at each bar may depend on; -1: before the data (not compared)."""
    n = len(ts)
    t = np.arange(n)

    def bars(k):
        return np.full(n, -1) if k is None else np.maximum(t - k, -1)

    def time(sec):
        return np.searchsorted(ts, ts - int(sec * 1e9) - 1000, side="right") - 1

    def spec(s):
        k = s[0]
        if k == "t":
            return time(TTIME[s[1]](s[2])) if s[1] in TTIME else bars(TBARS[s[1]](s[2]))
        if k == "un":
            a = spec(s[2])
            q = {"rolling_mean": lambda w: w - 1, "rolling_sum": lambda w: w - 1, "lag": lambda w: w, "abs": lambda *w: 0}[s[1]](*s[3])
            return np.where(t - q >= 0, a[np.maximum(t - q, 0)], -1)
        if k == "compose":
            a = spec(["t"] + s[1])
            for st in s[2:]:
                b = spec(["t"] + st)
                a = np.where(b >= 0, a[np.maximum(b, 0)], -1)
            return a
        raise ValueError(k)
    if job["kind"] == "core":
        return time(TIME[job["entry"]](job["p"])) if job["entry"] in TIME else bars(BARS[job["entry"]](job["p"]))
    return spec(job["spec"])


def cut_d(d, s):
    w = copy.copy(d)
    for f, v in list(vars(d).items()):
        if isinstance(v, np.ndarray) and len(v) == d.n:
            setattr(w, f, v[s:].copy())
    w.n, w.i0 = d.n - s, s
    return w


def holes(n, s, seed):
    """Positions before s where values are missing."""
    k = 1 + seed % 3
    return sorted({s - 1 - (seed // 3 + 7 * i * i) % s for i in range(k)})


PRICES = ["px", "high", "low", "pxn", "ret", "retn", "vol", "voln"]


def past_d(d, s, mode, seed):
    w = copy.copy(d)
    for f in PRICES + ["level", "am", "side"]:
        v = getattr(d, f).copy()
        if mode == 2:
            v[:s] = v[:s][::-1]
        elif f in PRICES:
            v[holes(d.n, s, seed)] = np.nan
        setattr(w, f, v)
    return w


def past_df(df, s, mode, seed):
    w = df.copy()
    for c in w.columns:
        v = w[c].to_numpy().copy()
        if mode == 2:
            v[:s] = v[:s][::-1]
        elif seed % 2 or c in ("high", "close", "volume", "ret1", "volume_buy"):
            v[holes(len(df), s, seed)] = np.nan
        w[c] = v
    return w


def perform(job, x):
    if job["kind"] == "core":
        e = catalog.ENTRIES[job["entry"]]
        r = e.fn()(*e.args(x, job["p"]))
        r = list(r) if isinstance(r, (tuple, list)) else [r]
        return [np.asarray(v) for v in (r if job["entry"] == "cusum_test_rolling" else [r[i] for i in e.causal])]
    f = feat.build(job["spec"])
    out = [s.to_numpy() for _, s in feat.columns(f(x, backend=job["backend"]))]
    if job["spec"][0] == "t":
        out = out[:FIRST.get(job["spec"][1])]
    return out


def skip(job, x):
    """Bars whose value is carried forward by design."""
    if job["kind"] == "core" and job["entry"] == "vwap_distance":
        w, v = job["p"]["w"], (x.voln if job["p"]["nan"] else x.vol)
    elif job["kind"] == "feat" and "VWAPDistance" in feat.classes(job["spec"]):
        s = job["spec"]
        if s[0] != "t":
            return None
        w, v = s[2]["periods"], x["volume"].to_numpy()
    elif job["kind"] == "feat" and job["backend"] == "pd" and "PriceVolumeCorrelation" in feat.classes(job["spec"]):
        if job["spec"][0] != "t":
            return None
        w, out = job["spec"][2]["window"], np.zeros(len(x), bool)      # the correlation with a constant is rounding noise
        r = x["close"].pct_change(fill_method=None).to_numpy()
        for c in (r, x["volume"].to_numpy()):
            m = np.nanmax(np.abs(np.where(np.isfinite(c), c, 0.0)), initial=0.0)
            for t in range(len(c)):
                q = c[max(0, t - w + 1):t + 1]
                out[t] |= not q.max() - q.min() > 1e-6 * m if not np.isnan(q).any() else False
        return out
    else:
        return np.zeros(len(x) if job["kind"] == "feat" else x.n, bool)
    return np.array([not v[max(0, t - w + 1):t + 1].sum() > 0 for t in range(len(v))], bool)


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(all="ignore"):
        tol = 1e-5 * np.maximum(np.abs(a), np.abs(b)) + 1e-9
        return (np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= tol)


def special(job, x, t, s, vals):
    """Recorded findings (known_findings.txt): code that looks at the position of a bar since the start of the data instead of at its look-back."""
    if job["kind"] == "core":
        nm, p = job["entry"], job["p"]
        c = dict(close=x.pxn if p.get("nan") else x.px, high=x.high, low=x.low, volume=x.voln if p.get("nan") else x.vol)
        w = p.get("w2") if nm == "rolling_price_volume_correlation" else p.get("w")
    else:
        if job["spec"][0] != "t":
            return None
        nm, kw = job["spec"][1:]
        c = {k: x[k].to_numpy() for k in ("close", "high", "low", "volume")}
        w = kw.get("window")
    for i in (t, t - s):                       # the position in the whole history and since the restart
        if nm in ("rolling_price_volume_correlation", "PriceVolumeCorrelation") and (4 <= i < 10 or w == 4):
            a, b = np.diff(c["close"][t - w + 1:t + 1]), np.diff(c["volume"][t - w + 1:t + 1])
            if 1.0 in np.abs(vals) and not (a < 0).any() and (not (b < 0).any() or not (b > 0).any()):
                return "trend-special-case"
        if nm in ("atr", "ATR") and i == 2 and np.isnan(vals).any() and np.isnan(c["high"][t]) and np.isnan(c["low"][t]) and np.isnan(c["close"][t]):
            return "third-bar-special-case"
    return None


def outcome(job, x):
    try:
        return perform(job, x)
    except Exception as e:
        return type(e).__name__


def execute(run):
    pl = run.plan
    job = pl["job"]
    d = data.D(pl["tape"])
    n = d.n
    name = work.label(job)
    run.sig(repr(job), repr(pl["tape"]))
    if job["kind"] == "core" and not catalog.ENTRIES[job["entry"]].exists():
        return
    for i in pl["gone"]:
        if i < n:
            for f in PRICES:
                getattr(d, f)[i] = np.nan
    x = d if job["kind"] == "core" else feat.bars(d, job.get("grid"))
    ts = d.uts if job["kind"] == "core" else x.index.asi8
    full = outcome(job, x)
    if isinstance(full, str):
        run.probe("raised")
        return
    run.sim_ns += int(ts[-1] - ts[0])
    need = lookback(job, ts)
    no = skip(job, x)
    if no is None:
        return
    known = None
    for frac, mode, seed in pl["cutpts"]:
        ok = np.flatnonzero((need >= 0) & ~no)
        if not len(ok):
            run.probe("look-back-longer-than-data")
            return
        # the restart happens where some bar's look-back begins, so that nothing is loaded in vain
        s = int(need[ok[int(frac * len(ok))]])
        if seed % 4 == 0:
            s = max(0, s - seed % 3)
        if s == 0:
            continue
        at = np.flatnonzero((need >= s) & ~no)
        if mode == 0:
            y = cut_d(x, s) if job["kind"] == "core" else x.iloc[s:]
            run.fault("restart")
            fresh.restore()
        else:
            y = past_d(x, s, mode, seed) if job["kind"] == "core" else past_df(x, s, mode, seed)
            run.fault("missing-past" if mode == 1 else "other-past")
        o = outcome(job, y)
        run.sig(s, mode, seed if mode else 0)
        run.log(s, mode, type(o).__name__)
        if isinstance(o, str):
            run.probe("raised-other")
            continue
        run.nontrivial = True
        off = s if mode == 0 else 0
        for k, (a, b) in enumerate(zip(full, o)):
            run.sub += 1
            c = close(a[at], b[at - off])
            bad = [int(t) for t in at[~c]]
            if bad:
                names = [special(job, x, t, off, [a[t], b[t - off]]) for t in bad]
                t = next((t for t, z in zip(bad, names) if not z), bad[0])
                z = special(job, x, t, off, [a[t], b[t - off]])
                what = {0: "restarted with the history from there", 1: "with missing values before it", 2: "with another history before it"}[mode]
                v = core.Violation(f"past-dependent:{z or name}", f"{job}: output {k} at bar {t} of {n}, look-back from bar {int(need[t])}, instant at bar {s}: {a[t]!r} uninterrupted, {b[t - off]!r} {what} ({len(bad)} of {len(at)} differ)")
                if not z:
                    raise v
                known = known or v
    if known:
        raise known
