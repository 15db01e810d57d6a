"""L07: indicators with memory against an online observer with a bounded state that is killed and resumed from its checkpoint; live processes stopped, restarted and started late."""
import json
import math

import numpy as np
import pandas as pd

from dst import catalog, core, data, feat, fresh, seams
from dst.checks.l05 import cut_d

RUNS = dict(quick=30000, thorough=2000000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: a live indicator process on a streamed tape, stopped, restarted and started late at seeded points, against an online observer that is killed and resumed from its checkpoint"
LEVEL_NOTE = ("Seeded search over indicators with unlimited memory, parameters, tapes (missing values, ties, idle and trending markets, missing grid bars) and stop, restart and kill points; every value reported at every "
              "bar is compared with a small reference that sees one bar at a time and keeps only a checkpointed state")
RULE = "a run counts when at least one defined value was compared; distinct by indicator, parameters, tape and points"
MEASURE = "distinct (indicator, parameters, tape, restart and kill points)"
REAL = ["exponential averages and deviations, Wilder averages (RSI, ADX, exponential ATR), CUSUM event filter, run lengths, opening range, daily gap, break ages, developing and rolling volume profiles: kernels and transforms (interpreted source)", "numpy", "pandas"]
STUB = ["Numba's compiler", "the market (seeded tapes) and its clock", "the observer's checkpoint store (JSON text in memory)"]
ASSUMPTIONS = ["RSI, ADX, exponential ATR and run lengths are compared on series without missing bars (they have no documented rule for them)", "an event is not compared from where a cumulative sum comes within rounding of the threshold",
               "footprint volumes are whole numbers, so that their sums are exact"]
SHRINK_LISTS = ("ops", "cuts", "kills")
SHRINK_MIN = {"cuts": 1}
SCALE = ("ewma", "ewms", "ewmst", "mean0", "rsi", "adx", "atr", "dur")


def setup(scratch):
    seams.install()


# --- online observers: step(state, record) -> value; the state is JSON -----------------------------------------------------

def o_ewma(p):
    f = 1.0 - 2.0 / (p["span"] + 1.0)

    def step(s, r):
        s["n"], s["d"] = s.get("n", 0.0) * f, s.get("d", 0.0) * f
        if not math.isnan(r):
            s["n"] = s["n"] + r
            s["d"] = s["d"] + 1.0
            s["v"] = s["n"] / s["d"]
        return s.get("v", math.nan)
    return step


def o_ewma_fixed(p):
    """Not adjusted: the first value, then a mixture; a missing value only ages the average."""
    a = 2.0 / (p["span"] + 1.0)

    def step(s, r):
        if "v" not in s:
            if not math.isnan(r):
                s["v"], s["w"] = r, 1.0
        else:
            s["w"] *= 1.0 - a
            if not math.isnan(r):
                s["v"] = (s["w"] * s["v"] + a * r) / (s["w"] + a)
                s["w"] = 1.0
        return s.get("v", math.nan)
    return step


def weigh(s, keep, w, r):
    """Weighted moments around the mean (West): everything known so far is worth `keep` of what it was."""
    s.setdefault("W", 0.0), s.setdefault("Q", 0.0), s.setdefault("M", 0.0), s.setdefault("S", 0.0), s.setdefault("c", 0)
    s["W"], s["Q"], s["S"] = s["W"] * keep, s["Q"] * keep * keep, s["S"] * keep
    if w > 0 and not math.isnan(r):
        s["W"] += w
        s["Q"] += w * w
        d = r - s["M"]
        s["M"] += d * w / s["W"]
        s["S"] += w * d * (r - s["M"])
        s["c"] += 1


def spread(s):
    """(standard deviation, how much the rounding of a mean of squares weighs)"""
    if s["c"] < 2:
        return None, 0.0
    den = s["W"] - s["Q"] / s["W"] if s["W"] > 0 else 0.0
    if not den > s["W"] * 1e-9:
        return "unknown", 0.0                   # all weight is on one observation: the correction is rounding
    return math.sqrt(max(s["S"] / den, 0.0)), s["W"] / den


def o_ewms(p):
    f = 1.0 - 2.0 / (p["span"] + 1.0)

    def step(s, r):
        weigh(s, f, 1.0, r)
        v, k = spread(s)
        return (math.nan, 0.0) if v is None else (v, k)
    return step


def aged(s, ts, hl):
    """What is left of the old weights; the rounding of 1 - exp(-x) for a small x is kept as the tolerance."""
    keep = 1.0 - (1.0 - math.exp(-((ts - s["t"]) / 1e9) / hl))
    s["t"] = ts
    if keep < 1.0:
        s["eps"] = max(s.get("eps", 0.0), 1e-15 / (1.0 - keep))
    return keep


def o_ewmst(p):
    def step(s, r):
        ts, y = r
        if "t" not in s:
            s["t"] = ts
            weigh(s, 1.0, 0.0, math.nan)
            return math.nan, 0.0
        keep = aged(s, ts, p["hl"])
        weigh(s, keep, 1.0 - keep, y)
        if not s["W"] > 0:
            return ("unknown", 0.0) if s["c"] else (math.nan, 0.0)
        v, k = spread(s)
        return (1e-12, 0.0) if v is None else (v if v == "unknown" else max(v, 1e-12), k)
    return step


def o_mean0(p):
    def step(s, r):
        ts, y = r
        if "t" not in s:
            s.update(t=ts, U=0.0, V=0.0)
            return math.nan
        keep = aged(s, ts, p["hl"])
        s["U"] *= keep
        s["V"] *= keep
        if not math.isnan(y):
            s["U"] += (1.0 - keep) * y * y
            s["V"] += 1.0 - keep
        return max(math.sqrt(s["U"] / s["V"]), 1e-12) if s["V"] > 0 else math.nan
    return step


def wilder(s, key, x, w):
    """Mean of the first w values, then each new value weighs 1/w."""
    a = s.setdefault(key, [0, 0.0])
    a[0] += 1
    if a[0] <= w:
        a[1] += x / w
    else:
        a[1] += (x - a[1]) / w
    return a[1] if a[0] >= w else None


def o_rsi(p):
    def step(s, c):
        last, s["c"] = s.get("c"), c
        if last is None:
            return math.nan
        g, l = wilder(s, "g", max(c - last, 0.0), p["w"]), wilder(s, "l", max(last - c, 0.0), p["w"])
        s["down"] = s.get("down", False) or c < last
        if g is None or not s["down"]:
            return math.nan
        return 100.0 * g / (g + l) if l > 0 else "unknown"
    return step


def o_adx(p):
    def step(s, r):
        h, l, c = r
        last, s["b"] = s.get("b"), [h, l, c]
        if last is None:
            return 0.0
        tr = max(h - l, abs(h - last[2]), abs(l - last[2]))
        up, dn = h - last[0], last[1] - l
        w = p["w"]
        t = wilder(s, "t", tr, w)
        a = wilder(s, "p", up if up > dn and up > 0 else 0.0, w)
        b = wilder(s, "m", dn if dn > up and dn > 0 else 0.0, w)
        if t is None:
            return 0.0
        dx = 100.0 * abs(a - b) / (a + b) if t > 0 and a + b > 0 else 0.0
        v = wilder(s, "x", dx, w)
        return 0.0 if v is None else v
    return step


def o_atr(p):
    def step(s, r):
        h, l, c = r
        last, s["c"] = s.get("c"), c
        v = wilder(s, "t", h - l if last is None else max(h - l, abs(h - last), abs(l - last)), p["w"])
        if v is None:
            return math.nan
        return v / ((h + l) / 2) if p["norm"] else v
    return step


def o_events(p):
    def step(s, r):
        x, th = r
        last, s["x"] = s.get("x"), x
        if last is None:
            s.update(u=0.0, d=0.0)
            return 0
        ret = math.log(x / last)
        s["u"], s["d"] = max(0.0, s["u"] + ret), min(0.0, s["d"] + ret)
        if abs(s["u"] - th) < 1e-12 or abs(s["d"] + th) < 1e-12:
            s["edge"] = 1
        if s.get("edge"):
            return "unknown"
        if s["d"] < -th:
            s["d"] = 0.0
            return 1
        if s["u"] > th:
            s["u"] = 0.0
            return 1
        return 0
    return step


def o_runs(p):
    def step(s, r):
        i = s["i"] = s.get("i", -1) + 1
        if i == 0:
            return 0
        g = (r > 0) - (r < 0)
        s["k"] = 0 if g == 0 else s["k"] + 1 if i > 1 and g == s["g"] else 1
        s["g"] = g
        return s["k"]
    return step


Q15 = 900 * 10 ** 9


def o_orb(p):
    def step(s, r):
        ts, h, l, c = r
        day = ts // data.DAY
        if s.get("day") != day:
            s.update(day=day, k=0, ok=ts - day * data.DAY < 60 * 10 ** 9, hi=-math.inf, lo=math.inf)
        s["k"] += 1
        if s["k"] <= 4:
            s["hi"], s["lo"] = max(s["hi"], h), min(s["lo"], l)
            return False, False
        return s["ok"] and c > s["hi"], s["ok"] and c < s["lo"]
    return step


def o_gap(p):
    def step(s, r):
        ts, c = r
        day = ts // data.DAY
        out = math.nan
        if s.get("day") != day:
            if s.get("day") == day - 1 and s["last"] is not None and ts == day * data.DAY and not math.isnan(c):
                out = (c - s["last"]) / s["last"]
            s.update(day=day, last=None)
        if not math.isnan(c):
            s["last"] = c
        return out
    return step


def o_age(p):
    def step(s, r):
        out = []
        for k, f in zip("ud", r):
            s[k] = 0 if f or k not in s else s[k] + 1
            out.append(min(s[k], p["max_age"]))
        return tuple(out)
    return step


def o_dur(p):
    inner = o_ewma(p)

    def step(s, ts):
        last, s["ts"] = s.get("ts"), ts
        return inner(s.setdefault("e", {}), math.nan if last is None else (ts - last) / 1e9)
    return step


def o_profile(p):
    """Keeps the bars of the window (developing: of the session) and reports the volumes per level."""
    def step(s, r):
        ts, lv, vol = r
        s.setdefault("t0", ts)
        b = s.setdefault("bars", [])
        b.append([ts, lv, vol])
        if p["roll"]:
            w = int(p["sec"] * 1e9)
            while b[0][0] < ts - w:
                b.pop(0)
            if ts < s["t0"] + w:
                return None
        acc = {}
        for _, x, v in b:
            for i, q in zip(x, v):
                acc[i] = acc.get(i, 0.0) + q
        return acc
    return step


OBS = dict(ewma=o_ewma, fixed=o_ewma_fixed, ewms=o_ewms, ewmst=o_ewmst, mean0=o_mean0, rsi=o_rsi, adx=o_adx, atr=o_atr, events=o_events, runs=o_runs, orb=o_orb, gap=o_gap, age=o_age, dur=o_dur, profile=o_profile)


# --- what is run ---------------------------------------------------------------------------------------------------------

def _w(rng, n):
    return rng.choice([1, 2, 3, 4, 5, 7, rng.randrange(1, 13), max(1, n - 1), n + 3])


CORE = {"ewma": ("feature.core.ma", "ewma"), "ewms": ("feature.core.volatility", "ewms"), "ewmst": ("feature.core.volatility", "ewmst"), "mean0": ("feature.core.volatility", "ewmst_mean0"),
        "rsi": ("feature.core.momentum", "rsi_wilder"), "adx": ("feature.core.trend", "adx_core"), "atr": ("feature.core.volatility", "atr"), "events": ("sampling.filters", "cusum_filter")}
SER = ["px", "pxn", "ret", "retn", "vol", "voln"]


def gen_job(rng, n):
    if rng.random() < 0.5:
        o = rng.choice(sorted(CORE) + ["profile", "profile"])
        if o == "profile":
            return dict(o=o, p=dict(roll=rng.random() < 0.5, sec=rng.choice([0.5, 1.0, 3.0, 30.0, 300.0]), va=rng.choice([68.34, 50.0, 95.0])))
        if o in ("ewma", "ewms"):
            return dict(o=o, p=dict(span=max(_w(rng, n), 2 if o == "ewms" else 1)), col=rng.choice(SER))
        if o in ("ewmst", "mean0"):
            return dict(o=o, p=dict(hl=rng.choice([0.5, 3.0, 60.0, 3600.0, 86400.0])), col=rng.choice(SER[2:]), ties=rng.random() < 0.5)
        if o == "events":
            return dict(o=o, p={}, th=rng.choice([1e-5, 1e-4, 1e-3, 0.01, 0.3]), one=rng.random() < 0.4, holes=[rng.choice([0, 0, 1, 4]), rng.randrange(n + 1), rng.choice([0, 0, 1, 6])])
        return dict(o=o, p=dict(w=_w(rng, n), norm=rng.random() < 0.5))
    k = rng.choice(["EWMA", "EWMA", "EWMST", "RSIWilder", "ADX", "ATR", "BarDurationEWMA", "DirRunLen", "ORBBreak", "ORBBreak", "DailyGap", "DailyGap", "CUSUMTest", "ema"])
    grid = rng.choice([None, None, "15m", "15mgap"])
    be = "nb"
    if k == "EWMA":
        o, p, spec, be = "ewma", dict(span=_w(rng, n)), ["t", "EWMA", {}], rng.choice(["nb", "pd"])
        spec[2].update(span=p["span"], input_col=rng.choice(feat.PX + feat.VO + feat.RT))
    elif k == "ema":
        a = rng.random() < 0.5
        o, p = ("ewma" if a else "fixed"), dict(span=_w(rng, n))
        spec = ["un", "ema", ["t", "Identity", dict(input_col=rng.choice(feat.PX + feat.VO + feat.RT))], [p["span"], a]]
    elif k == "EWMST":
        o, p = "ewmst", dict(hl=rng.choice(feat.TD + [86400.0]))
        spec = ["t", k, dict(half_life={"td": p["hl"]}, input_col=rng.choice(feat.RT))]
    elif k == "RSIWilder":
        o, p = "rsi", dict(w=_w(rng, n))
        spec = ["t", k, dict(window=p["w"], input_col=rng.choice(["close", "open", "vwap"]))]
    elif k == "ADX":
        o, p = "adx", dict(w=_w(rng, n))
        spec = ["t", k, dict(length=p["w"])]
    elif k == "ATR":
        o, p = "atr", dict(w=_w(rng, n), norm=rng.random() < 0.5)
        spec = ["t", k, dict(window=p["w"], ema_based=True, normalize=p["norm"])]
    elif k == "BarDurationEWMA":
        o, p = "dur", dict(span=_w(rng, n))
        spec = ["t", k, dict(span=p["span"])]
    elif k == "DirRunLen":
        o, p, spec = "runs", {}, ["t", k, dict(input_col="ret")]
    elif k == "CUSUMTest":
        o, p = "age", dict(max_age=rng.choice([2, 5, 144, 300]))
        spec = ["t", k, dict(window_size=rng.choice([4, 6, 10]), warmup_period=rng.choice([2, 3, 5]), max_age=p["max_age"], input_col="close")]
    else:
        o, p, spec, grid = ("orb" if k == "ORBBreak" else "gap"), {}, ["t", k, {}], rng.choice(["15m", "15mgap", "15m"])
        if o == "gap":
            spec[2]["input_col"] = rng.choice(["close", "x"])
    return dict(o=o, p=p, spec=spec, backend=be, grid=grid)


def gen(rng, tier, idx):
    n = rng.choice([1, 2, 3, 5, 8, 12, 16, 24, 32, 48, 100 if tier == "quick" else 200])
    job = gen_job(rng, n)
    if job["o"] in ("orb", "gap"):
        n = rng.choice([24, 48, 100, 200])
    long = (job["o"] == "age" and job["p"]["max_age"] == 300 or job["o"] == "runs") and rng.random() < 0.3
    if long:
        n = 400
    tape = data.gen_tape(rng, n)
    if long:                                    # a market that moves one way for long
        for i, o in enumerate(tape["ops"]):
            o[1] = 1 if i > 20 and (i < 330 or rng.random() < 0.5) else o[1]
    for o in tape["ops"]:
        if rng.random() < 0.03:
            o[4] |= rng.choice([1, 2, 3])
    if rng.random() < 0.1:                      # data only here and there
        for o in tape["ops"]:
            o[4] |= 3 if rng.random() < 0.8 else 0
    if job["o"] in ("orb", "gap"):              # around a midnight
        tape["t0"] = tape["t0"] // data.DAY * data.DAY + rng.choice([0, 20 * 3600, 23 * 3600]) * 10 ** 9 + rng.choice([0, Q15, 10 ** 9])
    if rng.random() < 0.2:                      # an outage
        tape["ops"][rng.randrange(n)][0] += rng.choice([36, 50, 120]) * 3600 * 10 ** 9
    outage = [rng.randrange(n), rng.choice([24 * 4, 30 * 4, 50 * 4, 120 * 4])] if rng.random() < 0.4 else None      # (of the grid)
    return dict(job=job, tape=tape, outage=outage, cuts=[[rng.random(), rng.choice([0, 0, 1])] for _ in range(rng.choice([1, 2, 3]))], kills=[rng.random() for _ in range(rng.choice([0, 1, 2, 5]))])


def valid_plan(p):
    return len(p["tape"]["ops"]) >= 1


def stamps(job, d):
    return d.ts if job.get("ties") else d.uts


def thresholds(job, d):
    k = getattr(d, "i0", 0) + np.arange(d.n)
    th = job["th"] * (1.0 + k % 3)
    if job["one"]:
        return np.full(d.n, job["th"])
    h = job["holes"]
    th[(k < h[0]) | ((k >= h[1]) & (k < h[1] + h[2]))] = np.nan
    return th


def real(job, d, df):
    """What the library reports: one entry per bar (None: not reported at this bar)."""
    o, p = job["o"], job["p"]
    if "spec" in job:
        cols = [np.asarray(s) for _, s in feat.columns(feat.build(job["spec"])(df, backend=job["backend"]))]
        return cols
    if o == "profile":
        lo, hi, pl, bv, sv = catalog._levels(d, {})
        import finmlkit.feature.core.volume as V
        if p["roll"]:
            r = V.volume_profile_rolling(d.uts, hi, lo, pl, bv, sv, p["sec"], None, d.tick, p["va"])
        else:
            ts, a, b, c = V.volume_profile_developing(d.uts, hi, lo, pl, bv, sv, int(d.uts[0]), int(d.uts[-1]), None, d.tick, p["va"])
            if not np.array_equal(ts, d.uts):
                raise core.Violation("profile-bars", f"{job}: reported for {len(ts)} of {d.n} bars")
            r = (a, b, c)
        return [np.asarray(x) for x in r]
    import importlib
    f = getattr(importlib.import_module("finmlkit." + CORE[o][0]), CORE[o][1])
    y = getattr(d, job["col"]) if "col" in job else None
    if o in ("ewma", "ewms"):
        return [f(y, p["span"])]
    if o in ("ewmst", "mean0"):
        return [f(stamps(job, d), y, p["hl"])]
    if o == "rsi":
        return [f(d.px, p["w"])]
    if o == "adx":
        return [f(d.high, d.low, d.px, p["w"])]
    if o == "atr":
        return [f(d.high, d.low, d.px, p["w"], True, p["norm"])]
    out = np.zeros(d.n, int)
    if d.n >= 2:
        ev = np.asarray(f(d.px, np.array([job["th"]]) if job["one"] else thresholds(job, d)))
        if len(set(ev.tolist())) != len(ev):
            raise core.Violation("event-twice", f"{job}: {ev}")
        out[ev] = 1
    return [out]


def records(job, d, df, got):
    """What the observer sees, one bar at a time."""
    o = job["o"]
    if "spec" in job:
        ts = df.index.asi8
        sp = job["spec"]
        kw = sp[2] if sp[0] == "t" else sp[2][2]
        hlc = [df[c].to_numpy(float).tolist() for c in ("high", "low", "close")]
        if o in ("ewma", "fixed", "rsi", "runs"):
            return df[kw["input_col"]].to_numpy(float).tolist()
        if o == "ewmst":
            return list(zip(ts.tolist(), df[kw["input_col"]].to_numpy(float).tolist()))
        if o in ("adx", "atr"):
            return list(zip(*hlc))
        if o == "dur":
            return ts.tolist()
        if o == "orb":
            return list(zip(ts.tolist(), *hlc))
        if o == "gap":
            return list(zip(ts.tolist(), df[kw["input_col"]].to_numpy(float).tolist()))
        return list(zip(got[2].tolist(), got[3].tolist()))
    if o == "profile":
        _, _, pl, bv, sv = catalog._levels(d, {})
        return [(int(t), x.tolist(), (b.astype(float) + s).tolist()) for t, x, b, s in zip(d.uts, pl, bv, sv)]
    if o in ("ewma", "ewms"):
        return getattr(d, job["col"]).tolist()
    if o in ("ewmst", "mean0"):
        return list(zip(stamps(job, d).tolist(), getattr(d, job["col"]).tolist()))
    if o == "rsi":
        return d.px.tolist()
    if o in ("adx", "atr"):
        return list(zip(d.high.tolist(), d.low.tolist(), d.px.tolist()))
    return list(zip(d.px.tolist(), thresholds(job, d).tolist()))


def magnitude(recs):
    m = 0.0
    for r in recs:
        for x in (r if isinstance(r, tuple) else (r,)):
            if isinstance(x, float) and math.isfinite(x):
                m = max(m, abs(x))
    return m


def check_profile(job, i, got, want, bad):
    poc, hva, lva = (int(a[i]) for a in got[:3])
    if want is None:                            # the first window is not over
        if any(float(a[i]) for a in got):
            bad(i, (poc, hva, lva), "nothing yet")
        return
    top, total = max(want.values()), sum(want.values())
    if want.get(poc, 0.0) != top or not min(want) <= lva <= poc <= hva <= max(want):
        bad(i, (poc, hva, lva), f"the largest volume {top} at {[k for k in sorted(want) if want[k] == top]} of levels {min(want)}..{max(want)}")
    area = sum(v for k, v in want.items() if lva <= k <= hva)
    if total > 0 and area < total * job["p"]["va"] / 100.0 * (1 - 1e-6):
        bad(i, (poc, hva, lva), f"a value area of {job['p']['va']} % of {total} (has {area})")
    if len(got) > 3 and total > 0:
        up = sum(v for k, v in want.items() if k > poc) / total
        if abs(float(got[3][i]) - up) > 1e-6:
            bad(i, float(got[3][i]), up)


def compare(run, job, got, recs, kills, what):
    o = job["o"]
    step = OBS[o](job["p"])
    m = magnitude(recs)
    state = {}

    def bad(i, g, w):
        raise core.Violation(f"memory:{o}", f"{job} {what}: at bar {i} of {len(recs)} reported {g}, the observer has {w}")
    for a in got:
        if len(a) != len(recs):
            raise core.Violation(f"memory:{o}", f"{job} {what}: {len(a)} values for {len(recs)} bars")
    for i, r in enumerate(recs):
        if i in kills:                          # the observer is killed; a new one continues from the checkpoint
            run.fault("kill-observer")
            state = json.loads(json.dumps(state))
        w = step(state, r)
        if o == "profile":
            check_profile(job, i, got, w, bad)
            run.sub += 1
            if w is not None:
                run.nontrivial = True
            continue
        if o == "age":
            w = tuple(w)
            g = tuple(int(a[i]) for a in got[4:6])
            ok = g == w
        elif o == "orb":
            g = tuple(bool(a[i]) for a in got)
            ok = g == tuple(w)
        elif o in ("ewms", "ewmst"):
            g, (w, k) = float(got[0][i]), w
            if w == "unknown":
                continue
            ok = (math.isnan(g) and math.isnan(w)) or (g >= 0 and abs(g * g - w * w) <= 1e-9 * w * w + (1e-12 + state.get("eps", 0.0)) * m * m * max(k, 1.0) + 1e-23)
        else:
            g = float(got[0][i])
            if w == "unknown":
                if o == "events":
                    return
                continue
            w = float(w)
            tol = {"rsi": 1e-7, "adx": 1e-7}.get(o, 1e-9 * max(abs(w), m if o in ("ewma", "fixed", "dur", "atr") and not job["p"].get("norm") else 0.0))
            tol += state.get("eps", 0.0) * m
            ok = (math.isnan(g) and math.isnan(w)) or abs(g - w) <= tol
        run.sub += 1
        if not ok:
            bad(i, g, w)
        if not (isinstance(w, float) and math.isnan(w)):
            run.nontrivial = True


def execute(run):
    pl = run.plan
    job = pl["job"]
    full = data.D(pl["tape"])
    n = full.n
    run.sig(repr(job), repr(pl["tape"]))
    run.sim_ns += int(full.ts[-1] - full.ts[0])
    kills = {1 + int(k * n) for k in pl["kills"]}
    table = feat.bars(full, job["grid"]) if "spec" in job else None
    if table is not None and job["grid"] and pl["outage"]:
        at, k = pl["outage"]
        table.index = pd.DatetimeIndex(table.index.asi8 + np.where(np.arange(n) >= at, k * Q15, 0), name="timestamp")
    views = [(0, n, "uninterrupted")]
    for frac, mode in pl["cuts"]:
        k = 1 + int(frac * (n - 1))
        views.append((0, k, f"stopped after bar {k}") if mode == 0 else (k - 1, n, f"started late at bar {k - 1}"))
    for a, b, what in views:
        if (a, b) != (0, n):
            run.fault("restart" if a == 0 else "late-start")
            fresh.restore()
        d = cut_d(full, a) if a else full
        if b < n:
            d = data.D(pl["tape"], upto=b)
        df = None if table is None else table.iloc[a:b].copy()
        got = run.call("compute:" + job["o"], real, job, d, df)
        run.log(what, [a_.tolist() for a_ in got[:1]])
        run.sig(a, b)
        compare(run, job, got, records(job, d, df, got), {k - a for k in kills}, what)
