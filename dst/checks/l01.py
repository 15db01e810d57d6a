"""L01: bar builders on a streamed tape that is cut at seeded instants (or continued differently), and every bar against its own trades."""
import numpy as np
import pandas as pd

from dst import core, data, fresh, seams, work

RUNS = dict(quick=8000, thorough=800000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: a streamed tape restarted at seeded instants and continued with alternative futures; every bar recomputed from its trades"
LEVEL_NOTE = ("Seeded search over tapes, bar types, thresholds, instants and futures; the bars that are final at an instant must be the same in every continuation, and each bar (OHLCV, VWAP, median, "
              "buy/sell totals, spreads, cumulative extremes, footprint levels and statistics) and each closing instant is recomputed from exactly the trades of its interval")
RULE = "a run counts when the full tape produced at least one bar that was recomputed and one instant with final bars was compared; distinct by bar type, parameters, tape and instants"
MEASURE = "distinct (bar type, parameters, tape, instants)"
REAL = ["TradesData, all five bar kits, bar indexers, OHLCV, directional, trade-size and footprint kernels, FootprintData (interpreted source)", "numpy", "pandas"]
STUB = ["Numba's compiler", "the trade feed (seeded tapes) and its clock"]
ASSUMPTIONS = ["a time bar is closed once a trade later than its end is known; a CUSUM bar once a trade with a later timestamp than its last trade is known (no bar may end inside a block of equal timestamps); other bars when their last trade arrives",
               "the price tick is given (an inferred tick depends on the whole sample)", "the first bar starts after the opening boundary: the first trade (tick, volume, dollar), the first trade with a known sigma (CUSUM), the start of the first period (time)"]
SHRINK_LISTS = ("ops", "cuts", "methods")
SHRINK_MIN = {"cuts": 1, "methods": 1}


def setup(scratch):
    seams.install()


def gen(rng, tier, idx):
    n = rng.choice([2, 3, 5, 8, 12, 16, 24, 32, 48, 64 if tier == "quick" else 160])
    k = rng.choice(work.BARKITS)
    job = dict(kind="bars", kit=k, kp=work.gen_kit_params(rng, n, k), methods=rng.sample(work.METHODS, 4), theta=rng.choice([0.01, 1.0, 20.0]), imb=rng.choice([1.0, 1.5, 3.0]), tick=True, thz=work.gen_thz(rng))
    if k in ("VolumeBarKit", "DollarBarKit") and rng.random() < 0.6:
        job["kp"]["v"] *= rng.choice([0.1, 0.5, 3.0, 10.0])
    tape = data.gen_tape(rng, n)
    if rng.random() < 0.12:                    # a market of very small units
        tape["unit"] = rng.choice([10 ** 5, 10 ** 8])
        job["theta"] *= tape["unit"]
        if "v" in job["kp"]:
            job["kp"]["v"] *= tape["unit"]
    return dict(job=job, tape=tape, cuts=[[rng.random(), rng.choice([0, 0, 1, 2])] for _ in range(rng.choice([2, 3, 5]))], again=rng.random() < 0.2,
                window=[rng.random(), rng.random()] if rng.random() < 0.3 else None)


def valid_plan(p):
    return len(p["tape"]["ops"]) >= 2


def _sig(job, n):
    return work.sigma(job["kp"], n)


def build(job, d, trades=None):
    """All bar products plus the boundaries; None when the tape has no bar."""
    sig = _sig(job, d.n) if job["kit"] == "CUSUMBarKit" else None
    kit = work.bar_kit(job, (trades or work.trades_data(d), sig))
    idx = np.asarray(kit.bar_close_indices)
    ts = np.asarray(kit.bar_close_timestamps)
    if len(idx) == 0:
        return None
    jb = dict(job, fptick=d.tick)
    if sig is not None and len(np.atleast_1d(sig)) == d.n:
        got, want = np.asarray(kit.get_sigma()), np.asarray(_sig(job, d.n))[idx]
        if got.shape != want.shape or np.any((got != want) & ~np.isnan(want)):
            raise core.Violation("bar-sigma", f"{job}: volatility at the closes {idx[:8]} is {got[:8]}, given {want[:8]}")
    out = {m: work.bar_method(jb, kit, m) for m in job["methods"]}
    if job.get("again"):
        for m in reversed(job["methods"]):
            df = data.same(out[m], work.bar_method(jb, kit, m))
            if df:
                raise core.Violation(f"rebuild:{job['kit']}:{m}", df)
    return idx, ts, out


def final_bars(job, b, ts_known):
    """Number of leading bars that are closed for good when the trades with these timestamps are known."""
    if b is None:
        return 0
    idx, close_ts, _ = b
    k = len(ts_known)
    if job["kit"] == "TimeBarKit":
        return int(np.sum(close_ts < ts_known[-1]))
    if job["kit"] == "CUSUMBarKit":
        return int(np.sum([i < k and ts_known[i] < ts_known[-1] for i in idx]))
    return int(np.sum(idx < k))


def cut(x, m):
    """The first m bars of any bar product."""
    if isinstance(x, dict):
        return {k: (v if k == "price_tick" else cut(v, m)) for k, v in x.items()}
    if hasattr(x, "iloc"):
        return x.iloc[:m]
    return x[:m]


def first_boundary(job, d, close_ts):
    if job["kit"] == "TimeBarKit":
        return int(np.searchsorted(d.ts, close_ts[0] - round(job["kp"]["sec"] * 1e9), side="right")) - 1
    if job["kit"] == "CUSUMBarKit":
        s = _sig(job, d.n)
        ok = np.flatnonzero(~np.isnan(s))
        return int(ok[0]) if len(ok) else 0
    return 0


def closes(job, d, am, idx):
    """Where the documented closing rule ends bars: a reference that walks trade by trade. Where the accumulated quantity is within rounding of the threshold the
    built boundary is taken over, unless all sizes are whole numbers (their sums are exact)."""
    kit, kp, n = job["kit"], job["kp"], d.n
    built = set(int(x) for x in idx)
    out = []
    if kit == "TickBarKit":
        c = 1
        for i in range(1, n):
            c += 1
            if c >= kp["k"]:
                out.append(i)
                c = 0
    elif kit in ("VolumeBarKit", "DollarBarKit"):
        q = am if kit == "VolumeBarKit" else am * d.px
        exact = bool(np.all(q == np.rint(q)))
        c, v, scale = 0.0, kp["v"], kp["v"]
        for i in range(n):
            c += q[i]
            scale += abs(q[i])
            if i and (c >= v if exact or abs(c - v) > 1e-12 * scale * n else i in built):
                out.append(i)
                c = 0.0 if kit == "VolumeBarKit" else c - v
    elif kit == "CUSUMBarKit":
        s = _sig(job, n)
        ok = np.flatnonzero(~np.isnan(s))
        up = dn = 0.0
        lam = np.nan
        for i in range(n):
            if not np.isnan(s[i]):
                lam = max(kp["mult"] * s[i], kp["floor"])
            if not len(ok) or i <= ok[0]:
                continue
            r = np.log(d.px[i] / d.px[i - 1])
            up, dn = max(0.0, up + r), min(0.0, dn + r)
            if i + 1 < n and d.ts[i] == d.ts[i + 1]:
                continue
            for k in (0, 1):
                x = up if k == 0 else -dn
                if (i in built) if abs(x - lam) < 1e-11 else x >= lam:
                    out.append(i)
                    up, dn = (0.0, dn) if k == 0 else (up, 0.0)
                    break
    return out


def verify(run, job, d, b):
    """Every bar of a build against its trades."""
    idx, cts, out = b
    kit = job["kit"]
    prev = first_boundary(job, d, cts)
    px, am, side, tick = d.px, work.trades_data(d).data["amount"].to_numpy(dtype=float), d.side, d.tick

    def bad(what, i, got, want):
        raise core.Violation(f"bar-content:{kit}:{what}", f"{job} bar {i} of {len(idx)}: {what} is {got}, its trades say {want}")

    if kit != "TimeBarKit":
        want = closes(job, d, am, idx)
        if [int(x) for x in idx] != want:
            raise core.Violation(f"closing-rule:{kit}", f"{job}: bars close at trades {list(map(int, idx))[:12]}, the threshold is reached at {want[:12]}")

    def near(a, b, r=2e-6):
        a, b = float(a), float(b)
        return (np.isnan(a) and np.isnan(b)) or a == b or abs(a - b) <= r * max(abs(a), abs(b))
    for i, e in enumerate(idx):
        e = int(e)
        if e < prev or e >= d.n or (kit != "TimeBarKit" and e == prev):
            raise core.Violation(f"boundary:{kit}", f"{job}: boundaries {prev} -> {e} (bar {i}) of {d.n} trades")
        if kit == "TimeBarKit":
            if e != int(np.searchsorted(d.ts, cts[i], side="right")) - 1:
                raise core.Violation(f"boundary:{kit}", f"{job}: bar {i} ends at {cts[i]} but its last trade is {e}")
            if i and cts[i] - cts[i - 1] != round(job["kp"]["sec"] * 1e9):
                raise core.Violation(f"boundary:{kit}", f"{job}: bar {i} spans {cts[i] - cts[i - 1]} ns")
        elif cts[i] != d.ts[e]:
            raise core.Violation(f"boundary:{kit}", f"{job}: bar {i} closes at {cts[i]}, its last trade is at {d.ts[e]}")
        s = slice(prev + 1, e + 1)
        p, a, sd = px[s], am[s], side[s]
        n = len(p)
        o = out.get("build_ohlcv")
        if o is not None:
            r = o.iloc[i]
            if o.index[i].value != cts[i]:
                bad("timestamp", i, o.index[i], cts[i])
            want = dict(trades=n, volume=a.sum(), open=p[0] if n else px[e], high=p.max() if n else px[e], low=p.min() if n else px[e], close=px[e], vwap=(p * a).sum() / a.sum() if n and a.sum() > 0 else 0.0,
                        median_trade_size=np.median(a) if n else 0.0)
            for c, w in want.items():
                if not near(r[c], w):
                    bad(c, i, r[c], w)
        o = out.get("build_directional_features")
        if o is not None:
            r = o.iloc[i]
            buy, sell = sd > 0, sd < 0
            cv = np.cumsum(a * sd)
            want = dict(ticks_buy=buy.sum(), ticks_sell=sell.sum(), volume_buy=a[buy].sum(), volume_sell=a[sell].sum(), dollars_buy=(a * p)[buy].sum(), dollars_sell=(a * p)[sell].sum())
            if n:
                want.update(cum_ticks_min=np.cumsum(sd, dtype=np.int64).min(), cum_ticks_max=np.cumsum(sd, dtype=np.int64).max())
            for c, w in want.items():
                if not near(r[c], w, 2e-5):
                    bad(c, i, r[c], w)
            if n:
                cd = np.cumsum(a * p * sd)
                for c, w, t in (("cum_volume_min", cv.min(), a.sum()), ("cum_volume_max", cv.max(), a.sum()), ("cum_dollars_min", cd.min(), (a * p).sum()), ("cum_dollars_max", cd.max(), (a * p).sum())):
                    if abs(float(r[c]) - w) > 1e-5 * t + 1e-9:
                        bad(c, i, r[c], w)
            # the spread is seen where the aggressor side changes, also from the last trade before the bar
            ch = [abs(px[j] - px[j - 1]) for j in range(max(prev + 1, 1), e + 1) if side[j] != (side[j - 1] if j > prev + 1 or (n > 1 and prev >= 0) else 0)]
            want = dict(max_spread=max(ch, default=0.0), mean_spread=sum(ch) / n if n else np.nan)
            for c, w in want.items():
                if not near(r[c], w, 2e-5) and abs(float(r[c]) - w) > 1e-4 * tick:
                    bad(c, i, r[c], w)
        o = out.get("build_trade_size_features")
        if o is not None:
            r = o.iloc[i]
            th = work.theta(job, i + 1)[i]
            want = {} if not th > 0 else dict(mean_size_rel=np.log1p(a.mean() / (5 * th)), pct_block=a[a > 5 * th].sum() / a.sum(), size_gini=1 - np.sum((a / a.sum()) ** 2),
                        size_95_rel=np.log1p(np.percentile(a, 95) / (5 * th))) if n and a.sum() > 0 else dict(size_gini=np.nan, pct_block=np.nan) if n else dict(mean_size_rel=np.nan, pct_block=np.nan, size_gini=np.nan, size_95_rel=np.nan)
            for c, w in want.items():
                if not near(r[c], w, 2e-5) and abs(float(r[c]) - w) > 1e-6:
                    bad(c, i, r[c], w)
        o = out.get("build_footprints")
        if o is not None:
            lv = np.asarray(o["price_levels"][i])
            tl = np.rint(p / tick).astype(int)
            if n and not set(tl) <= set(lv.tolist()):
                bad("price_levels", i, lv, tl)
            for f, m, w in (("buy_volumes", sd > 0, a), ("sell_volumes", sd < 0, a), ("buy_ticks", sd > 0, np.ones(n)), ("sell_ticks", sd < 0, np.ones(n))):
                got = np.asarray(o[f][i], dtype=float)
                want = np.array([w[m & (tl == x)].sum() for x in lv])
                if len(got) != len(lv) or not np.allclose(got, want, rtol=2e-5, atol=1e-9):
                    bad("footprint " + f, i, got, want)
            bv, sv = np.asarray(o["buy_volumes"][i], dtype=float), np.asarray(o["sell_volumes"][i], dtype=float)
            derived(i, o, lv, bv, sv, job["imb"], bad)
        run.sub += 1
        prev = e
    if kit == "TimeBarKit" and prev != d.n - 1:
        raise core.Violation(f"conservation:{kit}", f"{job}: trades after {prev} of {d.n} are in no bar")


def derived(i, o, lv, bv, sv, imb, bad):
    """Footprint statistics of a bar against the volumes per level of that bar."""
    n = len(lv)
    edge = np.zeros(n, dtype=bool)
    wb, ws = np.zeros(n, dtype=bool), np.zeros(n, dtype=bool)
    for j in range(1, n):
        for w, k, a, b in ((wb, j, bv[j], sv[j - 1] * imb), (ws, j - 1, sv[j - 1], bv[j] * imb)):
            w[k] = a > b
            edge[k] |= a != b and abs(a - b) <= 1e-6 * max(a, b)
    gb, gs = np.asarray(o["buy_imbalances"][i]), np.asarray(o["sell_imbalances"][i])
    for c, g, w in (("buy_imbalances", gb, wb), ("sell_imbalances", gs, ws)):
        if len(g) != n or np.any((g != w) & ~edge):
            bad(c, i, g, w)
        if int(o[c + "_sum"][i]) != int(g.sum()):
            bad(c + "_sum", i, o[c + "_sum"][i], g.sum())
    best = run = sign = last = 0
    for j in range(n):
        s = 1 if gb[j] else -1 if gs[j] else 0
        run = run + 1 if s and s == last else (1 if s else 0)
        last = s
        if run > best:
            best, sign = run, s
    if int(o["imb_max_run_signed"][i]) != best * sign:
        bad("imb_max_run_signed", i, o["imb_max_run_signed"][i], best * sign)
    tot = bv + sv
    if int(o["cot_price_levels"][i]) not in set(lv[tot >= tot.max() * (1 - 1e-6)].tolist()):
        bad("cot_price_levels", i, o["cot_price_levels"][i], lv[int(np.argmax(tot))])
    if tot.sum() > 0:
        w = 1 - np.sum((tot / tot.sum()) ** 2)
        if abs(float(o["vp_gini"][i]) - w) > 1e-4:
            bad("vp_gini", i, o["vp_gini"][i], w)


def window(run, job, d, u, v):
    """Bars over a window of the tape hold exactly the trades of the window."""
    i, j = sorted((int(u * d.n), int(v * d.n)))
    if d.ts[i] >= d.ts[j]:
        return
    td = work.trades_data(d)
    td.set_view_range(pd.Timestamp(int(d.ts[i])), pd.Timestamp(int(d.ts[j])))
    w = d.window(int(np.searchsorted(d.ts, d.ts[i])), int(np.searchsorted(d.ts, d.ts[j], side="right")))
    if work.too_big(job, w, None):
        return
    b = run.call("window:" + job["kit"], build, job, w, td)
    run.log("window", w.n, b is None)
    if b is not None:
        verify(run, job, w, b)
        run.probe("window")


def execute(run):
    pl = run.plan
    job = dict(pl["job"], again=pl["again"])
    d = data.D(pl["tape"])
    if work.too_big(job, d, None):
        run.probe("too-big")
        return
    if job["methods"] and "build_footprints" in job["methods"] and d.level.max() - d.level.min() > 20000:
        job["methods"] = [m for m in job["methods"] if m != "build_footprints"] or ["build_ohlcv"]
    n = d.n
    run.sig(repr(job), repr(pl["tape"]))
    run.sim_ns += int(d.ts[-1] - d.ts[0])
    full = run.call(job["kit"], build, job, d)
    if full is None:
        run.probe("no-bar")
    else:
        verify(run, job, d, full)
    if pl["window"]:
        window(run, job, d, *pl["window"])
    for frac, mode in pl["cuts"]:
        k = max(1, min(n - 1, 1 + int(frac * (n - 1))))
        if mode == 0:
            dd = data.D(pl["tape"], upto=k)
            run.fault("restart")
            fresh.restore()
        else:
            dd = data.D(pl["tape"], mutate_from=k, mut=mode)
            run.fault("other-future")
        if work.too_big(job, dd, None):
            continue
        part = run.call(job["kit"], build, job, dd)
        ma, mb = final_bars(job, full, d.ts[:k]), final_bars(job, part, d.ts[:k])
        run.sig(k, mode)
        run.log(k, mode, ma, mb)
        if ma != mb:
            raise core.Violation(f"not-final:{job['kit']}:count", f"{job}: at trade {k} of {n} {mb} bars are closed, {ma} of the bars built from the full tape ended by then (mode {mode})")
        if ma == 0:
            continue
        run.nontrivial = True
        run.sub += ma
        for what, a, b in [("indices", full[0][:ma], part[0][:ma]), ("timestamps", full[1][:ma], part[1][:ma])] + [(m, cut(full[2][m], ma), cut(part[2][m], ma)) for m in job["methods"]]:
            if hasattr(a, "index") and getattr(a.index, "freq", None) is not None:
                a, b = a.copy(), b.copy()
            df = data.same(a, b)
            if df:
                raise core.Violation(f"not-final:{job['kit']}:{what}", f"{job}: at trade {k} of {n} (mode {mode}): {df}")
