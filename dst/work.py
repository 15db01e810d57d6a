"""Jobs: end-to-end computations through the public classes.  A job is JSON; `inputs` builds the objects a caller would hold,
`perform` calls the library on them.  Inputs can be shared between callers (P03), garbage-filled allocations (P02) or a thread team (P01) apply to `perform`."""
import importlib

import numpy as np
import pandas as pd

from . import catalog, data, feat

BARKITS = ["TimeBarKit", "TickBarKit", "VolumeBarKit", "DollarBarKit", "CUSUMBarKit"]
METHODS = ["build_ohlcv", "build_directional_features", "build_trade_size_features", "build_footprints"]


def gen_kit_params(rng, n, kit):
    if kit == "TimeBarKit":
        return dict(sec=rng.choice([0.5, 1.0, 1.0, 5.0, 60.0, 60.0, 900.0]))
    if kit == "TickBarKit":
        return dict(k=rng.choice([1, 2, 3, 5, max(1, n // 2), n + 1]))
    if kit == "VolumeBarKit":
        return dict(v=rng.choice([1e-4, 0.01, 1.0, 50.0, 1000.0, 1e6]))
    if kit == "DollarBarKit":
        return dict(v=rng.choice([1.0, 100.0, 1e4, 1e6, 1e9]))
    return dict(sig=rng.choice([1e-5, 1e-4, 1e-3, 1e-2]), nan=rng.choice([0, 0, 1, 3]), hole=rng.choice([None, None, [rng.randrange(n + 1), rng.choice([1, 2, 5, 30])]]), floor=rng.choice([1e-6, 5e-4]), mult=rng.choice([0.5, 1.0, 2.0]))


def gen_thz(rng):
    return rng.choice([None, None, None, ["nan", rng.randrange(5)], ["zero", rng.randrange(5)]])


def gen_job(rng, n, kinds=None):
    kind = rng.choice(kinds or ["core", "core", "feat", "feat", "kit", "bars", "label", "trades", "volpro"])
    if kind == "core":
        names = catalog.names(lambda e: e.min_n <= n)
        e = rng.choice(names)
        return dict(kind=kind, entry=e, p=catalog.ENTRIES[e].gen(rng, n))
    if kind == "feat":
        nm = rng.choice(sorted(feat.TRANSFORMS))
        sp = ["t", nm, feat.TRANSFORMS[nm][1](rng, n)] if rng.random() < 0.6 else feat.gen_feature(rng, n)
        return dict(kind=kind, spec=sp, backend=rng.choice(["nb", "nb", "pd"]), grid=rng.choice([None, None, "15m"]))
    if kind == "kit":
        return dict(kind=kind, specs=[feat.gen_feature(rng, n) for _ in range(rng.choice([1, 2, 3, 4]))], backend=rng.choice(["nb", "pd"]), order=rng.choice(["defined", "topo"]),
                    retain=rng.choice([[], ["close"], ["volume", "open"]]))
    if kind == "bars":
        k = rng.choice(BARKITS)
        return dict(kind=kind, kit=k, kp=gen_kit_params(rng, n, k), methods=rng.sample(METHODS, rng.choice([1, 2, 4])), theta=rng.choice([0.01, 1.0, 20.0]), imb=rng.choice([1.5, 3.0]), thz=gen_thz(rng),
                    tick=rng.random() < 0.7)
    if kind == "label":
        return dict(kind=kind, lab=catalog.glab(rng, n), meta=rng.random() < 0.4, idx=rng.random() < 0.5, norm=rng.random() < 0.5, decay=rng.choice([1.0, 0.5, 0.0, -0.3]))
    if kind == "trades":
        return dict(kind=kind, perm=rng.randrange(1 << 30), dup=rng.choice([0, 0, 1, 3]), maker=rng.random() < 0.6, unit=rng.choice(["ms", "us", "ns"]), res=rng.choice([None, None, "ms"]))
    k = rng.choice(BARKITS)
    return dict(kind="volpro", kit=k, kp=gen_kit_params(rng, n, k), w=rng.choice([0.5, 3.0, 60.0, 1800.0]), bins=rng.choice([2, 5, 27]), va=rng.choice([68.34, 50.0]))


def min_n(job):
    return catalog.ENTRIES[job["entry"]].min_n if job["kind"] == "core" else {"bars": 2, "volpro": 2, "label": 2, "trades": 1}.get(job["kind"], 0)


def sigma(kp, n):
    """Volatility estimates as an online estimator reports them: none at first, possibly a hole later."""
    sig = kp["sig"] * (1.0 + np.arange(n) % 3)
    sig[:kp["nan"]] = np.nan
    if kp.get("hole"):
        sig[kp["hole"][0]:kp["hole"][0] + kp["hole"][1]] = np.nan
        sig[kp["hole"][0] + kp["hole"][1]:] *= 4.0
    return sig


def theta(job, nb):
    th = job["theta"] * (1.0 + np.arange(nb) % 2)
    if job.get("thz"):
        th[job["thz"][1]::5] = np.nan if job["thz"][0] == "nan" else 0.0
    return th


def trades_data(d, extra=None):
    from finmlkit.bar.data_model import TradesData
    return TradesData(d.ts.copy(), d.px.copy(), d.am.copy(), np.arange(d.n), side=d.side.copy(), timestamp_unit="ns")


def inputs(job, d):
    k = job["kind"]
    if k == "core":
        return catalog.ENTRIES[job["entry"]].args(d, job["p"])
    if k in ("feat", "kit"):
        return (feat.bars(d, job.get("grid")),)
    if k in ("bars", "volpro"):
        kp = job["kp"]
        sig = None
        if job["kit"] == "CUSUMBarKit":
            sig = sigma(kp, d.n)
        return (trades_data(d), sig)
    if k == "label":
        p = job["lab"]
        e = catalog.evs(d, p)
        du = _Uts(d)
        ev = pd.DataFrame(dict(tgt=p["tg"] * (1.0 + (e % 3)), f1=d.px[e]), index=pd.to_datetime(d.uts[e]))
        if job["meta"]:
            ev["side"] = np.where(e % 2 == 0, 1, -1)
        if job["idx"]:
            ev["event_idx"] = e
        return (trades_data(du), ev)
    if k == "trades":
        rng = np.random.default_rng(job["perm"])
        idx = rng.permutation(d.n)
        if job["dup"] and d.n:
            idx = np.concatenate([idx, rng.integers(0, d.n, job["dup"])])
        div = {"ms": 10 ** 6, "us": 10 ** 3, "ns": 1}[job["unit"]]
        ts = (d.ts // div)[idx]
        return (ts, d.px[idx], d.am[idx].astype(np.float32), np.arange(d.n)[idx] + 1000, (d.side[idx] < 0) if job["maker"] else None)
    raise ValueError(k)


class _Uts:
    """The tape with strictly increasing timestamps (so that an event time names one trade)."""

    def __init__(self, d):
        self.ts, self.px, self.am, self.side, self.n = d.uts, d.px, d.am, d.side, d.n


def bar_kit(job, inp):
    from finmlkit.bar import kit
    cls, kp, (t, sig) = getattr(kit, job["kit"]), job["kp"], inp
    if job["kit"] == "TimeBarKit":
        return cls(t, pd.Timedelta(seconds=kp["sec"]))
    if job["kit"] == "CUSUMBarKit":
        return cls(t, sig, kp["floor"], kp["mult"])
    return cls(t, kp.get("k", kp.get("v")))


def fp_parts(fp):
    return {f: catalog.freeze(getattr(fp, f)) for f in ("bar_timestamps", "price_levels", "price_tick", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances",
                                                        "sell_imbalances", "buy_imbalances_sum", "sell_imbalances_sum", "cot_price_levels", "imb_max_run_signed", "vp_skew", "vp_gini")}


def bar_method(job, kit, m, aux=None):
    if m == "build_trade_size_features":
        nb = len(kit.bar_close_indices)
        th = theta(job, nb) if aux is None else aux.setdefault(("theta", nb), theta(job, nb))
        return kit.build_trade_size_features(th)
    if m == "build_footprints":
        return fp_parts(kit.build_footprints(job["fptick"] if job.get("tick") else None, job["imb"]))
    return getattr(kit, m)()


def too_big(job, d, inp):
    """Time bars over a long silence, or footprints of a huge price range, only cost time."""
    if job["kind"] in ("bars", "volpro"):
        if job["kit"] == "TimeBarKit" and d.n and (d.ts[-1] - d.ts[0]) / 1e9 / job["kp"]["sec"] > 2000:
            return True
    return False


def prepared(job, d):
    """What callers of this job share (a builder or kit object on top of the inputs)."""
    inp = inputs(job, d)
    k = job["kind"]
    if k == "kit":
        from finmlkit.feature.kit import FeatureKit
        return inp, FeatureKit([feat.build(s) for s in job["specs"]], retain=list(job["retain"]))
    if k == "feat":
        return inp, feat.build(job["spec"])
    if k in ("bars", "volpro"):
        return inp, bar_kit(job, inp)
    return inp, None


def perform(job, d, shared):
    inp, obj = shared[:2]
    aux = shared[2] if len(shared) > 2 else None              # arguments of later calls that callers may share
    k = job["kind"]
    if k == "core":
        return catalog.freeze(catalog.ENTRIES[job["entry"]].fn()(*inp))
    if k == "feat":
        return feat.columns(obj(inp[0], backend=job["backend"]))
    if k == "kit":
        return obj.build(inp[0], backend=job["backend"], order=job["order"])
    if k == "bars":
        job = dict(job, fptick=d.tick)
        return {m: bar_method(job, obj, m, aux) for m in job["methods"]}
    if k == "volpro":
        from finmlkit.feature.core.volume import VolumePro
        ohlcv = obj.build_ohlcv()
        fp = obj.build_footprints(d.tick)
        return list(VolumePro(pd.Timedelta(seconds=job["w"]), job["bins"], job["va"]).compute(ohlcv, fp))
    if k == "label":
        from finmlkit.label.kit import TBMLabel, SampleWeights
        t, ev = inp
        p = job["lab"]
        tb = TBMLabel(ev, "tgt", p["minret"], (float(p["bar"][0]), float(p["bar"][1])), pd.Timedelta(seconds=min(p["vert"], 1e6)), pd.Timedelta(seconds=p["mc"]), job["meta"])
        f, out = tb.compute_labels(t)
        res = [f, out.copy()]
        if len(out):
            w = tb.compute_weights(t, job["norm"])
            res.append(w)
            try:
                res.append(SampleWeights.compute_final_weights(w.avg_uniqueness, job["decay"], None, out.vertical_touch_weights, out.labels))
            except ValueError as e:
                res.append(str(e)[:40])
        return res
    if k == "trades":
        from finmlkit.bar.data_model import TradesData
        t = TradesData(inp[0], inp[1], inp[2], inp[3], is_buyer_maker=inp[4], timestamp_unit=job["unit"], preprocess=True, proc_res=job["res"], name="x")
        return [t.data.copy(), t.missing_pct, t.data_ok, [dict(x) for x in t.discontinuities]]
    raise ValueError(k)


def outcome(job, d, shared=None):
    try:
        if shared is None:
            shared = prepared(job, d)
        return ["ok", perform(job, d, shared)]
    except Exception as e:
        return ["raised", type(e).__name__, e]


def label(job):
    k = job["kind"]
    if k == "core":
        return job["entry"]
    if k == "feat":
        return "/".join(sorted(set(feat.classes(job["spec"]))))
    return f"{k}:{job['kit']}" if "kit" in job else k
