"""E01: from the exchange's messages to labels.  The same trades reach the computations either straight from memory or over a simulated feed,
monthly archive files written under faults, and loads in worker processes; bars, footprints, features, labels and weights must not differ."""
import json
import os
import shutil

import numpy as np
import pandas as pd

from dst import core, data, feat, feed, fresh, hdfsim, procsim, seams, store, work
from dst.checks import s02

RUNS = dict(quick=3000, thorough=150000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: simulated feed, archive saves with crashes and errors, parallel loads with dying workers; refinement against the computation on the same trades in memory"
LEVEL_NOTE = ("Seeded search over trades, delivery orders, the batches they are archived in, fault points inside the saves, restarts, the way they are loaded (keys, ranges, windows; worker schedules, deaths, read errors) "
              "and the computations made from them; every result is compared with the one computed from the same trades in memory")
RULE = "a run counts when trades went through the archive and a bar table was compared; distinct by trades, deliveries, faults, schedule choices and computations"
MEASURE = "distinct (trades, deliveries, archive history, load, schedule choices, computations)"
REAL = ["TradesData, save_h5, load_trades_h5, bar kits, footprints, FeatureKit, TBMLabel, SampleWeights, VolumePro (interpreted source)", "pandas HDFStore, PyTables, HDF5 library on scratch files"]
STUB = ["the exchange feed", "Numba's compiler", "worker processes (simulated tasks exchanging pickled copies)", "process death (files are put back to the bytes the operating system had at the fault point)"]
ASSUMPTIONS = ["trades of one timestamp and price reach one batch", "a month whose save failed is saved again as a whole", "a kill falls between PyTables operations", "one process writes the file at a time"]
SHRINK_LISTS = ("ops", "cuts", "faults", "deaths", "specs", "methods")
SHRINK_MIN = {"ops": 3, "methods": 1}
KINDS = ["kill", "kill", "kill", "eio", "enospc", "short", "memory", "h5err", "interrupt"]


def setup(scratch):
    s02.setup(scratch)


def gen(rng, tier, idx):
    n = rng.choice([4, 8, 15, 30, 30, 60, 60])
    tp = feed.gen_truth(rng, n, gaps=rng.random() < 0.3)
    per = 10 ** 9 // feed.UNIT[tp["unit"]]
    for o in tp["ops"]:
        o[0] = max(o[0], 0)
        if rng.random() < 0.04:
            o[0] = rng.choice([6, 12, 35]) * 86400 * per
        if rng.random() < 0.1:
            o[4] = rng.choice([2, 3, 50])
    k = rng.choice(work.BARKITS)
    bars = dict(kit=k, kp=work.gen_kit_params(rng, n, k), methods=rng.sample(work.METHODS, rng.choice([1, 2, 4])), theta=rng.choice([0.01, 1.0]), imb=rng.choice([1.5, 3.0]), thz=None, tick=rng.random() < 0.7,
                nbars=rng.choice([3, 10, 40]))
    if k in ("VolumeBarKit", "DollarBarKit"):
        bars["share"] = rng.choice([2, 5, 20])                       # this many bars, roughly
    if k == "CUSUMBarKit":
        bars["kp"]["hole"] = None
        bars["kp"]["sig"] = rng.choice([1e-6, 1e-5, 1e-4])
        bars["kp"]["floor"] = 1e-6
    if k == "TickBarKit":
        bars["kp"]["k"] = rng.choice([1, 2, 3, 5])
    return dict(tape=tp, net=feed.gen_net(rng, n), cuts=[rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 2, 4]))], monthly=rng.random() < 0.7, order=rng.choice(["time", "time", "any"]),
                whole=rng.random() < 0.3, faults=[dict(kind=rng.choice(KINDS), at=rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, rng.randrange(24)]), save=rng.randrange(4)) for _ in range(rng.choice([0, 0, 1, 1, 2]))],
                chunk=rng.choice([None, None, 1, 5]), side=rng.choice(["maker", "maker", "side8"]), res=rng.choice([None, None, None, "ms", "s"]), restart=rng.random() < 0.5,
                load=dict(how=rng.choice(["all", "all", "range", "range", "window", "key"]), a=s02._bound(rng), b=s02._bound(rng), mp=rng.random() < 0.7, workers=rng.choice([None, 1, 2, 3]), groups=rng.choice([None, 1, 2]),
                          cpus=rng.choice([1, 2, 4]), deaths=[[rng.randrange(4), rng.choice([0, 1, 2, 3, 5, 9])] for _ in range(rng.choice([0, 0, 0, 1, 2]))],
                          fault=dict(kind=rng.choice(["eio", "memory", "h5err"]), at=rng.randrange(20)) if rng.random() < 0.2 else None),
                bars=bars, specs=[feat.gen_feature(rng, 8) for _ in range(rng.choice([0, 1, 2]))], backend=rng.choice(["nb", "pd"]),
                lab=dict(every=rng.choice([1, 2, 3]), minret=rng.choice([0.0, 0.0, 1e-3]), bar=rng.choice([[1, 1], [2, 1], [0.5, 3]]), vert=rng.choice([1.0, 60.0, 3600.0, "0.05", "0.2", "0.2", "0.5"]), mc=rng.choice([0.0, 0.0, 1.0]),
                         tg=rng.choice([1e-4, 1e-3, 1e-2]), meta=rng.random() < 0.3, idx=rng.random() < 0.5, norm=rng.random() < 0.5, decay=rng.choice([1.0, 0.5, 0.0])) if rng.random() < 0.8 else None,
                move=rng.random() < 0.4, cfg=rng.random() < 0.5, vp=dict(w=rng.choice([0.5, 60.0, 1800.0]), bins=rng.choice([2, 9, 27])) if rng.random() < 0.3 else None, seq=rng.randrange(4))


def valid_plan(p):
    return len(p["tape"]["ops"]) >= 3


def cleanup(run):
    s02.cleanup(run)
    shutil.rmtree(os.path.join(run.scratch, "e01"), ignore_errors=True)


def _tape(pl, t, rows, order=None):
    from finmlkit.bar.data_model import TradesData
    ts, px, am, ids, mk = feed.arrays(rows, range(len(rows)) if order is None else order)
    kw = dict(is_buyer_maker=mk) if pl["side"] == "maker" else dict(side=np.where(mk, -1, 1).astype(np.int8))
    return TradesData(ts, px, am, ids, timestamp_unit=t.unit, preprocess=True, proc_res=pl["res"], **kw)


def _month(r, t):
    return str(pd.Timestamp(r[1] * t.f))[:7]


def _move(td, ts, back):
    """Another window on the same tape: what was built before must not notice."""
    if back is None and ts[-1] > ts[0]:
        back = td.start_date, td.end_date
        td.set_view_range(pd.Timestamp(int(ts[len(ts) // 3])), pd.Timestamp(int(ts[-1]) + 10 ** 9))
        return back
    if back is not None:
        if back[0] is not None:
            td.set_view_range(*back)
        else:
            td.set_view_range(pd.Timestamp(int(ts[0])), pd.Timestamp(int(ts[-1])))
    return None


def results(run, pl, td, tick, move=False, cfg=None):
    """Everything a user computes from a tape; {name: value}, errors as values."""
    b, out = pl["bars"], {}
    df = td.data
    n = len(df)
    out["tape"] = [df["timestamp"].values.copy(), df["price"].values.copy(), df["amount"].values.copy(), df["side"].values.copy()]
    kp = dict(b["kp"])
    span = (int(out["tape"][0][-1]) - int(out["tape"][0][0])) / 1e9
    if b["kit"] == "TimeBarKit":
        kp["sec"] = max(kp["sec"], float(np.ceil(span / b["nbars"])))
    if b.get("share"):
        tot = float(np.sum(out["tape"][2].astype(float) * (out["tape"][1] if b["kit"] == "DollarBarKit" else 1.0)))
        kp["v"] = max(tot / b["share"], 1e-12)
    job = dict(b, kp=kp, fptick=tick)
    levels = (out["tape"][1].max() - out["tape"][1].min()) / tick
    try:
        kit = work.bar_kit(job, (td, work.sigma(kp, n) if b["kit"] == "CUSUMBarKit" else None))
        back = _move(td, out["tape"][0], None) if move else None
        ohlcv = kit.build_ohlcv()
        out["ohlcv"] = ohlcv.copy()
        fp = None
        for m in b["methods"]:
            if m != "build_footprints" or levels < 5000:
                out[m] = work.bar_method(job, kit, m)
        closes = np.asarray(kit.bar_close_indices)
        if back is not None:
            run.probe("window-moved")
            _move(td, out["tape"][0], back)
    except Exception as e:
        out["bars raised"] = [type(e).__name__, str(e)[:120]]
        return out
    try:
        if pl["vp"] and levels < 5000:
            from finmlkit.feature.core.volume import VolumePro
            fp = kit.build_footprints(tick)
            out["volumepro"] = list(VolumePro(pd.Timedelta(seconds=pl["vp"]["w"]), pl["vp"]["bins"]).compute(ohlcv, fp))
    except Exception as e:
        out["volumepro raised"] = type(e).__name__
    try:
        if pl["specs"]:
            from finmlkit.feature.kit import FeatureKit
            tab = ohlcv.copy()
            for c in ("volume_buy", "volume_sell", "cash"):
                tab[c] = tab["volume"] / 2
            for c in ("ret1", "y", "ret"):
                tab[c] = tab["close"].pct_change()
            tab["x"] = tab["close"]
            fk = FeatureKit([feat.build(s) for s in pl["specs"]], retain=["close"])
            if cfg:
                fk.save_config(cfg)
                fresh.restore()                                      # another process computes them
                fk = FeatureKit.from_config(cfg)
                run.probe("features-from-file")
            out["features"] = fk.build(tab, backend=pl["backend"])
    except Exception as e:
        out["features raised"] = type(e).__name__
    lab = pl["lab"]
    if lab is not None and len(closes):
        ts = out["tape"][0]
        e = closes[::lab["every"]]
        e = e[(e >= 0) & (e < n)]
        e = e[np.concatenate([[True], np.diff(ts[e]) > 0])] if len(e) else e
        ev = pd.DataFrame(dict(tgt=lab["tg"] * (1.0 + (np.arange(len(e)) % 3)), f1=out["tape"][1][e]), index=pd.to_datetime(ts[e]))
        if lab["meta"]:
            ev["side"] = np.where(np.arange(len(e)) % 2 == 0, 1, -1)
        if lab["idx"]:
            ev["event_idx"] = e
        try:
            from finmlkit.label.kit import TBMLabel, SampleWeights
            tb = TBMLabel(ev, "tgt", lab["minret"], (float(lab["bar"][0]), float(lab["bar"][1])), pd.Timedelta(seconds=lab["vert"] if not isinstance(lab["vert"], str) else round(max(span * float(lab["vert"]), 1e-6), 6)), pd.Timedelta(seconds=lab["mc"]), lab["meta"])
            f, o = tb.compute_labels(td)
            out["labelled"], out["labels"] = f, o.copy()
            if len(o):
                w = tb.compute_weights(td, lab["norm"])
                out["weights"] = w
                out["final"] = SampleWeights.compute_final_weights(w.avg_uniqueness, lab["decay"], None, o.vertical_touch_weights, o.labels)
        except Exception as ex:
            out["labels raised"] = type(ex).__name__
    return out


def batches(pl, t):
    """Index ranges of the batches the archiver saves, cut where the timestamp changes (and where the month does)."""
    r = t.rows
    at = {c for c in pl["cuts"] if 0 < c < len(r)}
    if pl["monthly"]:
        at |= {i for i in range(1, len(r)) if _month(r[i - 1], t) != _month(r[i], t)}
    at = sorted(i for i in at if r[i - 1][1] != r[i][1])
    return list(zip([0] + at, at + [len(r)]))


def execute(run):
    from finmlkit.bar.data_model import TradesData
    pl = run.plan
    root = os.path.join(run.scratch, "e01")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    path = os.path.join(root, "t.h5")
    t = feed.Truth(pl["tape"])
    tick = pl["tape"]["tick"]
    run.sig(json.dumps(pl, sort_keys=True))
    run.sim_ns += (t.rows[-1][1] - t.rows[0][1]) * t.f
    parts = batches(pl, t)
    if pl["order"] == "any" and not pl["res"]:
        for i in range(len(parts) - 1):
            j = i + run.choose(len(parts) - i)
            parts[i], parts[j] = parts[j], parts[i]
    held = {}                                                        # key -> rows the archive must hold
    faults = [dict(f) for f in pl["faults"]]
    with hdfsim.Disk(run, root) as disk:
        def save(rows, key, over, fault, what):
            """True if the archive took the rows."""
            td = run.call("TradesData", _tape, pl, t, rows, feed.deliver(run, rows, pl["net"]))
            kw = dict(overwrite_month=over)
            if over or pl["seq"] % 2:
                kw["month_key"] = key
            if pl["chunk"]:
                kw["chunksize"] = pl["chunk"]
            if fault:
                disk.arm(dict(kind=fault["kind"], at=fault["at"]))
            killed, err = False, None
            try:
                td.save_h5(path, **kw)
            except core.SimCrash:
                killed = True
            except KeyboardInterrupt as e:
                err = e
            except (core.Violation, core.HarnessError, core.RunTimeout):
                raise
            except Exception as e:
                err = e
            finally:
                disk.plan = None
            if killed:
                disk.restart()
                run.probe("restart")
                return False
            if err is not None:
                disk.full = False
                disk.close_handles()
                if not disk.fired:
                    raise core.Violation(f"save-failed:{type(err).__name__}", f"{what}: {err}\n{core.tb_tail(err)}")
                return False
            return True
        for bi, (lo, hi) in enumerate(parts):
            rows = t.rows[lo:hi]
            key = _month(rows[0], t)
            old = held.get(key, [])
            f = next((x for x in faults if x["save"] == bi), None)
            what = f"batch {bi} (trades {lo}..{hi - 1}) to {key}"
            run.log("save", bi, key)
            over = pl["whole"] or not old and pl["seq"] > 1
            ok = save(sorted(old + rows) if over else rows, key, over, f, what)
            held[key] = old + rows
            if f and not ok:
                run.probe("save-again")
                if not save(sorted(held[key]), key, True, None, what + ", again"):
                    raise core.Violation("save-failed", what)
        if pl["restart"]:
            disk.restart()
            run.fault("process-restart")
        # load
        q = pl["load"]
        stored = {k: [(r[1] * t.f,) for r in v] for k, v in held.items()}
        (a, arg_a), (z, arg_z) = [(None, None) if q["how"] in ("all", "key") else s02.bound(dict(x, k="trade" if x["k"] == "none" else x["k"]), stored, None) for x in (q["a"], q["b"])]
        if a is not None and a > z:
            a, arg_a, z, arg_z = z, arg_z, a, arg_a
        if pl["res"] and a is not None:
            a = arg_a = z = arg_z = None                             # rounded times decide what a range selects
        if q["how"] == "window" and a is not None and a == z:
            a = arg_a = z = arg_z = None
        key = sorted(held)[q["a"]["m"] % len(held)] if q["how"] == "key" else None
        src = sorted(held[key]) if key else t.rows
        sel = [r for r in src if (a is None or r[1] * t.f >= a) and (z is None or r[1] * t.f <= z)]
        if not sel:
            return
        kw = dict(key=key)
        if q["how"] == "range":
            kw.update(start_time=arg_a, end_time=arg_z)
        mpkw = dict(enable_multiprocessing=q["mp"], n_workers=q["workers"])
        if q["groups"]:
            mpkw["min_groups_for_mp"] = q["groups"]
        what = f"load {kw} {mpkw}, window {arg_a}..{arg_z}" if q["how"] == "window" else f"load {kw} {mpkw}"
        run.log("load")
        td = None
        for attempt in (0, 1):
            fault, deaths = (q["fault"], q["deaths"]) if attempt == 0 else (None, [])
            seams.CAPTURE.records.clear()
            disk.arm(fault)
            err = None
            with procsim.Sched(run, cpus=q["cpus"], deaths=deaths):
                try:
                    td = TradesData.load_trades_h5(path, **kw, **mpkw)
                except (core.Violation, core.HarnessError, core.RunTimeout):
                    raise
                except (Exception, core.SimCrash) as e:
                    err = e
            fired = disk.fired
            disk.disarm()
            told = any(l in ("ERROR", "CRITICAL") or "/trades/" in m and "rror" in m for l, m in seams.CAPTURE.records)
            if err is None and not told:
                break
            if not fired and not deaths:
                raise core.Violation("load-failed", f"{what}: {err if err is not None else [m for l, m in seams.CAPTURE.records][:3]}")
            run.probe("load-again")
        if q["how"] == "window" and a is not None:
            run.call("set_view_range", td.set_view_range, arg_a, arg_z)
        run.nontrivial = True
        run.sub += 1
        if len(held) > 1:
            run.probe("several-months")
        got = results(run, pl, td, tick, pl["move"], os.path.join(root, "kit.json") if pl["cfg"] else None)
    # the same trades, in memory, in another process
    fresh.restore()
    exp = results(run, pl, run.call("TradesData", _tape, pl, t, sel), tick)
    for k in exp:
        if k.endswith("raised"):
            run.probe(k)
        elif k in ("labels", "weights", "features", "volumepro", "build_footprints"):
            run.probe(k)
    for k in ["tape", "bars raised", "ohlcv"] + [x for x in exp if x not in ("tape", "bars raised", "ohlcv")]:
        if (k in got) != (k in exp):
            raise core.Violation("outcome", f"{what}: {k}: {str(got.get(k, 'nothing'))[:200]} / in memory {str(exp.get(k, 'nothing'))[:200]}")
        if k in exp:
            d = data.same(got[k], exp[k], 1e-12)
            if d:
                raise core.Violation("differs:" + k.split()[0], f"{what}: {k} from the archive / in memory {d}")
    if set(got) != set(exp):
        raise core.Violation("outcome", f"{what}: {sorted(set(got) ^ set(exp))}")
