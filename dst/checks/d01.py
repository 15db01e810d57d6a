"""D01: the same trades through differently behaving feeds must preprocess to the same tape, which is the one the trades stand for."""
import json

import numpy as np
import pandas as pd

from dst import core, feed, seams

RUNS = dict(quick=22000, thorough=2000000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: simulated feed with reordering, re-delivery and reconnect replays; refinement against a reference merge"
LEVEL_NOTE = ("Seeded search over sets of trades, delivery orders, duplications, units, resolutions and the three ways a side is given; each tape is compared with the reference and with the tape of every other delivery")
RULE = "a run counts when a delivery out of order or with re-delivered trades was preprocessed and compared; distinct by trades and deliveries"
MEASURE = "distinct (trades, delivery orders)"
REAL = ["TradesData preprocessing, merge_split_trades, comp_trade_side_vector (interpreted source)", "numpy", "pandas"]
STUB = ["Numba's compiler", "the exchange feed (the run decides order, copies and replays)"]
ASSUMPTIONS = ["trade ids are unique and re-delivered trades are identical copies", "a timestamp unit left to inference is unambiguous (times after 2001-09-09)", "single-precision amounts: sums agree to 1e-6 per merged trade"]
SHRINK_LISTS = ("ops", "nets")
SHRINK_MIN = {"ops": 1, "nets": 1}


def setup(scratch):
    seams.install()


def gen(rng, tier, idx):
    n = rng.choice([1, 2, 3, 5, 8, 12, 20, 40, 90, 200 if tier == "quick" else 600])
    tp = feed.gen_truth(rng, n)
    if rng.random() < 0.3:
        for o in tp["ops"]:
            if rng.random() < 0.1:
                o[4] = rng.choice([2, 3, 50, 10 ** 6])         # ids the exchange never used, or trades that were lost
    return dict(tape=tp, nets=[feed.gen_net(rng, n) for _ in range(rng.choice([1, 2, 3]))], side=rng.choice(["maker", "maker", "side8", "side64", "none"]), infer=rng.random() < 0.3,
                res=rng.choice([None, None, "s", "ms", "us", "ns"]), f32=rng.random() < 0.2, batches=rng.choice([0, 0, 1, 2]), name=rng.choice([None, "BTC"]))


def valid_plan(p):
    return len(p["tape"]["ops"]) >= 1 and len(p["nets"]) >= 1


def _make(pl, rows, order, f, unit):
    from finmlkit.bar.data_model import TradesData
    ts, px, am, ids, mk = feed.arrays(rows, order)
    if pl["f32"]:
        am = am.astype(np.float32)
    kw = {}
    if pl["side"] == "maker":
        kw["is_buyer_maker"] = mk
    elif pl["side"] != "none":
        kw["side"] = np.where(mk, -1, 1).astype(np.int8 if pl["side"] == "side8" else np.int64)
    return TradesData(ts, px, am, ids, timestamp_unit=None if pl["infer"] else unit, preprocess=True, proc_res=pl["res"], name=pl["name"], **kw).data


def _same(run, got, exp, what, with_side):
    run.sub += 1
    ts, px, am = got["timestamp"].values, got["price"].values, got["amount"].values
    if len(got) != len(exp):
        raise core.Violation("rows", f"{what}: {len(got)} rows, the trades make {len(exp)}: {got.values.tolist()[:8]} / {exp[:8]}")
    for i, (t, p, a, s, k) in enumerate(exp):
        if int(ts[i]) != t:
            raise core.Violation("timestamp", f"{what}: row {i} at {ts[i]}, expected {t}")
        if px[i] != p:
            raise core.Violation("price", f"{what}: row {i} price {px[i]!r}, expected {p!r}")
        if abs(am[i] - a) > 1e-6 * k * max(a, 1e-12):
            raise core.Violation("amount", f"{what}: row {i} amount {am[i]!r}, its trades sum to {a!r}")
        if with_side and got["side"].values[i] != s:
            raise core.Violation("side", f"{what}: row {i} side {got['side'].values[i]}, expected {s}")
    if not (got.index == pd.to_datetime(ts, unit="ns")).all():
        raise core.Violation("index", what)


def execute(run):
    pl = run.plan
    t = feed.Truth(pl["tape"])
    ws = pl["side"] != "none"
    res = feed.UNIT[pl["res"]] if pl["res"] and pl["res"] != t.unit else None
    run.sig(json.dumps(pl, sort_keys=True))
    exp = feed.merged(t.rows, t.f, ws, res)
    run.sim_ns += max(r[1] for r in t.rows) * t.f - min(r[1] for r in t.rows) * t.f
    if len(exp) < len(t.rows):
        run.probe("merged")
    if [r[1] for r in t.rows] != sorted(r[1] for r in t.rows):
        run.probe("clock-jitter")
    base = run.call("TradesData (in order)", _make, pl, t.rows, range(len(t.rows)), t.f, t.unit)
    _same(run, base, exp, "in order", ws)
    if "side" not in base.columns:
        raise core.Violation("no-side", "the tape has no side column")
    if not ws:
        # tick rule on the merged tape
        s, prev = 0, exp[0][1]
        for i, e in enumerate(exp):
            if i and abs(e[1] - prev) > 1e-12:
                s = 1 if e[1] > prev else -1
            prev = e[1]
            if base["side"].values[i] != s:
                raise core.Violation("tick-rule", f"row {i} side {base['side'].values[i]}, expected {s}")
    for q, net in enumerate(pl["nets"]):
        order = feed.deliver(run, t.rows, net)
        run.sig(order)
        run.log("delivery", q, len(order))
        if order != list(range(len(t.rows))):
            run.nontrivial = True
        got = run.call("TradesData", _make, pl, t.rows, order, t.f, t.unit)
        _same(run, got, exp, f"delivery {q}", ws)
        for c in base.columns:
            if not (c in got.columns and got[c].dtype == base[c].dtype and got[c].values.tobytes() == base[c].values.tobytes()):
                raise core.Violation("differs", f"column {c} depends on the delivery order: {base[c].tolist()[:10]} / {got[c].tolist()[:10] if c in got.columns else None}")
    if pl["batches"] and ws and len(exp) > 1 and [r[1] for r in t.rows] == sorted(r[1] for r in t.rows):
        # the feed handed over in batches, cut where no split trade is torn apart
        cut = [i for i in range(1, len(t.rows)) if (t.rows[i - 1][1], t.rows[i - 1][2], t.rows[i - 1][4]) != (t.rows[i][1], t.rows[i][2], t.rows[i][4])]
        at = sorted({cut[run.choose(len(cut))] for _ in range(pl["batches"])}) if cut else []
        parts, lo = [], 0
        for hi in at + [len(t.rows)]:
            rows = t.rows[lo:hi]
            parts.append(run.call("TradesData (batch)", _make, pl, rows, feed.deliver(run, rows, pl["nets"][0]), t.f, t.unit))
            lo = hi
        run.fault("batch-split", len(parts) - 1)
        _same(run, pd.concat(parts), exp, f"batches {at}", ws)
