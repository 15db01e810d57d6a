"""L04: sample weights against an online account of overlapping labels; restarts, growing data and alternative futures."""
import math

import numpy as np
import pandas as pd

from dst import core, data, fresh, seams

RUNS = dict(quick=14000, thorough=900000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: streamed tape with restarts and alternative futures; refinement against an online account of the labels alive at each trade"
LEVEL_NOTE = ("Seeded search over tapes, overlapping labels, instants, futures and weighting options; every weight is compared with an account that opens and closes labels trade by trade, and weights whose "
              "overlaps are resolved with every continuation")
RULE = "a run counts when the weights of at least two labels that overlap were compared with the account; distinct by tape, labels, instants and options"
MEASURE = "distinct (tape, labels, instants, options)"
REAL = ["TBMLabel, SampleWeights, average_uniqueness, return_attribution, time_decay, class_balance_weights, triple_barrier, TradesData (interpreted source)", "numpy", "pandas"]
STUB = ["Numba's compiler", "the trade feed (seeded tapes) and its clock"]
ASSUMPTIONS = ["weights are compared to 1e-9 relative", "a label is alive from the trade it is entered with to the trade that resolves it, both included"]
SHRINK_LISTS = ("ops", "spans", "cuts")
SHRINK_MIN = {"spans": 1}
CPU_LIMIT = 60


def setup(scratch):
    seams.install()


def gen(rng, tier, idx):
    n = rng.choice([2, 3, 5, 8, 12, 16, 24, 32, 48, 64 if tier == "quick" else 150])
    wide = rng.random() < 0.002
    if wide:
        n = rng.choice([6, 10, 20])
    tape = data.gen_tape(rng, n)
    m = rng.choice([1, 2, 3, 5, 8, 12])
    life = rng.choice([1, 3, 10, n])
    spans = sorted([rng.randrange(n), rng.randrange(0, life + 1), rng.choice([-1, 1, 1, 0])] for _ in range(m))
    span = max(1, sum(o[0] for o in tape["ops"])) / 1e9
    return dict(tape=tape, kind="wide" if wide else rng.choice(["spans", "label"]), spans=spans, vert=max(1e-6, round(rng.choice([1.0, span / 8, span / 3, span / 2]), 6)), bar=rng.choice([0.5, 1.0, 3.0]),
                tg=rng.choice([1e-5, 1e-3, 1e-2]), times=rng.choice([2000, 20000, 40000]), norm=rng.random() < 0.3, decay=rng.choice([1.0, 0.5, 0.0, -0.3, -0.8, 0.999]), use_ra=rng.random() < 0.5, use_v=rng.random() < 0.4,
                bal=rng.random() < 0.5, cuts=[[rng.random(), rng.choice([0, 0, 1, 2])] for _ in range(rng.choice([1, 2, 3]))])


def valid_plan(p):
    return len(p["tape"]["ops"]) >= 2 and len(p["spans"]) >= 1


def trades(d):
    from finmlkit.bar.data_model import TradesData
    return TradesData(d.uts.copy(), d.px.copy(), d.am.copy(), np.arange(d.n), side=d.side.copy(), timestamp_unit="ns")


class Account:
    """Walks the tape once; knows which labels are alive at each trade and what each is owed for it."""

    def __init__(self, px, spans):
        self.conc = [0] * len(px)
        opens, closes = {}, {}
        for q, (a, b) in enumerate(spans):
            opens.setdefault(a, []).append(q)
            closes.setdefault(b, []).append(q)
        inv, attr = 0.0, 0.0                      # running sums of 1/c and return/c
        inv0, attr0, start, share, ret = {}, {}, {}, [0.0] * len(spans), [0.0] * len(spans)
        self.touching = [0.0] * len(spans)
        alive = 0
        for i in range(len(px)):
            for q in opens.get(i, ()):
                inv0[q], attr0[q], start[q] = inv, attr, i
            alive += len(opens.get(i, ()))
            self.conc[i] = alive
            if alive:
                inv += 1.0 / alive
                r = math.log(px[i] / px[i - 1]) if i else 0.0
                attr += r / alive
            for q in closes.get(i, ()):
                share[q] = (inv - inv0[q]) / (i - start[q] + 1)
                ret[q] = abs(attr - attr0[q])
            alive -= len(closes.get(i, ()))
        self.share, self.ret = np.array(share), np.array(ret)
        self.scale = max([abs(math.log(px[i] / px[i - 1])) for i in range(1, len(px))], default=0.0)


def near(a, b, scale=0.0):
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-12 * scale


def labels_of(run, pl, d):
    """The labels whose life lies within the data: (number, entry, touch, side, ratio), as the library's own labelling or the plan has them."""
    if pl["kind"] != "label":
        out, reps = [], (pl["times"] // len(pl["spans"]) if pl["kind"] == "wide" else 1)
        for q, (a, b, s) in enumerate(pl["spans"]):
            if a < len(pl["tape"]["ops"]):
                a, b = a, min(a + b, len(pl["tape"]["ops"]) - 1)
                if b < d.n:
                    out += [(q * reps + r, a, b, s, 0.5 + (q % 3) / 4) for r in range(reps)]
        return out, None
    from finmlkit.label.kit import TBMLabel
    ev = sorted({a for a, _, _ in pl["spans"] if a < d.n})
    full = data.D(pl["tape"])
    ev = sorted({a for a, _, _ in pl["spans"] if a < full.n})
    f = pd.DataFrame(dict(tgt=[pl["tg"] * (1 + e % 3) for e in ev], num=ev), index=pd.DatetimeIndex([int(full.uts[e]) for e in ev]))
    tb = TBMLabel(f, "tgt", 0.0, (pl["bar"], pl["bar"]), pd.Timedelta(round(pl["vert"] * 1e9), unit="ns"), pd.Timedelta(0))
    t = trades(d)
    try:
        feats, out = tb.compute_labels(t)
    except ValueError as e:
        if "empty" in str(e):
            return [], None
        raise
    return [(int(q), int(a), int(b), int(s), float(r)) for q, a, b, s, r in zip(feats["num"], out.event_idx, out.touch_idx, out.labels, out.vertical_touch_weights)], (tb, t, out)


def frame(d, lab):
    return pd.DataFrame(dict(touch_time=pd.to_datetime(d.uts[[x[2] for x in lab]]), event_idx=np.array([x[1] for x in lab], dtype=np.int64), touch_idx=np.array([x[2] for x in lab], dtype=np.int64),
                             labels=np.array([x[3] for x in lab], dtype=np.int8), returns=0.0, vertical_touch_weights=[x[4] for x in lab]), index=pd.DatetimeIndex(d.uts[[x[1] for x in lab]]))


def final(run, pl, lab, out, w, what):
    """Combined weights against their definition."""
    from finmlkit.label.kit import SampleWeights
    u, ra, v, s = w["avg_uniqueness"], w["return_attribution"], out["vertical_touch_weights"], out["labels"]
    use_v = pl["use_v"] and not v.isna().any()
    cum = np.cumsum(u.to_numpy())
    last = pl["decay"]
    slope = (1 - last) / cum[-1] if last >= 0 else 1 / ((1 + last) * cum[-1])
    td = 1 - slope * (cum[-1] - cum)
    if last < 0:
        td = np.maximum(td, 0.0)
    base = td * (ra.to_numpy() * len(u) / ra.sum() if pl["use_ra"] and ra.sum() > 0 else u.to_numpy())
    if use_v:
        base = base * v.to_numpy()
    bad_ra, bad_mean = pl["use_ra"] and ra.sum() <= 0, not base.mean() > 0
    try:
        got = SampleWeights.compute_final_weights(u, last, ra if pl["use_ra"] else None, v if use_v else None, s if pl["bal"] else None)
    except ValueError as e:
        if bad_ra or bad_mean:
            run.probe("nothing-to-normalise")
            return
        raise
    if bad_ra or base.mean() <= 1e-15:
        return
    base = base / base.mean()
    if pl["bal"]:
        cls, b0 = s.to_numpy(), base.copy()
        for c in sorted(set(cls.tolist())):
            t = b0[cls == c].sum()
            if t < 1e-9:                 # erased up to rounding: balancing divides by it
                run.probe("erased-class")
                return
            f = b0.sum() / (len(set(cls.tolist())) * t)
            base = np.where(cls == c, base * f, base)
    g = got["weights"].to_numpy()
    if list(got.index) != list(u.index) or len(g) != len(base):
        raise core.Violation("final:alignment", f"{what}: weights of {len(g)} labels in another order than the {len(base)} labels")
    for i in range(len(g)):
        if abs(g[i] - base[i]) > 1e-8 * max(abs(base).max(), 1e-300):
            raise core.Violation("final:weights", f"{what}: label {i} of {len(g)} has weight {g[i]}, by definition {base[i]} (decay {last}, attribution {pl['use_ra']}, ratio {use_v}, balanced {pl['bal']})")
    for i, x in enumerate(got["time_decay_weights"].to_numpy()):
        if abs(x - td[i]) > 1e-9:
            raise core.Violation("final:decay", f"{what}: label {i} has decay {x}, by definition {td[i]}")
    run.probe("final")


def execute(run):
    from finmlkit.label.kit import SampleWeights
    pl = run.plan
    fulld = data.D(pl["tape"])
    run.sig(repr(pl))
    run.sim_ns += int(fulld.uts[-1] - fulld.uts[0])
    stages = [] if pl["kind"] == "wide" else [(max(1, min(fulld.n - 1, 1 + int(f * (fulld.n - 1)))), m) for f, m in pl["cuts"]]
    seen = []
    for k, mode in stages + [(fulld.n, 0)]:
        d = data.D(pl["tape"], upto=k) if mode == 0 else data.D(pl["tape"], mutate_from=k, mut=mode)
        if k < fulld.n:
            run.fault("restart" if mode == 0 else "other-future")
            if mode == 0:
                fresh.restore()
        lab, lib = labels_of(run, pl, d)
        if not lab:
            continue
        what = f"{k} of {fulld.n} trades (mode {mode}), {len(lab)} labels {[x[1:3] for x in lab[:6]]}"
        acc = Account(d.px, [(x[1], x[2]) for x in lab])
        total = acc.ret.sum()
        out = lib[2] if lib else frame(d, lab)
        t = lib[1] if lib else trades(d)

        def weights(norm):
            return lib[0].compute_weights(t, norm) if lib else SampleWeights.compute_info_weights(t, out, norm)
        w = run.call("weights", weights, False)
        if list(w.index) != list(out.index):
            raise core.Violation("alignment", f"{what}: weights have another index than the labels")
        u, ra = w["avg_uniqueness"].to_numpy(), w["return_attribution"].to_numpy()
        run.log(k, mode, len(lab), max(acc.conc))
        for i in range(len(lab)):
            run.sub += 1
            if not near(float(u[i]), float(acc.share[i])):
                raise core.Violation("uniqueness", f"{what}: label {i} {lab[i]} has average uniqueness {u[i]}, the account says {acc.share[i]}")
            if not near(float(ra[i]), float(acc.ret[i]), acc.scale * d.n):
                raise core.Violation("attribution", f"{what}: label {i} {lab[i]} has return attribution {ra[i]}, the account says {acc.ret[i]}")
        run.nontrivial |= max(acc.conc) >= 2
        run.probe("overlap>%d" % (10 ** int(math.log10(max(acc.conc)))))
        if pl["norm"] and pl["kind"] != "wide":
            try:
                wn = weights(True)["return_attribution"].to_numpy()
            except ValueError:
                if total > 0:
                    raise core.Violation("exception:normalise", f"{what}: attributions {ra[:5]} could not be normalised")
                wn = None
            if wn is not None and total > 1e-300:
                for i in range(len(lab)):
                    if not near(float(wn[i]), float(ra[i] * len(lab) / ra.sum()), 1.0):
                        raise core.Violation("normalised", f"{what}: label {i} has {wn[i]}, {ra[i]} of {ra.sum()} in total")
        if u.sum() > 0:
            final(run, pl, lab, out, w, what)
        # what is final: labels all of whose overlaps are resolved by the common past
        if pl["kind"] == "wide":
            continue
        mine = {x[0]: (i, x) for i, x in enumerate(lab)}
        for k0, lab0, u0, ra0 in seen:
            for q, (i0, x0) in lab0.items():
                if q in mine and mine[q][1] == x0 and x0[2] < min(k0, k):
                    ov0 = sorted(y[:3] for _, y in lab0.values() if y[1] <= x0[2] and y[2] >= x0[1])
                    ov1 = sorted(y[:3] for _, y in mine.values() if y[1] <= x0[2] and y[2] >= x0[1])
                    clip = lambda o: [(y[0], y[1], min(y[2], x0[2])) for y in o]
                    if clip(ov0) == clip(ov1):
                        i = mine[q][0]
                        run.probe("final-label")
                        if not near(float(u0[i0]), float(u[i])) or not near(float(ra0[i0]), float(ra[i]), acc.scale * d.n):
                            raise core.Violation("not-final", f"label {x0}, resolved with its overlaps at trade {k0}: uniqueness {u0[i0]} became {u[i]}, attribution {ra0[i0]} became {ra[i]} ({what})")
        seen.append((k, mine, u, ra))
