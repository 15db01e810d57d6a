"""L03: barrier labels against an online monitor stepping trade by trade; restarts, growing data and alternative futures."""
import math

import numpy as np
import pandas as pd

from dst import breakoff, core, data, fresh, seams

RUNS = dict(quick=24000, thorough=1200000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: streamed tape with restarts, alternative futures and labellings broken off; refinement against an online monitor"
LEVEL_NOTE = ("Seeded search over tapes, events, barriers, time limits, holding times, instants and futures; every label, touch, return and ratio is compared with a monitor that sees one trade at a time, "
              "and resolved events with every continuation")
RULE = "a run counts when at least one event was labelled and compared with the monitor; distinct by tape, events, barriers and instants"
MEASURE = "distinct (tape, events, barriers, instants)"
REAL = ["triple_barrier, TBMLabel, TradesData (interpreted source)", "numpy", "pandas"]
STUB = ["Numba's compiler", "the trade feed (seeded tapes) and its clock", "the allocator (fails where the run decides)"]
ASSUMPTIONS = ["a return within 1e-10 (relative) of a barrier may fall on either side", "the time limit of an event starts with the trade it is entered with (the first trade at or after the event time)",
               "durations given to TBMLabel are whole microseconds"]
SHRINK_LISTS = ("ops", "ev", "cuts")


def setup(scratch):
    seams.install()
    from finmlkit.label import kit, tbm
    breakoff.instrument((kit, tbm))


def gen(rng, tier, idx):
    n = rng.choice([2, 3, 5, 8, 12, 16, 24, 32, 48 if tier == "quick" else 120])
    tape = data.gen_tape(rng, n)
    span = max(1, sum(o[0] for o in tape["ops"])) / 1e9
    steps = [o[0] for o in tape["ops"] if o[0]] or [1000]
    vert = rng.choice([0.001, 1.0, 10.0, span / 8, span / 4, span / 2, span, 1e7, sum(rng.choice(steps) for _ in range(rng.randrange(1, 4))) / 1e9, 6.3e8])
    mc = rng.choice([0.0, 0.0, 0.0, 0.5, 2.0, vert / 2, vert, vert * 2, rng.choice(steps) / 1e9])
    bar = [rng.choice([0.5, 1.0, 2.0, 5.0, 1e9, "inf", "-inf"]), rng.choice([0.5, 1.0, 3.0, 6.0, 1e9, "inf"])]
    ev = sorted(rng.sample(range(n), min(n, rng.choice([1, 2, 3, 5, 8]))))
    kind = rng.choice(["core", "kit", "kit"])
    res = 9 if kind == "core" else 6           # Timedelta.total_seconds() has microseconds
    return dict(tape=tape, kind=kind, ev=ev, vert=max(round(vert, res), 10.0 ** -res), mc=round(mc, res), bar=bar, tg=rng.choice([1e-5, 1e-4, 1e-3, 1e-2, 0.1]), minret=rng.choice([0.0, 0.0, 1e-4, 1e-3]),
                side=rng.random() < 0.4, idx=rng.random() < 0.4, off=rng.choice([0, 0, 1, 10 ** 6, 10 ** 9]), uniq=rng.random() < 0.6, lead=rng.choice([0, 0, 0, 1, 2]),
                reuse=rng.random() < 0.5, cuts=[[rng.random(), rng.choice([0, 0, 1, 2])] for _ in range(rng.choice([1, 2, 4]))],
                fail=[rng.choice([0, 0, rng.randrange(1, 15), rng.randrange(1, 40), rng.randrange(1, 400)]) for _ in range(3)])


def valid_plan(p):
    return len(p["tape"]["ops"]) >= 2 and len(p["ev"]) >= 1


class Monitor:
    """Watches one event; sees every trade after its entry exactly once."""

    def __init__(self, i, ts, px, tgt, bar, vb, mc, side, minret):
        self.i, self.t0, self.base, self.side, self.meta, self.minret = i, int(ts), math.log(px), (1 if side is None else int(side)), side is not None, minret
        self.up, self.lo = tgt * bar[1], -tgt * bar[0]
        self.limit, self.mc = self.t0 + vb, mc
        self.done = self.tie = False
        self.last = None
        self.hit = False
        self.u = self.l = 0.0

    def feed(self, j, ts, px):
        if self.done:
            return
        if ts > self.limit:
            self.done = True
            return
        ret = (math.log(px) - self.base) * self.side
        self.last = (j, ret)
        if ts - self.t0 < self.mc:
            return
        if ret > 0 and math.isfinite(self.up) and self.up != 0:
            self.u = max(self.u, ret / self.up)
        elif ret < 0 and math.isfinite(self.lo) and self.lo != 0:
            self.l = max(self.l, ret / self.lo)
        for b in (self.up, self.lo):
            if math.isfinite(b) and abs(ret - b) <= 1e-10 * abs(b):
                self.tie = True
        if ret >= self.up or ret <= self.lo:
            self.hit = self.done = True

    def verdict(self):
        if self.last is None:
            return dict(touch=self.i, label=0, ret=math.nan, ratio=math.nan)
        j, ret = self.last
        label = (1 if ret >= self.minret else 0) if self.meta else (1 if ret >= 0 else -1)
        if self.hit:
            ratio = 1.0
        elif ret > 0:
            ratio = min(self.u / (1 + self.l), 1.0) if math.isfinite(self.up) else math.nan
        else:
            ratio = min(self.l / (1 + self.u), 1.0) if math.isfinite(self.lo) else math.nan
        return dict(touch=j, label=label, ret=ret, ratio=ratio)


def _num(x):
    """A disabled barrier is infinitely far away, whichever sign it is given with."""
    return math.inf if x in ("inf", "-inf") else float(x)


def _ts(pl, d):
    return d.uts if pl["uniq"] else d.ts


def _events(pl, d):
    """(event time, entry index or None, target, side) of every event, from the full tape; entries are looked up per data set."""
    ts = _ts(pl, d)
    out, seen = [], set()
    for e in pl["ev"]:
        if e >= d.n:
            continue
        t = int(ts[e]) - (pl["off"] if pl["kind"] == "kit" and not pl["idx"] else 0)
        if t in seen and pl["kind"] == "kit":
            continue
        seen.add(t)
        out.append((t, e, pl["tg"] * (1.0 + e % 3), (1 if e % 2 == 0 else -1) if pl["side"] else None))
    return out


def expected(pl, ts, px, events, lead):
    """{event number: (monitor, verdict)} of the events that must be labelled with these trades."""
    bar, vb, mc = (_num(pl["bar"][0]), _num(pl["bar"][1])), int(round(pl["vert"] * 1e9)), int(round(pl["mc"] * 1e9))
    out = {}
    n = len(ts)
    for q, (t, e, tg, sd) in enumerate(events):
        if pl["kind"] == "core":
            i = e
            if i >= n:
                continue
        else:
            if q < lead or tg * max(float(x) for x in pl["bar"]) < pl["minret"]:
                continue
            i = e if pl["idx"] else int(np.searchsorted(ts, t))
            if i >= n or int(ts[i]) + vb > int(ts[-1]) or t + vb > int(ts[-1]):
                continue
        m = Monitor(i, ts[i], px[i], tg, bar, vb, mc, sd, pl["minret"])
        for j in range(i + 1, n):
            m.feed(j, int(ts[j]), px[j])
            if m.done:
                break
        out[q] = (m, m.verdict())
    return out


def _features(pl, events):
    lead = min(pl["lead"], len(events) - 1)
    f = pd.DataFrame(dict(tgt=[x[2] for x in events], f1=[math.nan if q < lead else float(q) for q in range(len(events))], num=range(len(events))), index=pd.DatetimeIndex([x[0] for x in events]))
    if pl["side"]:
        f["side"] = [x[3] for x in events]
    if pl["idx"]:
        f["event_idx"] = [x[1] for x in events]
    return f, lead


def labels(pl, d, ts, events, tb=None):
    """{event number: result} as the library reports it; 'none' when it reports no labelled event."""
    from finmlkit.label.tbm import triple_barrier
    from finmlkit.bar.data_model import TradesData
    bar = (float(pl["bar"][0]), float(pl["bar"][1]))
    if pl["kind"] == "core":
        ev = [x for x in events if x[1] < d.n]
        if not ev:
            return {}
        sd = np.array([x[3] for x in ev], dtype=np.int8) if pl["side"] else None
        lab, touch, ret, rb = triple_barrier(ts, d.px, np.array([x[1] for x in ev], dtype=np.int64), np.array([x[2] for x in ev]), bar, pl["vert"], pl["mc"], sd, pl["minret"])
        return {q: dict(touch=int(touch[q]), label=int(lab[q]), ret=float(ret[q]), ratio=float(rb[q])) for q in range(len(ev))}
    t = TradesData(ts.copy(), d.px.copy(), d.am.copy(), np.arange(d.n), side=d.side.copy(), timestamp_unit="ns")
    try:
        feats, out = tb.compute_labels(t)
    except ValueError as e:
        if "empty" in str(e):
            return {}
        raise
    if list(feats.index) != list(out.index):
        raise core.Violation("alignment", f"{pl['kind']}: features and labels have different events")
    res = {}
    for r, (num, row) in enumerate(zip(feats["num"], out.itertuples())):
        res[int(num)] = dict(touch=int(row.touch_idx), label=int(row.labels), ret=float(row.returns), ratio=float(row.vertical_touch_weights), time=int(row.touch_time.value), entry=int(row.event_idx))
    return res


VIEWS = ("labels", "event_returns", "full_output", "features", "target_returns")


def views(tb):
    """What the labeller's properties say."""
    out = {}
    for v in VIEWS:
        try:
            x = getattr(tb, v)
        except ValueError:
            out[v] = None
            continue
        out[v] = (list(x.index), x.to_numpy().tolist() if v != "full_output" else [list(map(str, r)) for r in x.itertuples()])
    out["count"], out["first"], out["last"], out["range"] = tb.event_count, tb.first_event_timestamp, tb.last_event_timestamp, tb.event_range
    return out


def check_views(tb, what):
    """The views belong together."""
    v = views(tb)
    ix = v["features"][0]
    if v["labels"] is not None:
        for k in VIEWS:
            if v[k] is None or v[k][0] != ix:
                raise core.Violation(f"views:{k}", f"{what}: {k} describes {None if v[k] is None else len(v[k][0])} events, features {len(ix)}")
    if v["count"] != len(ix) or v["first"] != (ix[0] if ix else None) or v["last"] != (ix[-1] if ix else None) or (ix and not all(str(x) in v["range"] for x in (ix[0], ix[-1], len(ix)))):
        raise core.Violation("views:range", f"{what}: count {v['count']}, first {v['first']}, last {v['last']}, range {v['range']!r} for {len(ix)} events")
    return repr(v)


def _eq(a, b, tol=1e-9):
    return a == b or (isinstance(a, float) and math.isnan(a) and math.isnan(b)) or (isinstance(a, float) and abs(a - b) <= tol * max(1e-6, abs(a), abs(b)))


def execute(run):
    pl = run.plan
    full = data.D(pl["tape"])
    run.sig(repr(pl))
    events = _events(pl, full)
    if not events:
        return
    run.sim_ns += int(full.ts[-1] - full.ts[0])
    tb = lead = None
    if pl["kind"] == "kit":
        from finmlkit.label.kit import TBMLabel
        f, lead = _features(pl, events)

        def make():
            return TBMLabel(f.copy(), "tgt", pl["minret"], (float(pl["bar"][0]), float(pl["bar"][1])), pd.Timedelta(round(pl["vert"] * 1e9), unit="ns"), pd.Timedelta(round(int(round(pl["mc"] * 1e9))), unit="ns"), pl["side"])
        try:
            tb = make()
        except ValueError:
            run.probe("no-event-left")
            return
    seen = {}
    stages = []
    for frac, mode in pl["cuts"]:
        k = max(1, min(full.n - 1, 1 + int(frac * (full.n - 1))))
        stages.append((k, mode))
    if pl["reuse"]:
        stages.sort()
    for st, (k, mode) in enumerate(stages + [(full.n, 0)]):
        if mode == 0:
            d = data.D(pl["tape"], upto=k)
            if k < full.n:
                run.fault("restart")
                if not pl["reuse"]:
                    fresh.restore()
        else:
            d = data.D(pl["tape"], mutate_from=k, mut=mode)
            run.fault("other-future")
        ts = _ts(pl, d)
        if pl["kind"] == "kit" and not (pl["reuse"] and mode == 0):
            box = make()
        else:
            box = tb
        if pl["kind"] == "kit":
            fail = pl["fail"][st % 3]
            mid = None
            before = repr(views(box))
            if fail:
                try:
                    with breakoff.armed(fail) as arm:
                        labels(pl, d, ts, events, box)
                except MemoryError:
                    if arm.fired is None:
                        raise
                    run.fault("allocation@labelling")
                    where = arm.fired
                    mid = check_views(box, f"labelling of {k} trades broken off in {where}")
        got = run.call(pl["kind"], labels, pl, d, ts, events, box)
        if pl["kind"] == "kit" and got:
            after = check_views(box, f"after labelling {k} trades")
            if mid is not None and mid not in (before, after):
                raise core.Violation("views:after-failure", f"labelling of {k} trades broken off in {where}: the views are {mid}, neither those of the last labelling {before} nor of this one {after}")
        want = expected(pl, ts, d.px, events, lead)
        run.log(k, mode, sorted(got), [v["label"] for v in got.values()])
        if set(got) != set(want):
            raise core.Violation(f"labelled-set:{pl['kind']}", f"{k} of {full.n} trades (mode {mode}): labelled {sorted(got)}, covered by the data {sorted(want)}")
        for q in got:
            m, w = want[q]
            g = got[q]
            run.nontrivial = True
            run.sub += 1
            if m.tie:
                run.probe("tie")
                continue
            for c in ("touch", "label", "ret", "ratio"):
                if not _eq(g[c], w[c]):
                    raise core.Violation(f"monitor:{pl['kind']}:{c}", f"event {q} {events[q]} with {k} of {full.n} trades: {c} {g[c]}, an online monitor recorded {w[c]} ({w}, got {g})")
            if "time" in g and (g["time"] != int(ts[w["touch"]]) or g["entry"] != m.i):
                raise core.Violation(f"monitor:{pl['kind']}:time", f"event {q}: touch time {g['time']} entry {g['entry']}, monitor {int(ts[w['touch']])} {m.i}")
            # final once the common past (the first k trades) resolves it
            if k < full.n:
                mm = Monitor(m.i, ts[m.i], d.px[m.i], events[q][2], (_num(pl["bar"][0]), _num(pl["bar"][1])), int(round(pl["vert"] * 1e9)), int(round(pl["mc"] * 1e9)), events[q][3], pl["minret"]) if m.i < k else None
                if mm is not None:
                    for j in range(m.i + 1, k):
                        mm.feed(j, int(ts[j]), d.px[j])
                    if mm.done:
                        seen.setdefault(q, []).append((k, mode, g))
    for q, lst in seen.items():
        for k, mode, g in lst:
            if q not in got:            # (the other continuation covered its time limit, this one does not)
                continue
            for c in ("touch", "label", "ret", "ratio"):
                if not _eq(g[c], got[q][c]) and not want[q][0].tie:
                    raise core.Violation(f"not-final:{pl['kind']}:{c}", f"event {q}, resolved at trade {k} (mode {mode}): {c} {g[c]} became {got[q][c]}")
            run.sub += 1
