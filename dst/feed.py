"""A simulated exchange feed: the true trades, and a network that reorders, re-sends and loses them."""
import numpy as np

UNIT = {"s": 10 ** 9, "ms": 10 ** 6, "us": 10 ** 3, "ns": 1}
STARTS = [1609459199, 1614556799, 1700000000, 1583020800, 1015000000, 1735689599, 2000000000]    # seconds; some just before a month's end


def gen_truth(rng, n, unit=None, start=None, gaps=False):
    """Trades as [dt, level, amount, maker, did]: all increments, so that any sub-list is a valid tape."""
    unit = unit or rng.choice(["s", "ms", "us", "ns", "ms"])
    per = 10 ** 9 // UNIT[unit]
    steps = [0, 0, 0, 1, rng.choice([1, 2, 7]), per // 1000 or 1, per, 5 * per]
    if gaps:
        steps += [59 * per, 60 * per, 60 * per, 60 * per + 1, 61 * per, 3600 * per, 86400 * per]
    jitter = rng.random() < 0.35            # clocks of the matching engines disagree: timestamps not in id order
    burst = rng.choice([0.0, 0.3, 0.7, 0.95])
    tick = rng.choice([1e-8, 1e-5, 0.01, 0.01, 0.1, 0.5, 1.0])
    lev = rng.choice([100, 137, 250, 2999, 54321, 999999])
    side = rng.random() < 0.5
    am = rng.choice(["lot", "float", "mixed"])
    ops = []
    for _ in range(n):
        dt = rng.choice(steps[:4]) if rng.random() < burst else rng.choice(steps)
        if jitter and rng.random() < 0.3:
            dt = -rng.choice([1, 1, 2, per, 3 * per]) if not gaps else -rng.choice([1, 2, per, 61 * per])
        mv = rng.choice([0, 0, 0, 1, -1, 1, -1, 3, -7])
        if rng.random() < 0.3:
            side = not side
        a = {"lot": rng.randrange(1, 2000) / 1000, "float": rng.random() * 10 ** rng.randrange(-6, 6), "mixed": rng.choice([0.001, 1.0, 1e6, 12345.678, 1e-8])}[am]
        ops.append([dt, mv, a, int(side), 1])
    return dict(unit=unit, start=(start if start is not None else rng.choice(STARTS)) * per, id0=rng.choice([0, 1, 1000, 2 ** 31 - 5, 10 ** 12, 2 ** 53 + 1]), tick=tick, lev=lev, ops=ops)


class Truth:
    def __init__(self, tp):
        ts = lev = 0
        lev = tp["lev"]
        ts, i = tp["start"], tp["id0"] - 1
        rows = []
        for dt, mv, am, mk, did in tp["ops"]:
            ts = max(ts + dt, tp["start"])
            lev = max(lev + mv, 2)
            i += did
            rows.append((i, ts, lev * tp["tick"], float(am), bool(mk)))
        self.rows, self.unit, self.f = rows, tp["unit"], UNIT[tp["unit"]]


def deliver(run, rows, net):
    """The order in which the network hands over messages: a window of messages in flight, from which the run picks;
    delivered messages may stay in flight (re-sent), and a reconnect replays the last few."""
    w, dup, replay = net["w"], net["dup"], net["replay"]
    pend, out, i = [], [], 0
    todo = list(range(len(rows)))
    budget = len(rows) + 8                  # extra copies at most
    while i < len(todo) or pend:
        while i < len(todo) and len(pend) < w:
            pend.append(todo[i])
            i += 1
        k = run.choose(len(pend)) if w > 1 else 0
        j = pend[k]
        if k:
            run.fault("reorder")
        if dup and budget > 0 and run.flip(1, dup):
            run.fault("redeliver")
            budget -= 1
        else:
            pend.pop(k)
        out.append(j)
        if replay and budget > 0 and run.flip(1, replay):
            b = min(1 + run.choose(6), len(out), budget)
            run.fault("reconnect-replay")
            budget -= b
            pend.extend(out[-b:])
    return out


def gen_net(rng, n):
    return dict(w=rng.choice([1, 2, 3, 8, n, n]), dup=rng.choice([0, 0, 4, 12]), replay=rng.choice([0, 0, 0, 20]))


def arrays(rows, order):
    r = [rows[j] for j in order]
    return (np.array([x[1] for x in r], dtype=np.int64), np.array([x[2] for x in r], dtype=np.float64), np.array([x[3] for x in r], dtype=np.float64),
            np.array([x[0] for x in r], dtype=np.int64), np.array([x[4] for x in r], dtype=bool))


def merged(rows, f, with_side, res=None):
    """Reference: the tape the trades stand for.  Amounts as exact sums."""
    import math
    out = []
    for i, ts, px, am, mk in sorted(rows, key=lambda r: (r[1], r[0])):
        key = (ts * f, px, mk if with_side else None)
        if out and out[-1][0] == key:
            out[-1][1].append(float(np.float32(am)))
        else:
            out.append((key, [float(np.float32(am))]))
    return [((k[0] // res * res) if res else k[0], k[1], math.fsum(a), (None if k[2] is None else (-1 if k[2] else 1)), len(a)) for k, a in out]
