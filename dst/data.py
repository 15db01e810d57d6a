"""Trade tapes and everything derived from them, all a pure function of a JSON plan."""
import numpy as np

DAY = 86_400_000_000_000
SEC = 1_000_000_000


def gen_tape(rng, n, kind=None):
    """ops: [dt_ns, dprice_ticks, amount_units(1e-4), side, flags]; flags bit0: NaN return, bit1: NaN volume-like, bit2: zero."""
    kind = kind or rng.choice(["quiet", "bursty", "gappy", "ties", "mixed", "trend", "sec"])
    ops = []
    nanp = rng.choice([0, 0, 0, 0.03, 0.2])
    flatp = rng.choice([0.0, 0.2, 0.7])
    idle = rng.choice([0] * 10 + [0.2, 0.8])                 # share of trades of size zero
    whole = rng.random() < 0.2                               # sizes in whole units: sums are exact
    for i in range(n):
        r = rng.random()
        if kind == "quiet":
            dt = rng.choice([0, 10 ** 6, 5 * 10 ** 8, SEC, 3 * SEC])
        elif kind == "bursty":
            dt = rng.choice([0, 0, 1, 1000, 10 ** 6]) if r < 0.85 else rng.randrange(1, 90) * SEC
        elif kind == "gappy":
            dt = rng.randrange(0, 2000) * 10 ** 6 if r < 0.8 else rng.randrange(1, 4000) * SEC
        elif kind == "ties":
            dt = 0 if r < 0.6 else rng.choice([1, 10 ** 9, 10 ** 9 - 1, 60 * SEC])
        elif kind == "sec":
            dt = rng.choice([SEC, SEC, SEC, 2 * SEC, 5 * SEC])
        else:
            dt = rng.choice([0, 1, 10 ** 6, 10 ** 9, rng.randrange(10 ** 10), 60 * SEC])
        if rng.random() < flatp:
            dp = 0
        elif kind == "trend":
            dp = rng.randrange(0, 5)
        else:
            dp = rng.randrange(-4, 5) * rng.choice([1, 1, 1, 10])
        am = rng.choice([1, 10, 250, 10000, rng.randrange(1, 10 ** 6), 10 ** 7])
        if whole:
            am = 10000 * rng.choice([1, 1, 2, 5, 10, 100])
        if idle and rng.random() < idle:
            am = 0
        fl = (1 if rng.random() < nanp else 0) | (2 if rng.random() < nanp else 0) | (4 if rng.random() < 0.03 else 0)
        ops.append([dt, dp, am, rng.choice([-1, 1]), fl])
    t0 = rng.choice([1_704_067_200_000_000_000, 1_711_843_199_000_000_000, 1_709_164_800_000_000_000, 1_706_745_599_999_000_000]) + rng.choice([0, 1, 10 ** 9, rng.randrange(10 ** 12)])
    return dict(t0=t0, tick=rng.choice([1, 25, 100, 1000]) / 100.0, base=rng.choice([50, 4000, 60000]), ops=ops)


class D:
    """Arrays derived from a tape plan (fresh copies on every construction)."""

    def __init__(self, tape, upto=None, mutate_from=None, mut=0):
        ops = [list(o) for o in tape["ops"]]
        if mutate_from is not None:                    # a different future from this position on
            for i in range(mutate_from, len(ops)):
                ops[i][0] = ops[i][0] * (2 + mut) + 7 * mut + 1
                ops[i][1] = -ops[i][1] * (1 + mut) + ((i * 7 + mut) % 5 - 2)
                ops[i][2] = 1 + (ops[i][2] * 31 + i * 17 + mut * 1009) % 10 ** 6
                ops[i][3] = -ops[i][3] if (i + mut) % 3 else ops[i][3]
                ops[i][4] = ops[i][4] ^ (1 if (i + mut) % 7 == 0 else 0)
        if upto is not None:
            ops = ops[:upto]
        n = self.n = len(ops)
        a = np.array(ops, dtype=np.int64).reshape(n, 5)
        self.ts = tape["t0"] + np.cumsum(a[:, 0]) if n else np.zeros(0, np.int64)
        lv = tape["base"] + np.cumsum(a[:, 1])
        if n:
            lv = np.maximum(lv, 3)
        self.level = lv.astype(np.int64)
        self.tick = float(tape["tick"])
        self.px = self.level * self.tick
        self.am = a[:, 2] / 1e4 * tape.get("unit", 1)
        self.side = a[:, 3].astype(np.int8)
        self.flags = a[:, 4]
        self.uts = self.ts + np.arange(n)              # strictly increasing variant
        self.high = self.px + (a[:, 2] % 5) * self.tick
        self.low = self.px - (a[:, 2] % 3) * self.tick
        ret = np.zeros(n)
        if n > 1:
            ret[1:] = np.log(self.px[1:] / self.px[:-1])
        self.ret = ret
        self.retn = np.where(self.flags & 1, np.nan, ret)
        self.vol = np.where(self.flags & 4, 0.0, self.am)
        self.voln = np.where(self.flags & 2, np.nan, self.vol)
        self.pxn = np.where(self.flags & 2, np.nan, self.px)


    def window(self, i, j):
        """The trades i..j-1 as a tape of their own (price, size and side only)."""
        w = object.__new__(D)
        w.n, w.tick = j - i, self.tick
        for f in ("ts", "level", "px", "am", "side", "uts"):
            setattr(w, f, getattr(self, f)[i:j].copy())
        return w


def same(a, b, rtol=1e-9, path=""):
    """None if equal, otherwise a description of the first difference."""
    if a is None or b is None:
        return None if a is b else f"{path}: {a!r} vs {b!r}"
    import pandas as pd
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        if not (isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame)):
            return f"{path}: {type(a)} vs {type(b)}"
        if list(a.columns) != list(b.columns):
            return f"{path}: columns {list(a.columns)} vs {list(b.columns)}"
        d = same(np.asarray(a.index), np.asarray(b.index), rtol, path + ".index")
        if d:
            return d
        for i, c in enumerate(a.columns):
            d = same(a.iloc[:, i].to_numpy(), b.iloc[:, i].to_numpy(), rtol, f"{path}[{c}]")
            if d:
                return d
        return None
    if isinstance(a, pd.Series):
        if not isinstance(b, pd.Series):
            return f"{path}: Series vs {type(b)}"
        if a.name != b.name:
            return f"{path}: name {a.name} vs {b.name}"
        return same(np.asarray(a.index), np.asarray(b.index), rtol, path + ".index") or same(a.to_numpy(), b.to_numpy(), rtol, path)
    if isinstance(a, dict):
        if not isinstance(b, dict) or sorted(map(str, a)) != sorted(map(str, b)):
            return f"{path}: keys differ"
        for k in a:
            d = same(a[k], b[k], rtol, f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (tuple, list)) or type(a).__name__ == "List":
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, rtol, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, (str, bytes, bool)):
        return None if a == b else f"{path}: {a!r} vs {b!r}"
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return f"{path}: shape {x.shape} vs {y.shape}"
    if x.size == 0:
        return None
    if x.dtype.kind in "fc" or y.dtype.kind in "fc":
        if x.dtype.kind not in "fciub" or y.dtype.kind not in "fciub":
            return f"{path}: dtype {x.dtype} vs {y.dtype}"
        rt = max(rtol, 1e-5) if (x.dtype == np.float32 or y.dtype == np.float32) else rtol
        xf, yf = x.astype(float), y.astype(float)
        fin = np.abs(xf[np.isfinite(xf)])
        scale = float(fin.max()) if fin.size else 0.0
        with np.errstate(all="ignore"):
            ok = (np.isnan(xf) & np.isnan(yf)) | (xf == yf) | (np.abs(xf - yf) <= rt * np.maximum(np.abs(xf), np.abs(yf)) + rt * 1e-3 * scale)
    else:
        if x.dtype == object or y.dtype == object:
            for i, (p, q) in enumerate(zip(x.ravel(), y.ravel())):
                if not (p is q or p == q or (p != p and q != q)):
                    return f"{path}[{i}]: {p!r} vs {q!r}"
            return None
        ok = x == y
        if x.dtype.kind in "mM":
            ok = ok | (np.isnat(x) & np.isnat(y))
    if np.all(ok):
        return None
    i = tuple(int(v) for v in np.argwhere(~np.atleast_1d(ok))[0])
    xa, ya = np.atleast_1d(x), np.atleast_1d(y)
    return f"{path}{list(i)}: {xa[i]!r} vs {ya[i]!r} ({int((~np.atleast_1d(ok)).sum())} of {xa.size} differ)"
