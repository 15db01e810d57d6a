"""Bars tables and JSON feature specifications -> Feature objects.

Specs: ["t", class, kwargs] transform; ["bin", op, a, b]; ["const", op, a, c]; ["mm", op, a, b]; ["mmc", op, a, c];
["un", method, a, args...]; ["compose", [cls, kwargs], [cls, kwargs]...]; ["ext", func, in, out, args, kwargs, pass_numpy];
["named", a, name].  kwargs values {"td": seconds} become Timedelta.
"""
import numpy as np
import pandas as pd

Q15 = 900_000_000_000


def bars(d, grid=None, upto=None):
    """A bars table: irregular timestamps, or a 15-minute grid (crossing midnights)."""
    n = d.n
    if grid == "15m":
        ts = (d.uts[0] // Q15) * Q15 + Q15 * np.arange(n) if n else np.zeros(0, np.int64)
    elif grid == "15mgap":                      # a grid with missing bars, decided by the flags of the tape
        ts = (d.uts[0] // Q15) * Q15 + Q15 * np.cumsum(1 + 3 * (np.asarray(d.flags) & 1)) if n else np.zeros(0, np.int64)
    else:
        ts = d.uts
    op = np.empty(n)
    if n:
        op[0] = d.px[0]
        op[1:] = d.px[:-1]
    df = pd.DataFrame(dict(open=op, high=np.maximum(d.high, np.maximum(op, d.px)), low=np.minimum(d.low, np.minimum(op, d.px)), close=d.px, volume=d.vol, vwap=(d.px + op) / 2,
                           volume_buy=np.where(d.side > 0, d.vol, 0.0), volume_sell=np.where(d.side < 0, d.vol, 0.0), ret1=d.ret, y=d.retn, x=d.pxn, ret=d.ret, cash=d.voln),
                      index=pd.DatetimeIndex(ts, name="timestamp"))
    return df if upto is None else df.iloc[:upto]


def _w(rng, n, lo=1):
    return max(lo, rng.choice([1, 2, 3, 4, 5, 7, rng.randrange(1, 13), n, n + 3]))


PX = ["close", "open", "high", "low", "vwap", "x"]
RT = ["ret1", "ret", "y"]
VO = ["volume", "volume_buy", "cash"]
TD = [0.5, 1.0, 3.0, 60.0, 900.0, 3600.0]

# name -> (kind, kwargs generator); kind: "s" single output, "m" several outputs
TRANSFORMS = {
    "Identity": ("s", lambda r, n: dict(input_col=r.choice(PX + RT + VO))),
    "Lag": ("s", lambda r, n: dict(periods=_w(r, n), input_col=r.choice(PX + RT))),
    "ReturnT": ("s", lambda r, n: dict(window={"td": r.choice(TD)}, is_log=r.random() < 0.5, input_col="close")),
    "Return": ("s", lambda r, n: dict(periods=_w(r, n), input_col=r.choice(PX), is_log=r.random() < 0.5)),
    "ROC": ("s", lambda r, n: dict(periods=_w(r, n), input_col=r.choice(PX))),
    "PctChange": ("s", lambda r, n: dict(window=_w(r, n), input_col=r.choice(PX))),
    "RSIWilder": ("s", lambda r, n: dict(window=_w(r, n), input_col="close")),
    "StochK": ("s", lambda r, n: dict(length=_w(r, n))),
    "EWMST": ("s", lambda r, n: dict(half_life={"td": r.choice(TD)}, input_col=r.choice(RT))),
    "ZScore": ("s", lambda r, n: dict(window=_w(r, n, 2), input_col=r.choice(PX + VO), ddof=r.choice([0, 1]))),
    "BurstRatio": ("s", lambda r, n: dict(window=_w(r, n), input_col=r.choice(VO))),
    "VWAPDistance": ("s", lambda r, n: dict(periods=_w(r, n), is_log=r.random() < 0.5)),
    "TimeCues": ("m", lambda r, n: dict(input_col="close")),
    "RealizedVolatility": ("s", lambda r, n: dict(window=_w(r, n, 2), is_sample=r.random() < 0.5, input_col=r.choice(RT))),
    "BollingerPercentB": ("s", lambda r, n: dict(window=_w(r, n, 2), num_std=r.choice([1.0, 2.0]), input_col=r.choice(PX))),
    "ParkinsonRange": ("s", lambda r, n: dict()),
    "SMA": ("s", lambda r, n: dict(window=_w(r, n), input_col=r.choice(PX + VO))),
    "EWMA": ("s", lambda r, n: dict(span=_w(r, n), input_col=r.choice(PX + VO + RT))),
    "FlowAcceleration": ("s", lambda r, n: (lambda q: dict(window=q + r.randrange(1, 8), recent_periods=q, input_col=r.choice(VO)))(r.choice([1, 2, 3, 5]))),
    "CUSUMTest": ("m", lambda r, n: (lambda q: dict(window_size=q + r.choice([2, 3, 6, 10]), warmup_period=q, max_age=r.choice([3, 10, 144])))(r.choice([2, 3, 5]))),
    "ATR": ("s", lambda r, n: dict(window=_w(r, n), ema_based=r.random() < 0.5, normalize=r.random() < 0.5)),
    "PriceVolumeCorrelation": ("s", lambda r, n: dict(window=_w(r, n, 2))),
    "VPIN": ("s", lambda r, n: dict(window=_w(r, n))),
    "VarianceRatio14": ("s", lambda r, n: dict(window=_w(r, n, 6), input_col=r.choice(["close", "x"]), ret_type=r.choice(["log", "simple"]), ddof=r.choice([0, 1]))),
    "KurtosisTransform": ("s", lambda r, n: dict(window=_w(r, n, 4), input_col=r.choice(RT))),
    "TrendSlope": ("s", lambda r, n: dict(window=_w(r, n, 2), input_col=r.choice(["close", "vwap", "x"]))),
    "ADX": ("s", lambda r, n: dict(length=_w(r, n))),
    "MeanReversionZScore": ("s", lambda r, n: dict(window=_w(r, n, 2), input_col=r.choice(["close", "x"]))),
    "DailyGap": ("s", lambda r, n: dict()),
    "ORBBreak": ("m", lambda r, n: dict()),
    "BarRate": ("s", lambda r, n: dict(window={"td": r.choice([1.0, 60.0, 90.0, 3600.0])})),
    "CandleShape": ("m", lambda r, n: dict()),
    "HurstExponent": ("s", lambda r, n: dict(window=r.choice([8, 12, 16]), input_col=r.choice(RT))),
    "BarDurationEWMA": ("s", lambda r, n: dict(span=_w(r, n))),
    "BarDuration": ("s", lambda r, n: dict(periods=r.choice([1, 2, 5]))),
    "BiPowerVariation": ("s", lambda r, n: dict(window=_w(r, n, 2), input_col=r.choice(RT))),
    "DirRunLen": ("s", lambda r, n: dict(input_col=r.choice(RT))),
}
SINGLE = sorted(k for k, v in TRANSFORMS.items() if v[0] == "s")
HAS_COL = ["Identity", "Lag", "Return", "ROC", "PctChange", "ZScore", "SMA", "EWMA", "BurstRatio", "RealizedVolatility", "BollingerPercentB", "KurtosisTransform",
           "BiPowerVariation", "MeanReversionZScore", "TrendSlope", "DirRunLen"]
EXT1 = ["numpy.log", "numpy.sqrt", "numpy.sign", "numpy.tanh", "numpy.cbrt", "numpy.negative"]
EXT2 = ["numpy.minimum", "numpy.hypot", "numpy.subtract"]


def _kw(kw):
    return {k: (pd.Timedelta(seconds=v["td"]) if isinstance(v, dict) and "td" in v else v) for k, v in kw.items()}


def gen_t(rng, n, single=True, names=None):
    name = rng.choice(names or (SINGLE if single else sorted(TRANSFORMS)))
    return ["t", name, TRANSFORMS[name][1](rng, n)]


def gen_feature(rng, n, depth=2, renames=False):
    """A single-output feature expression."""
    r = rng.random()
    if depth <= 0 or r < 0.35:
        s = gen_t(rng, n)
    elif r < 0.47:
        s = ["bin", rng.choice(["add", "sub", "mul", "div"]), gen_feature(rng, n, depth - 1), gen_feature(rng, n, depth - 1)]
    elif r < 0.58:
        s = ["const", rng.choice(["add", "sub", "mul", "div", "radd", "rsub", "rmul", "rdiv"]), gen_feature(rng, n, depth - 1), rng.choice([2, 0.5, -1, 3, 1e-3])]
    elif r < 0.64:
        s = ["mm", rng.choice(["min", "max"]), gen_feature(rng, n, depth - 1), gen_feature(rng, n, depth - 1)]
    elif r < 0.68:
        s = ["mmc", rng.choice(["min", "max", "rmin", "rmax"]), gen_feature(rng, n, depth - 1), rng.choice([0, 1, 0.25, 50])]
    elif r < 0.86:
        a = gen_feature(rng, n, depth - 1)
        m = rng.choice(["abs", "__abs__", "log", "log1p", "exp", "square", "sqrt", "clip", "rolling_mean", "ema", "rolling_sum", "rolling_std", "lag"])
        if m == "clip":
            s = ["un", m, a, rng.choice([[None, 1.0], [-1.0, 1.0], [0.0, None], [-0.001, 0.001], [0, 100]])]
        elif m == "ema":
            s = ["un", m, a, [rng.randrange(1, 9), rng.random() < 0.5]]
        elif m in ("rolling_mean", "rolling_sum", "rolling_std", "lag"):
            s = ["un", m, a, [rng.randrange(1, 9)]]
        else:
            s = ["un", m, a, []]
    elif r < 0.93:
        t1 = gen_t(rng, n)
        steps = [t1[1:]]
        for _ in range(rng.choice([1, 1, 2])):
            nm = rng.choice(HAS_COL)
            kw = TRANSFORMS[nm][1](rng, n)
            kw["input_col"] = f"step{rng.randrange(3)}"          # a name that is no column of the table: the previous step's output is used
            steps.append([nm, kw])
        s = ["compose"] + steps
    else:
        if rng.random() < 0.6:
            s = ["ext", rng.choice(EXT1), rng.choice(["close", "volume", "vwap"]), f"ext{rng.randrange(100)}", [], {}, rng.random() < 0.5, rng.random() < 0.3]
        else:
            s = ["ext", rng.choice(EXT2), ["close", "open"], f"ext{rng.randrange(100)}", [], {}, rng.random() < 0.5, rng.random() < 0.3]
    if renames and rng.random() < 0.3:
        s = ["named", s, f"my_{rng.randrange(1000)}"]
    return s


def transform(name, kw):
    from finmlkit.feature import transforms
    return getattr(transforms, name)(**_kw(kw))


def _named(path):
    """The callable an import path names, if it knows its own path."""
    import importlib
    mod, attr = path.rsplit(".", 1)
    m = importlib.import_module(mod)
    f = getattr(m, attr)
    return f if getattr(f, "__module__", None) == mod and getattr(f, "__name__", None) == attr else path


def build(s):
    """Spec -> Feature."""
    from finmlkit.feature.kit import Feature, Compose
    k = s[0]
    if k == "t":
        return Feature(transform(s[1], s[2]))
    if k == "compose":
        return Feature(Compose(*[transform(a, b) for a, b in s[1:]]))
    if k == "ext":
        from finmlkit.feature.transforms import ExternalFunction
        return Feature(ExternalFunction(_named(s[1]) if len(s) > 7 and s[7] else s[1], s[2], s[3], args=s[4], kwargs=s[5], pass_numpy=s[6]))
    if k == "named":
        f = build(s[1])
        f.name = s[2]
        return f
    a = build(s[2])
    if k == "bin":
        b = build(s[3])
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b}[s[1]]()
    if k == "const":
        c = s[3]
        return {"add": lambda: a + c, "sub": lambda: a - c, "mul": lambda: a * c, "div": lambda: a / c, "radd": lambda: c + a, "rsub": lambda: c - a,
                "rmul": lambda: c * a, "rdiv": lambda: c / a}[s[1]]()
    if k == "mm":
        return getattr(Feature, s[1])(a, build(s[3]))
    if k == "mmc":
        return getattr(Feature, s[1][-3:])(*((s[3], a) if s[1][0] == "r" else (a, s[3])))
    if k == "un":
        return abs(a) if s[1] == "__abs__" else getattr(a, s[1])(*s[3])
    raise ValueError(k)


def classes(s):
    """Names of the building blocks a spec uses."""
    if s[0] == "t":
        return [s[1]]
    if s[0] == "compose":
        return ["Compose"] + [x[0] for x in s[1:]]
    if s[0] == "ext":
        return ["ExternalFunction"]
    if s[0] == "named":
        return classes(s[1])
    out = [f"{s[0]}:{s[1]}"] + classes(s[2])
    if s[0] in ("bin", "mm"):
        out += classes(s[3])
    return out


def columns(res):
    """Result of one feature call -> list of (name, Series)."""
    return [(r.name, r) for r in (res if isinstance(res, (tuple, list)) else [res])]
