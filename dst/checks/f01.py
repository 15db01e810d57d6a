"""F01: feature kits under permuted listings, simulated set iteration order, injected failures and retries."""
import builtins
import hashlib

import numpy as np

from dst import core, data, feat, seams
from dst.checks.p03 import snap, where

RUNS = dict(quick=6000, thorough=400000)
CROSS = 160
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded listing order, simulated hash-set iteration order, injected failures and allocation failures with retry"
LEVEL_NOTE = ("Seeded search over kits (expressions, compositions, consumers of other features' columns, renamed and multi-output features), listings, subsets, evaluation orders, "
              "set iteration orders, hash seeds and failure points; every feature's values are compared with those of the feature built with its producers only")
RULE = "a run counts when a kit of at least two features was built in at least one other arrangement; distinct by kit, tape and arrangements"
MEASURE = "distinct (kit, tape, listings, failure points, set orders)"
REAL = ["FeatureKit, Feature, Compose, computation graph, all transforms (interpreted source)", "pandas", "numpy"]
STUB = ["Numba's compiler", "iteration order of sets created in finmlkit.feature.kit/utils (seeded), interpreter hash seed (one per shard; a common set of runs is compared across shards)"]
ASSUMPTIONS = ["feature names and produced columns within a kit are distinct for consumers (an ambiguous column name has no defined producer)", "external functions are pure"]
SHRINK_LISTS = ("ops", "feats")
SHRINK_MIN = {"feats": 1}
CPU_LIMIT = 120
RUNREF = [None]


class _Meta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.set)


class SimSet(builtins.set, metaclass=_Meta):
    """A set whose iteration order is decided by the run (any order is legal for a set of strings)."""

    def __iter__(self):
        items = sorted(builtins.set.__iter__(self), key=repr)
        run = RUNREF[0]
        if run is None or len(items) < 2:
            return iter(items)
        out = []
        while items:
            out.append(items.pop(run.choose(len(items), "set")))
        return iter(out)

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError("pop from an empty set")


def setup(scratch):
    seams.install()
    import finmlkit.feature.kit as k
    import finmlkit.feature.utils as u
    k.set = u.set = SimSet


def _cols(f):
    o = f.transform.output_name
    return [o] if isinstance(o, str) else list(o)


def _nested(t, acc):
    for c in (t,):
        o = c.output_name
        acc.update([o] if isinstance(o, str) else list(o))
        acc.update(c.produces)
    for a in ("left", "right", "transform"):
        if getattr(t, a, None) is not None and hasattr(getattr(t, a), "output_name"):
            _nested(getattr(t, a), acc)
    for s in getattr(t, "transforms", None) or ():
        _nested(s, acc)


def gen(rng, tier, idx):
    n = rng.choice([4, 6, 8, 12, 16, 24])
    nf = rng.choice([2, 3, 3, 4, 5, 6 if tier == "quick" else 9])
    feats, cols, names = [], {}, set()          # cols: produced column -> (feature index)
    inner = set()
    base = {"open", "high", "low", "close", "volume", "vwap", "volume_buy", "volume_sell", "ret1", "y", "x", "ret", "cash"}
    pool = [feat.gen_t(rng, n) for _ in range(3)]
    tries = 0
    while len(feats) < nf and tries < 40:
        tries += 1
        deps = []
        r = rng.random()
        if r < 0.3 and cols:
            col = rng.choice(sorted(cols))
            if cols[col] is None or col in inner:
                continue
            nm = rng.choice(feat.HAS_COL)
            kw = feat.TRANSFORMS[nm][1](rng, n)
            kw["input_col"] = col
            s = ["t", nm, kw]
            if rng.random() < 0.4:
                s = rng.choice([["un", "abs", s, []], ["const", "mul", s, 2], ["bin", "sub", s, rng.choice(pool)], ["compose", s[1:], ["SMA", dict(window=2, input_col="step0")]]])
            deps = [cols[col]]
        elif r < 0.42:
            nm = rng.choice([k for k, v in sorted(feat.TRANSFORMS.items()) if v[0] == "m"])
            s = ["t", nm, feat.TRANSFORMS[nm][1](rng, n)]
        elif r < 0.62:
            a = rng.choice(pool)
            s = rng.choice([a, ["un", "lag", a, [1]], ["bin", "add", a, rng.choice(pool)], ["un", "ema", a, [3, rng.random() < 0.5]], ["const", "rsub", a, 1], ["mm", "max", a, rng.choice(pool)],
                            ["compose", a[1:], ["Lag", dict(periods=1, input_col="step0")]]])
        else:
            s = feat.gen_feature(rng, n, renames=False)
        f = feat.build(s)
        out = _cols(f)
        if len(out) == 1 and isinstance(f.name, str):
            if str(f.name) in names or str(f.name) in base or rng.random() < 0.3:
                s = ["named", s, f"my_{len(feats)}_{rng.randrange(100)}"]
                f = feat.build(s)
        elif any(c in cols or c in names or c in inner for c in out):
            continue
        if str(f.name) in names or any(c in names for c in out if c != str(f.name)):
            continue
        nest = set()
        _nested(f.transform, nest)
        # a feature whose own name or nested names collide with a column somebody consumes would make that column ambiguous
        used = {c for ft in feats for c in ft["consumes"]}
        if nest & used or str(f.name) in used:
            continue
        for c in out:
            cols[c] = len(feats) if c not in cols and c not in base else None
        inner |= nest - set(out)
        consumes = [kw_col for kw_col in [s[2].get("input_col")] if kw_col] if (deps and s[0] == "t") else ([col] if deps else [])
        feats.append(dict(spec=s, deps=deps, consumes=consumes, id=len(feats)))
        names.add(str(f.name))
    return dict(tape=data.gen_tape(rng, n), feats=feats, backend=rng.choice(["nb", "pd"]), grid=rng.choice([None, "15m"]), retain=rng.choice([[], ["close"], ["volume", "open"]]),
                arr=[dict(order=rng.choice(["defined", "topo", "topo"]), subset=rng.random() < 0.3, fail=rng.choice([None, None, "feature", "feature", "alloc"]), at=rng.randrange(8),
                          timeit=rng.random() < 0.1) for _ in range(3)])


def valid_plan(p):
    ids = [f["id"] for f in p["feats"]]
    return all(d in ids for f in p["feats"] for d in f["deps"]) and len(p["tape"]["ops"]) >= 1


def _mk(feats):
    from finmlkit.feature.kit import Feature

    class Faulty(Feature):
        armed = False

        def __call__(self, x, **k):
            if Faulty.armed and self is Faulty.armed:
                Faulty.armed = False
                raise MemoryError("injected")
            return super().__call__(x, **k)
    out = []
    for f in feats:
        ft = feat.build(f["spec"])
        ft.__class__ = Faulty
        out.append(ft)
    return out, Faulty


def _closure(feats, i, by):
    need, todo = [], [i]
    while todo:
        j = todo.pop()
        if j not in need:
            need.append(j)
            todo.extend(by[j]["deps"])
    return [f for f in feats if f["id"] in need]


def _perm(run, items):
    items, out = list(items), []
    while items:
        out.append(items.pop(run.choose(len(items), "perm")))
    return out


def _linear(run, feats):
    left, done, out = list(feats), set(), []
    while left:
        ready = [f for f in left if all(d in done for d in f["deps"])]
        f = ready[run.choose(len(ready), "lin")]
        left.remove(f)
        done.add(f["id"])
        out.append(f)
    return out


def _values(res, f):
    ft = feat.build(f["spec"])
    names = [ft.name] if isinstance(ft.name, str) else list(ft.transform.output_name)
    missing = [n for n in names if n not in res.columns]
    if missing:
        raise core.Violation("column-missing", f"{f['spec']}: {missing} not in {list(res.columns)}")
    return [[n, res[n].to_numpy()] for n in names]


def execute(run):
    from finmlkit.feature.kit import FeatureKit
    pl = run.plan
    feats = pl["feats"]
    by = {f["id"]: f for f in feats}
    d = data.D(pl["tape"])
    df = feat.bars(d, pl["grid"])
    before = snap(df)
    run.sig(repr(feats), repr(pl["tape"]), pl["backend"])
    RUNREF[0] = None
    base, errors = {}, set()
    for f in feats:
        try:
            ks, _ = _mk(_linear(_Fixed, _closure(feats, f["id"], by)))
            base[f["id"]] = _values(FeatureKit(ks, []).build(df, backend=pl["backend"]), f)
        except core.Violation:
            raise
        except Exception as e:
            errors.add(f["id"])
            run.probe("raises-alone:" + type(e).__name__)
    feats = [f for f in feats if not any(g["id"] in errors for g in _closure(feats, f["id"], by))]
    if not feats:
        return
    RUNREF[0] = run
    try:
        for a in pl["arr"]:
            sub = feats
            if a["subset"] and len(feats) > 1:
                keep = {g["id"] for f in _perm(run, feats)[:max(1, len(feats) - 1)] for g in _closure(feats, f["id"], by)}
                sub = [f for f in feats if f["id"] in keep]
            listing = _perm(run, sub) if a["order"] == "topo" else _linear(run, sub)
            objs, Faulty = _mk(listing)
            kit = FeatureKit(objs, list(pl["retain"]))
            run.sig([f["id"] for f in listing], a)
            names = [str(o.name) for o in objs]
            orders = [run.call("topological_order", kit.topological_order) for _ in range(3)]
            run.log("order", orders[0])
            for o in orders[1:]:
                run.sub += 1
                if o != orders[0]:
                    raise core.Violation("topological-order-depends-on-set-order", f"{names}: {orders[0]} vs {o}")
            if sorted(orders[0]) != sorted(names):
                raise core.Violation("topological-order-incomplete", f"{names} -> {orders[0]}")
            pos = {n: i for i, n in enumerate(orders[0])}
            for f, o in zip(listing, objs):
                for dep in f["deps"]:
                    pn = str(objs[[g["id"] for g in listing].index(dep)].name)
                    run.sub += 1
                    if pos[pn] > pos[str(o.name)]:
                        raise core.Violation("topological-order-violates-dependency", f"{o.name} reads a column of {pn}; order {orders[0]} for listing {names}")
            gs = [kit.build_graph().topological_sort() for _ in range(2)]
            run.log("graph", gs[0])
            if gs[0] != gs[1]:
                raise core.Violation("graph-order-depends-on-set-order", f"{gs[0]} vs {gs[1]}")
            if a["fail"]:
                if a["fail"] == "feature":
                    Faulty.armed = objs[a["at"] % len(objs)]
                else:
                    seams.STATE["alloc_fail"] = 1 + a["at"]
                try:
                    kit.build(df, backend=pl["backend"], order=a["order"])
                except MemoryError:
                    run.fault("feature-failure" if a["fail"] == "feature" else "allocation-failure")
                except Exception as e:
                    if a["fail"] == "feature":
                        raise core.Violation(f"exception:build:{type(e).__name__}", f"{names} {a['order']}: {e}\n{core.tb_tail(e)}")
                finally:
                    seams.STATE["alloc_fail"] = None
                    Faulty.armed = False
                diff = where(before, snap(df))
                if diff:
                    raise core.Violation("failed-build-modified-input", f"{names}: {diff}")
            res = run.call("build", kit.build, df, backend=pl["backend"], order=a["order"], timeit=a["timeit"])
            run.log("built", list(res.columns), hashlib.sha256(repr(snap(res)).encode()).hexdigest()[:12])
            for f in listing:
                run.sub += 1
                df_ = data.same(base[f["id"]], _values(res, f), rtol=1e-11)
                if df_:
                    raise core.Violation("value-depends-on-arrangement:" + "/".join(sorted(set(feat.classes(f["spec"])))), f"{f['spec']} in {[x['spec'] for x in listing]} order={a['order']} fail={a['fail']}: alone vs in kit {df_}")
            for c in pl["retain"]:
                if data.same(df[c].to_numpy(), res[c].to_numpy(), 0):
                    raise core.Violation("retained-column-changed", c)
            diff = where(before, snap(df))
            if diff:
                raise core.Violation("build-modified-input", f"{names}: {diff}")
            if len(listing) > 1:
                run.nontrivial = True
    finally:
        RUNREF[0] = None
        seams.STATE["alloc_fail"] = None


class _FixedRun:
    @staticmethod
    def choose(n, tag=""):
        return 0


_Fixed = _FixedRun()
