"""F02: histories of saving and loading kit configurations on a simulated disk with crashes, power loss and I/O errors."""
import json
import os
import shutil

from dst import core, data, feat, fresh, seams, simdisk

RUNS = dict(quick=12000, thorough=600000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: simulated disk with crash points, power loss, torn and failed writes under save/load histories"
LEVEL_NOTE = ("Seeded search over kits and histories of saves to one path; every file operation of a save is a possible point for a kill, a power loss (unsynced bytes and renames may be lost), "
              "an I/O error, a full disk or a short write; what is loadable afterwards must be the complete old or complete new configuration")
RULE = "a run counts when a saved configuration was loaded and its kit compared; distinct by kits, history and fault points"
MEASURE = "distinct (kits, tape, history, fault points, lost writes)"
REAL = ["FeatureKit.save_config/from_config, Feature and transform serialization, feature computation (interpreted source)", "json", "the Python file API on a scratch directory"]
STUB = ["Numba's compiler", "disk durability (what a crash or power loss leaves is decided by the run)"]
ASSUMPTIONS = ["renames are atomic and reach the disk in order; a file's bytes are certain to be on disk only after fsync", "a save that returned survives a process crash (its directory entry needs no further sync)",
               "an unnamed callable in ExternalFunction or a hand-written Feature.apply function is outside the property"]
SHRINK_LISTS = ("ops", "hist", "feats")
SHRINK_MIN = {"hist": 1, "feats": 1}
COLS = {"ADX": (["high", "low", "close"], ["open", "vwap", "x"]), "ATR": (["high", "low", "close"], ["open", "vwap", "x"]), "VPIN": (["volume_buy", "volume_sell"], ["volume", "cash"]),
        "PriceVolumeCorrelation": (["close", "volume"], ["open", "volume_buy"]), "ParkinsonRange": (["high", "low"], ["open", "close"]), "StochK": (["close", "low", "high"], ["vwap", "open", "x"]),
        "VWAPDistance": (["close", "vwap"], ["open", "high"]), "CandleShape": (["open", "high", "low", "close"], ["vwap", "x"]), "ORBBreak": (["high", "low", "close"], ["open", "vwap"])}
COL1 = {"BarDuration": ["close", "open"], "BarDurationEWMA": ["close", "open"], "BarRate": ["close", "volume"], "CUSUMTest": ["close", "vwap"], "DailyGap": ["open", "close"]}
EXTRA_EXT = [["ext", "numpy.around", "close", "exr", [1], {}, True], ["ext", "numpy.around", "volume", "exd", [], {"decimals": 2}, False],
             ["ext", "numpy.clip", "close", "exc", [0.25, 1e6], {}, True], ["ext", "numpy.modf", "close", ["frac", "whole"], [], {}, True], ["ext", "numpy.power", ["close", "open"], None, [], {}, True],
             ["ext", "numpy.divmod", ["close", "volume"], ["q", "r"], [], {}, False], ["ext", "math.fsum", "close", "sm", [], {}, False], ["ext", "numpy.gradient", "close", None, [2.0], {}, True],
             ["ext", "numpy.nan_to_num", "x", "nn", [], {"nan": -1.5, "copy": True}, True], ["ext", "numpy.interp", "close", "ip", [[0, 10, 1e6], [0, 1, 2]], {}, True]]


def setup(scratch):
    seams.install()
    simdisk.install()


def _gen_one(rng, n):
    r = rng.random()
    if r < 0.22:
        nm = rng.choice(sorted(feat.TRANSFORMS))
        s = ["t", nm, feat.TRANSFORMS[nm][1](rng, n)]
        if nm in COLS and rng.random() < 0.6:
            a, b = COLS[nm]
            s[2]["input_cols"] = [rng.choice([c] + b) for c in a]
        if nm in COL1 and rng.random() < 0.6:
            s[2]["input_col"] = rng.choice(COL1[nm])
        if s[0] == 't' and "'td'" in str(s[2]) and rng.random() < 0.5:
            k = [k for k, v in s[2].items() if isinstance(v, dict)][0]
            s[2][k] = {"td": rng.choice([0.1, 1e-3, 3600.000001, 86400.0, 2.5])}
    elif r < 0.32:
        s = rng.choice(EXTRA_EXT) + [rng.random() < 0.4]
    elif r < 0.42:
        s = ["un", "clip", feat.gen_t(rng, n), rng.choice([[1e-05, 1e+20], [-1e-07, 3.25], [None, -2], [5, None], [-100, 100.5], [0.1 + 0.2, None]])]
    else:
        s = feat.gen_feature(rng, n, depth=3, renames=True)
    if s[0] != "named" and rng.random() < 0.25 and not (s[0] == "ext" and not isinstance(s[3], str)):
        f = feat.build(s)
        if isinstance(f.name, str):
            s = ["named", s, rng.choice([f"my_{rng.randrange(1000)}", "größe β", 'q"uo\\te', "a/b c", "lag5", "ema3"])]
    return s


def gen(rng, tier, idx):
    n = rng.choice([3, 6, 8, 12, 20])
    kits = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        kits.append(dict(feats=[_gen_one(rng, n) for _ in range(rng.choice([1, 2, 3, 4]))], retain=rng.choice([[], [], ["close"], ["volume", "open"]]), bad=rng.random() < 0.06))
    hist = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        fault = None
        if rng.random() < 0.75:
            fault = dict(at=rng.choice([0, 1, 1, 2, 3, 4, 5, rng.randrange(12), rng.randrange(400)]), kind=rng.choice(["kill", "kill", "power", "power", "power", "enospc", "eio", "eacces", "short"]))
        hist.append(dict(kit=rng.randrange(len(kits)), fault=fault, through=rng.random() < 0.6, after=rng.random() < 0.2, via=rng.choice(["str", "path"]), new=rng.random() < 0.7))
    return dict(tape=data.gen_tape(rng, n), kits=kits, hist=hist, backend=rng.choice(["nb", "nb", "pd"]), grid=rng.choice([None, "15m"]), order=rng.choice(["defined", "topo"]))


def valid_plan(p):
    return len(p["tape"]["ops"]) >= 1 and all(k["feats"] for k in p["kits"]) and all(h["kit"] < len(p["kits"]) for h in p["hist"])


def cleanup(run):
    simdisk.CURRENT[0] = None
    shutil.rmtree(os.path.join(run.scratch, "cfg"), ignore_errors=True)


class _Unserializable:
    def __str__(self):
        raise ValueError("cannot be written (injected)")

    __repr__ = __str__


def _kit(k):
    from finmlkit.feature.kit import Feature, FeatureKit
    from finmlkit.feature.transforms import ExternalFunction
    fs = [feat.build(s) for s in k["feats"]]
    if k["bad"]:
        fs.append(Feature(ExternalFunction("numpy.around", "close", "bad", args=[_Unserializable()])))
    return FeatureKit(fs, retain=list(k["retain"]))


def _names(kit):
    return [f.name if isinstance(f.name, str) else list(f.name) for f in kit.features]


def _values(pl, kit, df):
    try:
        out = kit.build(df.copy(), backend=pl["backend"], order=pl["order"])
        return ["ok", out]
    except Exception as e:
        return ["raised", type(e).__name__, str(e)[:200]]


def _each(pl, kit, df):
    out = []
    for f in kit.features:
        try:
            out.append(["ok", feat.columns(f(df.copy(), backend=pl["backend"]))])
        except Exception as e:
            out.append(["raised", type(e).__name__])
    return out


def execute(run):
    from finmlkit.feature.kit import FeatureKit
    from pathlib import Path
    pl = run.plan
    d = data.D(pl["tape"])
    df = feat.bars(d, pl["grid"])
    root = os.path.join(run.scratch, "cfg")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    path = os.path.join(root, "kit.json")
    run.sig(json.dumps(pl, sort_keys=True))
    have = None                               # number of the kit known to be on disk
    refs = {}

    def ref(i):
        if i not in refs:
            k = _kit(pl["kits"][i])
            refs[i] = (_names(k), list(k.retain), _each(pl, k, df), _values(pl, k, df))
        return refs[i]

    def check_loaded(i, kit, what):
        nm, rt, each, vals = ref(i)
        lab = "/".join(sorted({c for s in pl["kits"][i]["feats"] for c in feat.classes(s)}))
        if _names(kit) != nm:
            raise core.Violation("names", f"{what}: saved {nm}, loaded {_names(kit)}")
        if list(kit.retain) != rt:
            raise core.Violation("retain", f"{what}: saved {rt}, loaded {kit.retain}")
        got = _each(pl, kit, df)
        for s, a, b in zip(pl["kits"][i]["feats"], each, got):
            run.sub += 1
            if a[0] != b[0]:
                raise core.Violation(f"value:{'/'.join(sorted(set(feat.classes(s))))}", f"{what}: {s}: saved kit {str(a)[:200]}, loaded kit {str(b)[:200]}")
            if a[0] == "ok":
                df_ = data.same([[x, y] for x, y in a[1]], [[x, y] for x, y in b[1]])
                if df_:
                    raise core.Violation(f"value:{'/'.join(sorted(set(feat.classes(s))))}", f"{what}: {s}: {df_}")
        v = _values(pl, kit, df)
        if v[0] != vals[0] or (v[0] == "ok" and data.same(vals[1], v[1])):
            raise core.Violation("kit-value", f"{what}: {lab}: {str(vals)[:200]} vs {str(v)[:200]}")
        run.nontrivial = True

    def load(new=True):
        if new:
            fresh.restore()                   # another process loads it
        return FeatureKit.from_config(path)

    def on_disk(allowed, what, new=True):
        """The kit on disk must be one of `allowed` (kit numbers, or None for no configuration)."""
        try:
            kit = load(new)
        except FileNotFoundError:
            if None in allowed:
                return None
            raise core.Violation("lost", f"{what}: no configuration is left at the path")
        except Exception as e:
            raise core.Violation("unloadable", f"{what}: {type(e).__name__}: {e}; {os.path.getsize(path)} bytes on disk")
        bad = None
        for i in allowed:
            if i is not None:
                try:
                    check_loaded(i, kit, what)
                    return i
                except core.Violation as v:
                    bad = bad or v
        raise bad or core.Violation("foreign", f"{what}: a configuration nobody saved: {_names(kit)}")

    for h in pl["hist"]:
        i = h["kit"]
        bad = pl["kits"][i]["bad"]
        kit = _kit(pl["kits"][i])
        disk = simdisk.Disk(run, root, h["fault"], h["through"])
        err = None
        try:
            with disk:
                kit.save_config(Path(path) if h["via"] == "path" else path)
                if h["after"]:                                   # the machine dies right after the save returned
                    disk.crashed = "power"
                    run.fault("power@returned")
                    raise core.SimCrash("power")
        except core.SimCrash:
            err = "crash"
            disk.restore()
        except Exception as e:
            err = e
        run.log("save", i, None if err is None else str(err)[:60], disk.n)
        run.sim_ns += 10 ** 6 * disk.n
        if err is None:
            if bad:
                run.probe("unserializable-saved")
                return
            have = on_disk([i], f"after saving kit {i}" + (f" with {h['fault']}" if disk.fired else ""), h["new"])
            continue
        if bad and not disk.fired:
            run.fault("serialization-failure")
        elif not disk.fired and disk.crashed is None:
            raise core.Violation("save-failed", f"saving kit {i} without a fault: {type(err).__name__}: {err}")
        have = on_disk([have] if bad else [have, i], f"after a save of kit {i} interrupted by {h['fault'] if disk.fired else 'a power loss right after it returned'}")
    # faults stop: saving once more works and wins over whatever is left over
    good = [j for j, k in enumerate(pl["kits"]) if not k["bad"]]
    if good:
        i = good[-1]
        run.call("save", _kit(pl["kits"][i]).save_config, path)
        on_disk([i], "after the final save")
