"""N01: the pipeline script against a simulated exchange and a failing network; nothing unverified is imported, and a run after the faults repairs everything."""
import datetime as dt
import json
import os
import shutil

from dst import core, hdfsim, pipe, store
from dst.checks import s02

RUNS = dict(quick=900, thorough=60000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: the whole script against a simulated exchange with injected transfer faults, crashes and disk errors, run again until faults stop; comparison with the published archives"
LEVEL_NOTE = ("Seeded search over published months, transfer faults per request (refused, timed out, error status, cut with and without notice, damaged, superseded, error page, spurious 404), crash and disk-error points in the download, "
              "and sequences of runs ending undisturbed; after every run the store is compared with the archives published")
RULE = "a run counts when a transfer fault fired or the program was killed while downloading, and a later undisturbed run was compared; distinct by plan and fault outcomes"
MEASURE = "distinct (publication, run history, transfer faults hit, crash points)"
REAL = ["scripts/binance2h5.py (interpreted source as in the tree)", "TradesData.save_h5, AddTimeBarH5, TimeBarReader", "zipfile, pandas CSV reader and HDFStore, PyTables, HDF5 library on scratch files"]
STUB = ["requests (simulated exchange and network)", "tqdm", "calendar", "process pool, multiprocessing queue, threads (simulated tasks)", "Numba's compiler", "process death (files are put back to the bytes the operating system had)"]
ASSUMPTIONS = ["the exchange publishes one version of an archive per month and, where it publishes a checksum, the right one", "damage that only a checksum can reveal is injected only for months whose checksum is published",
               "a rename is atomic and downloaded files survive (no power loss)", "a checksum file that the operating system cannot read counts as not obtained"]
DIRS = ["w", "w", "data 2020-01", "a.zip", "2019-07_x_2001-2002.h5"]
SHRINK_LISTS = ("rows", "months", "runs", "net")
SHRINK_MIN = {"rows": 1, "months": 1}
NET = ["refused", "timeout", "500", "503", "429", "403", "cut", "cut", "silent", "silent", "nolen", "nolen", "corrupt", "corrupt", "stale", "stale", "stale", "page", "page", "404"]


def setup(scratch):
    pipe.install()


def gen_net(rng, nm, heavy):
    out = []
    if heavy and rng.random() < 0.25:
        for _ in range(rng.choice([1, 2, 2, 3])):
            i = rng.randrange(2 * nm + 3)
            out += [[i + j, rng.choice(NOTICED)] for j in range(rng.choice([1, 1, 2, 2, 3]))]
        return sorted({i: k for i, k in out}.items())
    for _ in range(rng.choice([1, 2, 3, 4, 6]) if heavy else rng.choice([1, 1, 2])):
        i = rng.randrange(2 * nm + 6)
        k = rng.choice(NET)
        for j in range(rng.choice([1, 1, 1, 3, 3, 4])):
            out.append([i + j, k if rng.random() < 0.8 else rng.choice(NET)])
    return sorted({i: k for i, k in out}.items())


def gen(rng, tier, idx):
    mk = rng.choice(["spot", "spot", "um", "cm"])
    nm = rng.choice([1, 1, 2, 2, 3])
    first = rng.randrange(0, 5 - nm + 1)
    base = rng.choice(["turn", "turn", "micro", "leap", "century"])
    months = [pipe.gen_month(rng, first + i, i, n=rng.choice([1, 2, 3])) for i in range(nm)]
    if nm > 1 and rng.random() < 0.2:
        del months[rng.randrange(nm)]
    runs = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        fault = None
        if rng.random() < 0.45:
            fault = dict(kind=rng.choice(["kill", "kill", "kill", "interrupt", "eio", "enospc", "short"]), at=rng.randrange(rng.choice([10, 30, 60])))
            if rng.random() < 0.4:
                fault["w"] = True
        net = gen_net(rng, nm, fault is None) if rng.random() < 0.85 else []
        runs.append(dict(net=[list(x) for x in net], fault=fault, workers=rng.choice([1, 1, 2, 4]), over=rng.random() < 0.8))
    return dict(dir=rng.choice(DIRS), base=base, mk=mk, alias=rng.randrange(6), sym=rng.choice(["BTCUSDT", "ETHUSDT", "btcusdt", "1000PEPEUSDT", "BTCUSD_PERP", "BTCUSDT_210326"]), a=first, b=first + nm - 1, months=months, runs=runs)


NOTICED = ("refused", "timeout", "500", "503", "429", "403", "cut", "silent")


def valid_plan(p):
    return bool(p["months"]) and all(b["rows"] for b in p["months"])


def cleanup(run):
    s02.cleanup(run)
    pipe.WORLD[0] = None
    shutil.rmtree(os.path.join(run.scratch, "n"), ignore_errors=True)


def contents(run, h5dir, yms, what):
    """ym -> list of the row lists of this month in all the files."""
    out = {ym: [] for ym in yms}
    if not os.path.isdir(h5dir):
        return out
    for f in sorted(os.listdir(h5dir)):
        p = os.path.join(h5dir, f)
        if not f.endswith(".h5"):               # (a file being created)
            continue
        try:
            g = pipe.groups(p, "trades")
        except Exception as e:
            if os.path.getsize(p) == 0:
                continue
            raise core.Violation("unreadable-file", f"{what}: {f}: {str(e)[-300:]}")
        for ym in g:
            r = store.load_key(run, p, ym, what=what)
            out.setdefault(ym, []).append([] if isinstance(r, str) else sorted(r))
    return out


def execute(run):
    pl = run.plan
    root = os.path.join(run.scratch, "n", pl["dir"])
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    run.sig(json.dumps(pl, sort_keys=True))
    base, mk, sym = pl["base"], pl["mk"], pl["sym"].upper()
    names = pipe.BASES[base]
    raw = os.path.join(root, "raw", mk, "trades", sym)
    h5 = os.path.join(root, "h5")
    disk = hdfsim.Disk(run, root)
    ex = pipe.WORLD[0] = pipe.Exchange(run, disk)
    by = {}
    for b in pl["months"]:
        ex.publish(sym, mk, base, b)
        by[names[b["m"]]] = b
    right = {ym: pipe.rows(base, mk, b) for ym, b in by.items()}
    y, m = names[-1].split("-")
    pipe.TODAY[0] = dt.date(int(y) + 1, int(m), 5)
    hist = pl["runs"] + [dict(net=[], fault=None, workers=2, over=True)]
    had = {ym: [] for ym in names}
    with disk:
        for ri, r in enumerate(hist):
            what = f"run {ri} (fault {r['fault']}, transfers {r['net']})"
            run.log("run", ri)
            ex.begin(r["net"])
            al = pipe.ALIAS[mk]
            o = pipe.main(run, disk, ["--market", al[pl["alias"] % len(al)], "--tickers", pl["sym"], "--start", names[pl["a"]], "--end", names[pl["b"]], "--workdir", root, "--workers", r["workers"], "--overwrite-klines", int(r["over"])],
                          sched=dict(max_steps=60000), fault=r["fault"])
            clean = not o.fired and not ex.hit
            run.sig(ri, str(o)[:12], tuple((h[1], h[2]) for h in ex.hit))
            if not clean:
                run.nontrivial = True
            fails = [h[2] for h in ex.hit]
            if not clean and not o.fired and all(h[1] in NOTICED for h in ex.hit) and max(map(fails.count, fails)) <= 2:
                # every transfer that failed was noticed and succeeds at the third attempt at the latest
                clean = True
                run.probe("retried")
            what += f" {o}"
            if o.raised is not None and clean:
                raise core.Violation(f"run-failed:{type(o.raised).__name__}", f"{what}\n{core.tb_tail(o.raised)}")
            now = contents(run, h5, names, what)
            for ym in sorted(now):
                if ym not in right:
                    if any(now[ym]):
                        raise core.Violation("unpublished", f"{what}: {ym} was never published, stored {now[ym]}")
                    continue
                zp = os.path.join(raw, f"{sym}-trades-{ym}.zip")
                run.sub += 1
                verified = ex.pub[(sym, mk, ym)][2] and _digest(zp + ".CHECKSUM") == pipe.digest(ex.pub[(sym, mk, ym)][0])
                for c in now[ym]:
                    if c in had.get(ym, []):
                        continue
                    wrong = [x for x in c if x not in right[ym]]
                    if wrong and verified and not (o.fired and disk.fired_at[0] in ("open-read", "read-file") and disk.fired_at[1].endswith(".CHECKSUM")):
                        raise core.Violation("unverified-import", f"{what}: {ym}: the published checksum is on disk, imported rows {wrong[:3]} are not in the published archive {right[ym][:3]}; transfers {ex.hit}")
                    if not verified and wrong:
                        run.probe("imported-without-checksum")
                    if c and not wrong and len(c) < len(right[ym]) and not o.fired:
                        raise core.Violation("part-imported", f"{what}: {ym}: {len(c)} of {len(right[ym])} rows; transfers {ex.hit}")
            had = now
            if clean:
                pub = sorted(right)
                f = f"{sym}_{pipe.LABEL[mk]}_{pub[0][2:4]}{pub[0][5:]}-{pub[-1][2:4]}{pub[-1][5:]}.h5"
                p = os.path.join(h5, f)
                if not os.path.exists(p):
                    raise core.Violation("no-dataset", f"{what}: {f} is not there, {sorted(os.listdir(h5)) if os.path.isdir(h5) else None}; {o.prints[-4:]}")
                for ym in pub:
                    got = store.load_key(run, p, ym, what=what)
                    run.sub += 1
                    if isinstance(got, str) or sorted(got) != right[ym]:
                        raise core.Violation("not-repaired", f"{what}: {ym} after an undisturbed run: {str(got)[:300]}, published {right[ym][:4]}; printed {o.prints[-12:]}")


def _digest(p):
    import re
    try:
        s = open(p, encoding="utf-8", errors="ignore").read()
    except OSError:
        return None
    m = re.findall(r"\b[a-fA-F0-9]{64}\b", s)
    return m[0].lower() if m else None
