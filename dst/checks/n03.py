"""N03: histories of pipeline runs over a growing range, disturbed anywhere, ending with an undisturbed run; the dataset files are compared with the published archives."""
import datetime as dt
import json
import os
import shutil

import numpy as np
import pandas as pd

from dst import core, hdfsim, pipe, store
from dst.checks import n01
from dst.checks.k01 import same

RUNS = dict(quick=650, thorough=50000)
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: histories of whole pipeline runs (growing range, several symbols and markets) with crashes, interrupts, disk errors, transfer faults and worker deaths at arbitrary points, then an undisturbed run"
LEVEL_NOTE = ("Seeded search over calendars, published months with holes, range spellings, histories of runs of one to three products and one disturbance per run at any file, HDF5 or network operation; after every run no other product's file has changed and at most the "
              "month being written is incomplete, after an undisturbed run the file named after the published range holds exactly the published trades and their one-second bars")
RULE = "a run counts when at least one run of the script was disturbed and a later one ran to its end and was compared; distinct by history and fault outcomes"
MEASURE = "distinct (products, calendar, history, fault kinds and points hit)"
REAL = ["scripts/binance2h5.py main() (interpreted source as in the tree)", "TradesData.save_h5/load_trades_h5, AddTimeBarH5, TimeBarReader, TimeBarKit", "zipfile, pandas, PyTables, HDF5 library on scratch files"]
STUB = ["requests (simulated exchange and network)", "tqdm", "calendar", "process pool, multiprocessing queue, threads (simulated tasks)", "Numba's compiler", "process death (files are put back to the bytes the operating system had)"]
ASSUMPTIONS = ["all runs of a product use the same start and never an earlier end", "the machine does not lose power", "one run at a time", "an archive does not change once published", "every run asks for overwriting of klines, or no run was disturbed before"]
SHRINK_LISTS = ("rows", "months", "runs", "net", "products", "deaths", "nofork", "who")
SHRINK_MIN = {"rows": 1, "products": 1, "who": 1}
NET = ["refused", "timeout", "500", "503", "cut", "silent", "404"]


def setup(scratch):
    pipe.install()


def gen(rng, tier, idx):
    base = rng.choice(["turn", "turn", "micro", "leap", "century"])
    products, tag = [], 0
    names = rng.sample(["BTCUSDT", "ETHUSDT", "BTCUSD_PERP", "BTCUSD", "USDT", "BTCUSDT_210326"], 3)
    a = rng.choice([0, 0, 1])
    for i in range(rng.choice([1, 1, 2, 3])):
        sym = names[0] if rng.random() < 0.6 else names[i]
        mk = rng.choice(["spot", "um", "cm"])
        if (sym, mk) in [(p["sym"], p["mk"]) for p in products]:
            continue
        ms = [m for m in range(a if rng.random() < 0.8 else rng.randrange(a, 4), 5) if rng.random() < 0.9] or [a]
        months = []
        for m in ms:
            months.append(pipe.gen_month(rng, m, tag, n=rng.choice([1, 2, 3])))
            tag += 1
        products.append(dict(sym=sym, mk=mk, months=months))
    runs = []
    t = rng.choice([1, 2, 3]) + a
    end = t
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        fault = None
        x = rng.random()
        if x < 0.55:
            fault = dict(kind=rng.choice(["kill", "kill", "kill", "kill", "interrupt", "eio", "memory", "h5err", "enospc", "short"]), at=rng.randrange(rng.choice([20, 60, 150, 300])))
            if rng.random() < 0.5:
                fault["w"] = True
        net = [[rng.randrange(10), rng.choice(NET)] for _ in range(rng.choice([1, 2, 3]))] if rng.random() < 0.25 else []
        if net and rng.random() < 0.5:
            i, k = net[0]
            net = [[i + j, k] for j in range(3)]
        workers = rng.choice([1, 2, 4])
        runs.append(dict(who=sorted(set(rng.randrange(len(products)) for _ in range(rng.choice([1, 1, 2])))), today=t, end=rng.choice(["now", end, end, t - 1]), net=net, fault=fault, workers=workers, over=rng.random() < 0.85,
                         deaths=[[rng.randrange(4), rng.randrange(20)]] if rng.random() < 0.1 else [], nofork=[rng.randrange(workers)] if rng.random() < 0.04 else [], sp=rng.randrange(4)))
        t = min(t + rng.choice([0, 0, 1, 1, 2]), 6)
        end = min(max(end, rng.choice([t, t - 1])), 4)
    return dict(dir=rng.choice(n01.DIRS), base=base, products=products, a=a, runs=runs, today=t)


def valid_plan(p):
    return all(q["months"] and all(b["rows"] for b in q["months"]) for q in p["products"]) and all(i < len(p["products"]) for r in p["runs"] for i in r["who"])


def cleanup(run):
    n01.cleanup(run)


def spell(ym, how):
    y, m = ym.split("-")
    return [ym, f"{y}{m}", f"{y}/{int(m)}", f"{y}.{m}"][how]


def order(df):
    """By time; bars of one second that two months share in a fixed order."""
    return df.iloc[np.lexsort((df["volume"].values, df["close"].values, df["open"].values, df.index.values))]


class Product:
    def __init__(self, base, q):
        self.sym, self.mk, self.base = q["sym"], q["mk"], base
        self.by = {pipe.BASES[base][b["m"]]: b for b in q["months"]}
        self.right = {ym: pipe.rows(base, self.mk, b) for ym, b in self.by.items()}
        self.prefix = f"{self.sym}_{pipe.LABEL[self.mk]}_"
        self.ref = {}
        self.had = {}                       # month -> complete somewhere after the last run
        self.clean = True                   # no run was disturbed so far

    def name(self, months):
        return self.prefix + f"{months[0][2:4]}{months[0][5:]}-{months[-1][2:4]}{months[-1][5:]}.h5"


def execute(run):
    from finmlkit.bar.io import TimeBarReader
    pl = run.plan
    root = os.path.join(run.scratch, "n", pl["dir"])
    shutil.rmtree(root, ignore_errors=True)
    h5 = os.path.join(root, "h5")
    os.makedirs(h5)
    run.sig(json.dumps(pl, sort_keys=True))
    base = pl["base"]
    names = pipe.BASES[base]
    cal = list(names)
    while len(cal) < 8:
        cal.append((pd.Timestamp(cal[-1] + "-01") + pd.DateOffset(months=1)).strftime("%Y-%m"))
    disk = hdfsim.Disk(run, root)
    ex = pipe.WORLD[0] = pipe.Exchange(run, disk)
    prods = [Product(base, q) for q in pl["products"]]
    decoys = {}
    for p in prods:
        m = min(p.by)
        lab, yy = pipe.LABEL[p.mk], m[2:4] + m[5:]
        for n in (f"X{p.prefix}{yy}-{yy}.h5", f"{p.sym}X_{lab}_{yy}-{yy}.h5", f"{p.sym}_OTHER_{yy}-{yy}.h5", f"{p.sym}_201225_{lab}_{yy}-{yy}.h5", f"{p.sym}_{[x for x in pipe.LABEL.values() if x != lab][0]}_{yy}-{yy}.h5", f"{p.prefix}notes.txt"):
            if not any(n.startswith(q.prefix) and n.endswith(".h5") for q in prods):
                decoys[n] = f"decoy {n}".encode()
    for n, c in decoys.items():
        with open(os.path.join(h5, n), "wb") as f:
            f.write(c)
    hist = pl["runs"] + [dict(who=[i], today=pl["today"], end="now", net=[], fault=None, workers=2, over=True, deaths=[], nofork=[], sp=0) for i in range(len(prods))]
    disturbed_once = False

    def files(p):
        return {f: os.path.join(h5, f) for f in sorted(os.listdir(h5)) if f.startswith(p.prefix) and f.endswith(".h5") and f not in decoys}

    def raw_bytes(f):
        fd = open(f, "rb")
        b = fd.read()
        fd.close()
        return b

    with disk:
        for ri, r in enumerate(hist):
            mk = prods[r["who"][0]].mk
            who = [prods[i] for i in r["who"] if prods[i].mk == mk]
            pipe.TODAY[0] = dt.date(int(cal[r["today"]][:4]), int(cal[r["today"]][5:]), 9)
            ex.pub.clear()
            for p in prods:
                for ym, b in p.by.items():
                    if ym < cal[r["today"]]:
                        ex.publish(p.sym, p.mk, base, b)
            end = cal[r["today"]] if r["end"] == "now" else cal[max(r["end"], pl["a"])]
            what = f"run {ri} ({[p.prefix for p in who]} {names[pl['a']]}..{end}, today {cal[r['today']]}, fault {r['fault']}, transfers {r['net']}, deaths {r['deaths']}, nofork {r['nofork']})"
            run.log("run", ri)
            ex.begin(r["net"])
            had = {p.prefix: sorted(files(p)) for p in who}
            before = {k: len(v) for k, v in had.items()}
            others = {f: raw_bytes(x) for p in prods if p not in who for f, x in files(p).items()}
            f0 = run.faults["worker-death"] + run.faults["fork-failure"]
            al = pipe.ALIAS[mk]
            args = ["--market", al[ri % len(al)], "--tickers"] + [p.sym if r["sp"] % 2 else p.sym.lower() for p in who] + ["--start", spell(names[pl["a"]], r["sp"]), "--workdir", root, "--workers", r["workers"], "--overwrite-klines", int(r["over"])]
            if not (r["end"] == "now" and r["sp"] == 0):
                args += ["--end", "now" if r["end"] == "now" else spell(end, r["sp"])]
            o = pipe.main(run, disk, args, sched=dict(deaths=r["deaths"], nofork=r["nofork"], max_steps=100000), fault=r["fault"])
            dead = run.faults["worker-death"] + run.faults["fork-failure"] > f0
            clean = not o.fired and not ex.hit and not dead
            what += f": {o}"
            run.sig(ri, str(o)[:12], clean)
            for n, c in decoys.items():
                run.sub += 1
                x = os.path.join(h5, n)
                if not os.path.exists(x) or raw_bytes(x) != c:
                    raise core.Violation("other-file", f"{what}: {n}, a file of something else, has changed")
            for f, c in others.items():
                run.sub += 1
                x = os.path.join(h5, f)
                if not os.path.exists(x) or raw_bytes(x) != c:
                    raise core.Violation("other-file", f"{what}: {f} of another product has changed")
            if o.raised is not None and clean:
                # nothing disturbed this run
                raise core.Violation(f"run-failed:{type(o.raised).__name__}", f"{what}\n{core.tb_tail(o.raised)}\nprinted {o.prints[-8:]}")
            for p in who:
                best = {}
                for f, x in files(p).items():
                    try:
                        g = pipe.groups(x, "trades")
                    except Exception as e:
                        raise core.Violation("unreadable-file", f"{what}: {f}: {str(e)[-300:]}")
                    for ym in g:
                        got = store.load_key(run, x, ym, what=f"{what}: {f}")
                        run.sub += 1
                        got = [] if isinstance(got, str) else sorted(got)
                        if ym not in p.right or any(y not in p.right[ym] for y in got) or len(got) > len(p.right[ym]):
                            raise core.Violation("foreign-trades", f"{what}: {f} {ym}: {got[:4]}, published {p.right.get(ym, [])[:4]}")
                        best[ym] = best.get(ym, False) or got == p.right[ym]
                lost = [ym for ym, ok in p.had.items() if ok and not best.get(ym)]
                if lost and (clean or before[p.prefix] <= 1) and (len(lost) > 1 or clean) and not (o.fired and o.kind in ("enospc", "short")):
                    raise core.Violation("months-lost", f"{what}: {lost} were stored completely before, now {best}; printed {o.prints[-6:]}")
                p.had = best
                if not clean:
                    p.clean = False
                    disturbed_once = True
                    continue
                pub = sorted(ym for ym in p.right if names[pl["a"]] <= ym <= end and ym < cal[r["today"]])
                if not pub:
                    continue
                f = p.name(pub)
                x = os.path.join(h5, f)
                if not os.path.exists(x):
                    raise core.Violation("no-dataset", f"{what}: {f} is not there: {sorted(files(p))}; printed {o.prints[-6:]}")
                stem = f[:-8]
                old = [n for n in had[p.prefix] if n.startswith(stem)]
                if len(old) == 1 and old[0] < f:
                    run.sub += 1
                    run.probe("extended")
                    if os.path.exists(os.path.join(h5, old[0])):
                        raise core.Violation("two-datasets", f"{what}: the range grew, but {old[0]} is still there next to {f}")
                if disturbed_once:
                    run.nontrivial = True
                for top in ("trades", "klines"):
                    g = pipe.groups(x, top)
                    run.sub += 1
                    if g != pub:
                        raise core.Violation(top + "-months", f"{what}: {f} has {top} of {g}, published {pub}; printed {o.prints[-10:]}")
                for ym in pub:
                    got = store.load_key(run, x, ym, what=f"{what}: {f}")
                    run.sub += 1
                    if isinstance(got, str) or sorted(got) != p.right[ym]:
                        raise core.Violation("trades", f"{what}: {f} {ym}: {str(got)[:300]}, published {p.right[ym][:5]}")
                if not (r["over"] or p.clean):
                    continue
                for ym in pub:
                    if ym not in p.ref:
                        p.ref[ym] = pipe.reference(base, p.mk, p.by[ym])
                exp = pd.concat([p.ref[ym] for ym in pub])
                got = run.call(f"{what}: read", TimeBarReader(x).read)
                run.sub += 1
                if not same(order(got), order(exp)):
                    raise core.Violation("klines", f"{what}: {f}: klines\n{got.head(6).to_string()}\nthe published trades make\n{exp.head(6).to_string()}")
