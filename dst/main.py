"""check PROP [--tier quick|thorough]      decide one property
   check replay FILE                       re-execute a replay file (exit 1 if the violation reproduces)
   check determinism PROP [N]              run N seeds twice in different processes / hash seeds / worker counts, diff event digests
"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import core

PY = "/opt/venv/bin/python"
VERIF = core.VERIF


def child_env(shard, extra=None):
    e = dict(os.environ)
    e.update(NUMBA_DISABLE_JIT="1", PYTHONDONTWRITEBYTECODE="1", TQDM_DISABLE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             MKL_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1", BLOSC_NTHREADS="1", PYTHONPATH=VERIF + os.pathsep + core.REPO,
             PYTHONHASHSEED=str(e.get("DST_HASHSEED", shard)), TZ="UTC", LC_ALL="C.UTF-8", PYTHONWARNINGS="ignore")
    for k in list(e):
        if k.startswith("FMK_"):
            del e[k]
    e["LOGLEVEL"] = "INFO"
    if extra:
        e.update(extra)
    return e


def load_known(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                parts = line.split(" ", 3)
                kv = dict(x.split("=", 1) for x in parts[1:3])
                if kv.get("property") == prop:
                    out[kv["sig"]] = parts[3] if len(parts) > 3 else ""
    return out


def run_shards(prop, tier, seed, nshards, deadline, base, env_extra=None, hashseed=None):
    procs = []
    for sh in range(nshards):
        scratch = os.path.join(base, f"w{sh}")
        os.makedirs(scratch, exist_ok=True)
        out = os.path.join(base, f"out{sh}.json")
        extra = dict(env_extra or {})
        if hashseed is not None:
            extra["PYTHONHASHSEED"] = str(hashseed)
        err = open(os.path.join(base, f"err{sh}.txt"), "w")
        procs.append((sh, out, subprocess.Popen([PY, "-m", "dst.worker", prop, tier, str(seed), str(sh), str(nshards), str(deadline), out, scratch],
                                                cwd=VERIF, env=child_env(sh, extra), stdout=err, stderr=err)))
    results, errors = [], []
    kill_at = time.monotonic() + deadline + 240
    for sh, out, pr in procs:
        try:
            pr.wait(timeout=max(1.0, kill_at - time.monotonic()))
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.wait()
            errors.append(f"shard {sh} exceeded its wall limit and was stopped")
            continue
        if os.path.exists(out):
            results.append(json.load(open(out)))
        else:
            tail = open(os.path.join(base, f"err{sh}.txt")).read()[-3000:]
            errors.append(f"shard {sh} ended with {pr.returncode}: {tail}")
    return results, errors


def replay_file(path, quiet=False):
    d = json.load(open(path))
    mod = importlib.import_module(f"dst.checks.{d['property'].lower()}")
    base = tempfile.mkdtemp(prefix="dst-replay-")
    try:
        mod.setup(base)
        run, v = core.execute(mod, d["plan"], 0, d["choices"], base, keep_trace=True)
        same = v is not None and v.kind == d["kind"]
        if not quiet:
            for t in (run.trace or [])[-60:]:
                print("  ", t)
            print("faults:", dict(run.faults))
            print("observed:", v)
        return same, (v.kind if v else None), run.digest()
    finally:
        shutil.rmtree(base, ignore_errors=True)


def cross_replay(path, d):
    """A result that differs between processes: run the plan under both hash seeds."""
    out = []
    for hs in (d["hashseed"], d["other_hashseed"]):
        r = subprocess.run([PY, "-m", "dst.main", "digest", path], cwd=VERIF, env=child_env(0, dict(PYTHONHASHSEED=str(hs))), capture_output=True, text=True)
        out.append(r.stdout.strip())
    print("digests under the two hash seeds:", out)
    return len(set(out)) > 1


def check(prop, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print(f"seed={seed} property={prop} tier={tier}", flush=True)
    mod_doc = {}
    base = tempfile.mkdtemp(prefix=f"dst-{prop}-")
    try:
        ncpu = os.cpu_count() or 4
        nshards = int(os.environ.get("DST_SHARDS", str(min(8, max(2, ncpu)))))
        deadline = float(os.environ.get("DST_DEADLINE", "240" if tier == "quick" else "3300"))
        known = load_known(prop)
        results, errors = run_shards(prop, tier, seed, nshards, deadline, base, {"DST_KNOWN": json.dumps(sorted(known))})
        meta = json.loads(subprocess.run([PY, "-m", "dst.main", "meta", prop], cwd=VERIF, env=child_env(0), capture_output=True, text=True).stdout.strip().splitlines()[-1])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    wall = time.monotonic() - t0
    harness = [r["harness"] for r in results if r["harness"]]
    vios = sorted((r["violation"] for r in results if r["violation"]), key=lambda v: v["index"])
    done = sum(r["done"] for r in results)
    sigs = set()
    for r in results:
        sigs.update(r["sigs"])
    faults, probes, kn = {}, {}, {}
    for r in results:
        for src, dst in ((r["faults"], faults), (r["probes"], probes), (r["known"], kn)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
    cross, ncross = {}, 0
    for r in results:
        for idx, (dg, s_, plan_, ch_, _k) in r.get("cross", {}).items():
            ncross += 1
            o = cross.setdefault(idx, (dg, r["hashseed"], s_, plan_, ch_))
            if o[0] != dg and not vios:
                vios.append(dict(kind="differs-between-processes", index=int(idx), seed=o[2], hashseed=o[1], other_hashseed=r["hashseed"], plan=o[3], choices=o[4], tries=0, faults={}, trace=[],
                                 detail=f"the same run under hash seeds {o[1]} and {r['hashseed']} gave different results (topological order, columns or values)",
                                 original_plan=o[3], original_choices=o[4]))
    sim_s = sum(r["sim_ns"] for r in results) / 1e9
    samples = [s for r in results for s in r["samples"]][:4]
    busy = max((r.get("wall", wall) for r in results), default=wall)
    cov = dict(evaluations=done, distinct_nontrivial=len(sigs), rule=meta["rule"], samples=json.loads(json.dumps(samples)),
               planned_runs=sum(r["planned"] for r in results), runs_per_hour=round(done / max(busy, 1e-3) * 3600),
               comparisons=sum(r["sub"] for r in results), runs_compared_across_processes=ncross, logged_events=sum(r["steps"] for r in results),
               simulated_time_s=round(sim_s, 3), faults_fired=dict(sorted(faults.items())), probes=dict(sorted(probes.items())),
               distinct_measure=meta["measure"], real_components=meta["real"], stub_components=meta["stub"], shards=nshards,
               wall_capped=any(r["capped"] for r in results), known_findings_seen=kn)
    ev = dict(property=prop, tier=tier, seed=seed, level=meta["level"], coverage=cov, assumptions=meta["assumptions"], wall_s=round(wall, 2), violations=len(vios))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json.tmp"), "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(os.path.join(VERIF, "evidence", prop + ".json.tmp"), os.path.join(VERIF, "evidence", prop + ".json"))
    for sig, what in known.items():
        print(f"KNOWN-FINDING: property={prop} {sig} {what}")
    if vios:
        v = vios[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop}-{v['seed']}.json")
        d = dict(property=prop, kind=v["kind"], other_hashseed=v.get("other_hashseed"), hashseed=v["hashseed"], seed=v["seed"], index=v["index"], verif_seed=seed, plan=v["plan"], choices=v["choices"], detail=v["detail"],
                 faults=v["faults"], trace=v["trace"])

        def confirm():
            with open(path, "w") as f:
                json.dump(d, f, indent=1)
            r = subprocess.run([PY, "-m", "dst.main", "replay", path], cwd=VERIF, env=child_env(0), capture_output=True, text=True)
            return r.returncode == 1
        ok = confirm()
        if not ok:      # keep the unminimised schedule instead
            d["plan"], d["choices"] = v["original_plan"], v["original_choices"]
            ok = confirm()
        print(f"violation class: {v['kind']}\n{v['detail'][:1500]}")
        print(f"minimised with {v['tries']} trials; fresh-process replay {'reproduces it' if ok else 'DID NOT REPRODUCE'}; faults in it: {v['faults']}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    if harness or errors:
        for h in harness + errors:
            print("HARNESS ERROR:", h, file=sys.stderr)
        return 2
    if done == 0:
        print("HARNESS ERROR: nothing was run", file=sys.stderr)
        return 2
    print(f"held on {done} runs ({len(sigs)} distinct non-trivial), {cov['comparisons']} comparisons, faults fired: {faults}, probes: {probes}, {wall:.1f} s, {cov['runs_per_hour']} runs/h")
    return 0


def determinism(prop, n):
    """The same seeds in different processes, worker counts and hash seeds must give identical event digests."""
    seen, bad = {}, 0
    for nsh, hs in ((8, None), (3, 77), (5, 4242)):
        base = tempfile.mkdtemp(prefix="dst-det-")
        try:
            results, errors = run_shards(prop, "quick", 12345, nsh, 600, base, {"DST_DIGESTS": "1", "DST_LIMIT": str(n)}, hashseed=hs)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        for e in errors + [r["harness"] for r in results if r["harness"]]:
            print("error", e)
            bad += 1
        for r in results:
            for idx, dg in r["digests"]:
                if seen.setdefault(idx, dg) != dg:
                    bad += 1
                    print("DIVERGED", prop, idx, seen[idx], dg)
    print(f"determinism {prop}: {len(seen)} seeds x 3 configurations, {bad} divergences")
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a[0] == "meta":
        mod = importlib.import_module(f"dst.checks.{a[1].lower()}")
        print(json.dumps(dict(rule=mod.RULE, measure=mod.MEASURE, real=mod.REAL, stub=mod.STUB, level=mod.LEVEL, assumptions=mod.ASSUMPTIONS)))
        return 0
    if a[0] == "digest":
        d = json.load(open(a[1]))
        mod = importlib.import_module(f"dst.checks.{d['property'].lower()}")
        base = tempfile.mkdtemp(prefix="dst-replay-")
        try:
            mod.setup(base)
            run, v = core.execute(mod, d["plan"], 0, d["choices"], base)
            print(run.digest(), v.kind if v else None)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        return 0
    if a[0] == "replay" and json.load(open(a[1])).get("other_hashseed") is not None:
        return 1 if cross_replay(a[1], json.load(open(a[1]))) else 0
    if a[0] == "replay":
        if os.environ.get("DST_REPLAYING") != "1":
            hs = str(json.load(open(a[1])).get("hashseed", "0"))
            return subprocess.run([PY, "-m", "dst.main", *a], cwd=VERIF, env=child_env(0, dict(PYTHONHASHSEED=hs, DST_REPLAYING="1"))).returncode
        same, kind, dg = replay_file(a[1])
        print("reproduced" if same else f"not reproduced (saw {kind})", dg)
        return 1 if same else 0
    if a[0] == "determinism":
        return determinism(a[1], int(a[2]) if len(a) > 2 else 100)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
