"""One shard of a check: python -m dst.worker PROP TIER SEED SHARD NSHARDS DEADLINE_S OUT SCRATCH"""
import importlib
import json
import os
import sys
import time
import traceback


def main():
    prop, tier, seed, shard, nshards, deadline, out, scratch = sys.argv[1:9]
    seed, shard, nshards, deadline = int(seed), int(shard), int(nshards), float(deadline)
    t0 = time.monotonic()
    from dst import core
    mod = importlib.import_module(f"dst.checks.{prop.lower()}")
    mod.setup(scratch)
    total = min(mod.RUNS[tier], int(os.environ.get("DST_LIMIT", "1000000000")))
    known = set(json.loads(os.environ.get("DST_KNOWN", "[]")))
    res = dict(shard=shard, done=0, planned=0, sub=0, faults={}, probes={}, sim_ns=0, steps=0, sigs=[], nontrivial=0, samples=[], violation=None,
               harness=None, digests=[], known={}, hashseed=os.environ.get('PYTHONHASHSEED', '0'), setup_s=0.0, capped=False)
    res["setup_s"] = time.monotonic() - t0
    sigs = set()
    want_digests = os.environ.get("DST_DIGESTS")
    try:
        for idx in range(shard, total, nshards):
            res["planned"] += 1
            if time.monotonic() - t0 > deadline:
                res["capped"] = True
                continue
            s = core.derive(seed, prop, idx)
            import random
            plan = mod.gen(random.Random(s), tier, idx)
            run, vio = core.execute(mod, plan, s, None, scratch)
            res["done"] += 1
            res["sub"] += run.sub
            for k, v in run.faults.items():
                res["faults"][k] = res["faults"].get(k, 0) + v
            for k, v in run.probes.items():
                res["probes"][k] = res["probes"].get(k, 0) + v
            res["sim_ns"] += run.sim_ns
            res["steps"] += run.steps
            if run.nontrivial:
                sigs.add(run.signature())
            if want_digests:
                res["digests"].append((idx, run.digest()))
            if len(res["samples"]) < 2:
                res["samples"].append(dict(index=idx, seed=s, plan=plan, choices=len(run.choices), faults=dict(run.faults),
                                           outcome="held" if vio is None else vio.kind))
            if vio is not None:
                if vio.kind in known:
                    res["known"][vio.kind] = res["known"].get(vio.kind, 0) + 1
                    continue
                p, c, tries = core.minimise(mod, plan, run.choices, vio.kind, scratch)
                rp, cp = plan, run.choices
                r2, v2 = core.execute(mod, p, 0, c, scratch, keep_trace=True)
                if v2 is None or v2.kind != vio.kind:
                    p, c, v2 = rp, cp, vio
                    r2 = run
                res["violation"] = dict(hashseed=os.environ.get("PYTHONHASHSEED", "0"), index=idx, seed=s, kind=v2.kind, detail=v2.detail[:4000], plan=p, choices=c, tries=tries,
                                        faults=dict(r2.faults), trace=(r2.trace or [])[-60:], original_plan=rp, original_choices=cp)
                break
    except core.HarnessError as e:
        res["harness"] = str(e)[:4000]
    except BaseException as e:
        res["harness"] = "".join(traceback.format_exception(e))[-4000:]
    res["cross"] = {}
    if res["violation"] is None and res["harness"] is None:
        # runs executed by every shard, each under its own hash seed: the digests must agree
        for idx in range(min(getattr(mod, "CROSS", 0), total)):
            if time.monotonic() - t0 > deadline:
                break
            s = core.derive(seed, prop, "cross", idx)
            import random
            plan = mod.gen(random.Random(s), tier, idx)
            run, vio = core.execute(mod, plan, s, None, scratch)
            res["cross"][idx] = [run.digest(), s, plan, run.choices, vio.kind if vio else None]
    res["sigs"] = sorted(sigs)
    res["wall"] = time.monotonic() - t0
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
