"""Make or re-verify planted bugs.  plant.py ID [ID...]: with an edit file /tmp/seed/edits/ID.py (EDITS = [(file, old, new)]) the patch is made
anew; then demo on the clean copy, demo and stable tests on the patched copy are run, in private copies of /repo mounted over it."""
import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

SEED = "/verif/seeded"


def sh(cmd, **k):
    return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, **k)


def ns(copy, rep, cmd):
    return sh(f"unshare -Urm bash -c 'mount --bind {copy} /repo && mount --bind {rep} /opt/vp/reports && cd /repo && {cmd}'")


def one(id):
    d, w = f"{SEED}/{id}", f"/tmp/seed/work-{id}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + "/rep")
    sh(f"cp -a /repo {w}/repo")
    e = f"/tmp/seed/edits/{id}.py"
    if os.path.exists(e):
        for f, old, new in runpy.run_path(e)["EDITS"]:
            p = f"{w}/repo/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return id, f"{f}: {s.count(old)} matches of {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"cd {w}/repo && git diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        sh(f"cd {w}/repo && git checkout -- .")
    demo = f"{w}/demo"
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r0 = ns(f"{w}/repo", f"{w}/rep", f"timeout 300 bash {demo}/demo.sh")
    a = sh(f"cd {w}/repo && git apply {d}/patch.diff")
    r1 = ns(f"{w}/repo", f"{w}/rep", f"timeout 300 bash {demo}/demo.sh")
    t = ns(f"{w}/repo", f"{w}/rep", f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {w}/out.json")
    last = (t.stdout.strip().splitlines() or ["?"])[-1]
    ok = a.returncode == 0 and r0.returncode == 0 and r1.returncode not in (0, 124) and "662 passed, 0 failed" in t.stdout
    res = f"{'OK' if ok else 'BAD'} apply={a.returncode} clean={r0.returncode} bug={r1.returncode} tests={last}"
    if not ok:
        res += "\n" + (r0.stderr[-700:] if r0.returncode else "") + a.stderr[-300:] + (r1.stdout + r1.stderr)[-400:] + (t.stdout[-1200:] if "0 failed" not in t.stdout else "")
    shutil.rmtree(w, ignore_errors=True)
    return id, res


with ThreadPoolExecutor(3) as ex:
    for id, r in ex.map(one, sys.argv[1:]):
        print(id, r, flush=True)
