"""Writes MANIFEST.json from the check modules that exist."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    "X01": "a pure input-output definition: no schedule, clock, I/O, fault or restart takes part in whether an indicator equals its textbook formula, so a simulator decides nothing about it; it needs a differential oracle per formula (another technique)",
    "X02": "translation agreement of Numba-compiled and interpreted code is a property of the compiler back end, not of an execution with nondeterminism to control; the simulator itself runs the interpreted source",
    "X04": "a pure numeric inference from one array; no schedule, fault or history takes part",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "dst", "checks", p.lower() + ".py")):
        m = importlib.import_module("dst.checks." + p.lower())
        checks.append(dict(property=p, quick_cmd=f"./check {p} --tier quick", thorough_cmd=f"./check {p} --tier thorough",
                           evidence_file=f"evidence/{p}.json", technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.LEVEL_NOTE))
    else:
        na.append(dict(property=p, reason=NA.get(p, "the check for this property is not built yet")))
man = dict(version=1, setup_cmd="./setup.sh",
           hooks=dict(guard="DST_UNUSED", enable="no hooks were needed: every seam is installed from outside (module substitution before import); nothing in /repo is guarded", source_commits=[]),
           checks=checks, not_applicable=na,
           notes="Deterministic simulation with fault injection. ./check <ID> [--tier quick|thorough]; ./check replay FILE; ./check determinism <ID> [N].")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
