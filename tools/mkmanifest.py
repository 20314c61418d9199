#!/usr/bin/env python3
"""Writes MANIFEST.json from plans.PLANS and properties.jsonl (run: python3 tools/mkmanifest.py)."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(ROOT, "run"))
import plans
LINE = ("explicit TLA+ specification of the transmission line (state, edits, cascades): TLC enumerates every reachable "
        "line of a small universe and every edit from it, and walks larger universes at random; each history is executed "
        "on the real code and the recorded trace is checked against the specification by TLC")
OBJ = ("explicit TLA+ specification of the object (current inputs -> results) over IEEE doubles: TLC enumerates every "
       "question/input-change/question combination and walks the specification at random; each history is executed on the "
       "real code and the recorded trace is checked against the specification by TLC")
BASE = ("explicit TLA+ specification of the value types and helpers: TLC walks the specification at random, the calls are "
        "executed on the real code, and TLC checks the recorded trace against the specification")
NOTE = ("Exhaustive over the enumerated combinations and bounded elsewhere: holds for the histories explored (counts in the "
        "evidence file). Trusts TLC, the R64 Java overrides for double arithmetic, the harness adaptors, g++ with ASan/UBSan.")
TECH = {**{c: LINE for c in ("C01", "C02", "C03", "C04", "C05")}, **{c: BASE for c in ("C12", "C13", "C15")}}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        checks.append(dict(property=i, quick_cmd="python3 run/check.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 run/check.py " + i,
                           technique=TECH.get(i, OBJ), level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="No specification built yet for this part of the library."))
m = dict(version=1, setup_cmd="python3 run/check.py --setup",
         hooks=dict(guard="OTLS_VERIF_HOOKS", enable="No hooks are needed: every check observes the public API only; the guard is reserved and unused.", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
