#!/usr/bin/env python3
"""Writes MANIFEST.json from driver/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
import registry as R

ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TECH = ("symbolic execution of the compiled code (LLVM IR): SMT (Z3) decides branches and assertions on symbolic values, "
        "equalities also by exact normal forms; integer choices are forked exhaustively")
# no branch of these depends on a symbolic value
FORKED = ("symbolic execution of the compiled code (LLVM IR): connectivity is checked by exhaustive forking over the integer choices "
          "within the bounds; SMT (Z3) decides the equalities of symbolic positions")
checks, na = [], []
for i in ids:
    if i in R.PROPS:
        p = R.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 driver/check.py %s --tier quick" % i,
                           thorough_cmd="python3 driver/check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=FORKED if i in ("C07", "C10", "C12", "C14") else TECH, level="model_checking",
                           level_note="Bounded: " + p["bounds"] + (". Outside: " + p["outside"] if p.get("outside") else "")))
    else:
        na.append(dict(property=i, reason=R.NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 driver/setup.py", checks=checks, not_applicable=na,
         notes="Harnesses are compiled together with /repo's sources on every run; the instrumented program explores all paths, "
               "Z3 decides branches and assertions on symbolic values, integer choices are forked exhaustively, counterexamples are replayed on an uninstrumented build.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
