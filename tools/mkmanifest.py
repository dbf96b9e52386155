#!/usr/bin/env python3
"""writes MANIFEST.json: a check for every property that has one"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import parsechecks
try:
    import compilechecks
    comp = compilechecks.P
except ImportError:
    comp = {}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in parsechecks.P:
        t = "TLA+ specification of lexer, parser and generator, enumerated by TLC; every behaviour replayed into the real parser and outcomes compared; recorded outcomes of mutated real files validated against the specification"
        n = ("The specification runs on every enumerated text; the real parser has to give the specified outcome on each. Exhaustive within the "
             "families, palettes and control graph named in the evidence file; random behaviours beyond. Trusts TLC, the harness dump and the reading of the grammar in the specification.")
    elif p in comp:
        t, n = comp[p].technique, comp[p].note
    else:
        na.append({"property": p, "reason": "no check built yet"})
        continue
    checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + p,
                   "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                   "technique": t, "level": "model_checking", "level_note": n})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks use the public interface only. Exit 2 means the check could not run."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
