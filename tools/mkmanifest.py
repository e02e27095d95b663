#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check is claimed."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(here, "lib"), os.path.join(here, "checks")]
import importlib
import technique
have = {}
for g in ["ax25", "borip", "server", "kernels", "filters", "spectral", "numeric", "together"]:
    if os.path.exists(os.path.join(here, "checks", g + ".py")):
        have.update(importlib.import_module(g).CHECKS)
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in have:
        t, n = technique.NOTES[i]
        checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
               notes="TLA+ specifications in spec/ checked with TLC and bound to the code by trace validation; no hooks in /repo "
                     "(harness drivers enter the build through go's -overlay). VERIF_SEED selects the random inputs. "
                     "Repaired defects: known_findings.txt."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
