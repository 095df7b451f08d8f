#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and the notes below."""
import json, os, sys, glob, importlib
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(here, "vlib"), os.path.join(here, "vlib", "checks"), os.path.join(here, "bin")]
from notes import NOTES, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
have = {}
for f in sorted(glob.glob(os.path.join(here, "vlib", "checks", "*.py"))):
    m = importlib.import_module(os.path.basename(f)[:-3])
    for k, (fn, level) in getattr(m, "CHECKS", {}).items():
        have[k] = level
checks, na = [], []
for i in ids:
    if i in have:
        t, n = NOTES[i]
        cmd = "timeout -k 5 %d bin/check " + i
        checks.append(dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="VERIF_TIER=thorough bin/check " + i,
                           technique=t, level=have[i], level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks in /repo: drivers link /repo's sources and intercept library calls with the linker's --wrap."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", "missing", [x["property"] for x in na])
