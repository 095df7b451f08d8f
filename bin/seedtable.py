#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | property | needs |\n|---|---|---|")
for f in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f))
    print("| %s | %s | %s |" % (f.split("/")[-2], m["property"], m["needs"].replace("|", "/")))
