#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, glob, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
print("| bug | caught by | what it breaks |\n|---|---|---|")
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    w = " ".join(m["what_it_breaks"].split()).replace("|", "/")
    print("| %s | %s | %s |" % (os.path.basename(d), m["property"], w if len(w) < 150 else w[:147] + "..."))
