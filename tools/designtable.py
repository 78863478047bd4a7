#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (each is caught by its property's quick check: tools/seedrun.py)."""
import json, glob, os
print("| planted bug | caught by | needs |\n|---|---|---|")
for d in sorted(glob.glob(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/seeded/*/meta.json")):
    m = json.load(open(d))
    print("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"]))
