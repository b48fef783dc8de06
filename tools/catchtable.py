#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | property = check that catches it | needs |\n|---|---|---|")
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    print("| `%s` | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"].replace("|", "/")))
