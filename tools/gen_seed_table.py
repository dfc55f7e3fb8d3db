#!/usr/bin/env python3
"""Prints section 6 of DESIGN.md (planted bugs) from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | needs | breaks | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    f = lambda s: s.replace("|", "\\|").replace("\n", " ")
    print("| %s | %s | %s | %s |" % (d, f(m["needs"]), f(m["what_it_breaks"]), m["property"]))
