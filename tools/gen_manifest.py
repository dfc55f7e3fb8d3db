#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from props import PROPS, TECH
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, "runtime monitoring: seeded workloads, dense-algebra oracle, ASan/UBSan build and release build"),
            "level": "exploration",
            "level_note": PROPS[i].get("note", "Real code run on seeded random workloads (two builds: sanitizers with assertions, and optimised without); every result compared with an independent oracle. Absence of violations holds for the executions observed only. Trusts the harness oracle, the compiler and the sanitizer runtimes.")})
    else: na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: every monitor works through the public interface and the public tables of the package. check.py compiles the harness of the property against /repo/include at every run. Exit 2 means no answer (build or harness failure)."},
  open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
