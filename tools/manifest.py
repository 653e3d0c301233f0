#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/areas.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from areas import CHECKS
props = [json.loads(l) for l in open(os.path.join(here, "../properties.jsonl"))]
checks, na = [], []
sys.path.insert(0, os.path.join(here, ".."))
from check import fuzz_tests
fuzzed = {i for i, c in CHECKS.items() if any(fuzz_tests(a, i)[1] for a, _ in c["runs"])}
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append(dict(property=i, reason="no check built yet"))
        continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i,
                       thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                       evidence_file="evidence/%s.json" % i,
                       technique=c.get("technique", "property-based testing with rapid: generated histories against a reference model, with shrinking")
                       + ("; thorough tier also coverage-guided fuzzing of the same properties" if i in fuzzed else ""),
                       level="exploration",
                       level_note=c.get("note", "generated-input search over the real code, no exhaustiveness claimed")))
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na),
          open(os.path.join(here, "../MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "../MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "without")
