#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness")); sys.dont_write_bytecode = True
import registry
NA = {
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    hs = registry.for_property(i, "thorough")
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    if not hs: na.append({"property": i, "reason": "check not built yet"}); continue
    checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
      "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
      "evidence_file": "evidence/%s.json" % i,
      "technique": "bounded symbolic execution of the real C sources with CBMC (SAT/SMT), counterexamples replayed natively under ASan/UBSan",
      "level": "model_checking",
      "level_note": "Every assertion holds for all values within the bounds in the evidence file (%d harness configurations). %s Assumes: %s" %
        (len(hs), registry.NOTES.get(i, ""), "; ".join(registry.assumptions(i)))})
json.dump({"version": 1, "setup_cmd": "python3 bin/check.py --setup", "checks": checks, "not_applicable": na,
  "notes": "No hooks were needed in /repo: harnesses compile the unmodified sources. Fixes are listed in known_findings.txt."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
