#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props

TECH = "symbolic execution of the PyX functions (Python source instrumented at import) with SMT (z3, cvc5) verdict per obligation; counterexamples replayed on the real code"
lines, checks, na = [], [], []
for p in props.PROPS:
    rec = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
    lines.append(json.dumps(rec))
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    cmd = p.get("cmd", "python3-vt pysym/runner.py " + p["id"])
    checks.append({"property": p["id"], "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p.get("technique", TECH), "level": "model_checking",
                   "level_note": p["note"]})
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "python3-vt pysym/runner.py --selftest", "checks": checks, "not_applicable": na, "notes": props.NOTES}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
