#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
checks, na = [], []
for i in ids:
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if not os.path.exists("%s/pbt/%s.py" % (V, i.lower())):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    c = importlib.import_module("pbt." + i.lower()).CHECK
    checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                   "technique": c.technique or "property-based testing with generated inputs against a reference model",
                   "level": "exploration",
                   "level_note": c.note or ("Generated-input search: no violation among the cases counted in the evidence file. " +
                                            ("Assumes: " + "; ".join(c.assumptions) + "." if c.assumptions else ""))})
m = {"version": 1, "setup_cmd": "python3 -B harness/build.py driver oom tsan dumpsubs fuzz locales", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives public interfaces, built from /repo's working tree with sanitizers. "
              "Defects found and repaired are listed in known_findings.txt."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
