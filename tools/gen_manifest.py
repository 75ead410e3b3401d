#!/usr/bin/env python3
"""MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "monitor not built yet"})
        continue
    if c.get("na"):
        na.append({"property": p["id"], "reason": c["na"]})
        continue
    cmd = "python3 check.py %s" % p["id"]
    checks.append({
        "property": p["id"], "quick_cmd": "VERIF_TIER=quick " + cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c.get("technique", "runtime monitoring: oracle over randomised executions of the real code under AddressSanitizer/UBSan"),
        "level": "exploration",
        "level_note": c.get("note", "Held on the generated executions counted in the evidence file; a violation outside the generated configurations, or below the stated tolerances, is not excluded. Trusts the independent reference model in the harness and the sanitizers."),
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks are needed: all monitors observe public functions, files and the Python interface; sanitizer instrumentation is applied by the checks' own builds", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds liboptv (and, where used, the Python bindings) from /repo's working tree in a private directory under the system temporary directory and removes it. known_findings.txt lists repaired and recorded defects."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
