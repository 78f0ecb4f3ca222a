#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import plans
NOTE = "Bounded random search: the property held on every generated case (counts in the evidence file); nothing is proved beyond them. "
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if i not in plans.PLANS: continue
    t, n = plans.TECH[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": NOTE + n})
m = {"version": 1, "setup_cmd": "python3 harness/build.py", "hooks": {"guard": "STLROM_VERIF (unused: no hook was needed)", "enable": "nothing to enable; the checks compile /repo's sources as they are", "source_commits": []},
     "checks": checks, "not_applicable": plans.NOT_APPLICABLE,
     "notes": "Every check compiles /repo's src with AddressSanitizer and UBSan into /verif/build/<hash of the sources> and runs generated cases in forked workers; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
