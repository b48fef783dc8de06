#!/usr/bin/env python3
# writes MANIFEST.json from the harnesses present
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/level_notes.json"))
checks, na = [], []
for i in ids:
    if os.path.exists(V + "/harness/h_%s.cpp" % i):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "stateless model checking: exhaustive bounded enumeration of operation/configuration sequences on the real code in lock step with a reference model",
                       "level": "model_checking",
                       "level_note": notes.get(i, notes["default"])})
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
