#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
NA = {"C29": "No execution with threads exists to explore: the build has HG_USE_TBB=OFF, TBB is not installed here, so parallel_sort and parfor compile to their "
             "sequential forms and the library has no other threads, locks or shared mutable state; a model of TBB would not be bound to code that can run."}
NOTE = {"default": "Exhaustive within the stated bounds (see DESIGN.md and the evidence's 'bounds'), directly on the real code built from the working tree, every "
                   "result compared with an independent reference model; nothing is claimed beyond the bounds. Trusts numpy, pybind11, the compiler and the reference model."}
checks = []
na = []
for p in props:
    i = p["id"]
    f = ROOT + "/checks/%s.py" % i.lower()
    if os.path.isfile(f):
        doc = open(f).read().split('"""')[1].strip()
        checks.append({"property": i, "quick_cmd": "python3 run_check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 run_check.py %s --tier thorough" % i,
                       "technique": "explicit bounded model checking of the implementation: " + re.sub(r"^C\d+:\s*", "", " ".join(doc.split()))[:300],
                       "level": "model_checking", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: every check drives the public API (Python module and headers) built out of tree in /verif/build. "
              "python3 run_check.py ID --replay FILE replays a reported case."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
