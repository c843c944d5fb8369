#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'what_it_breaks' < demo.py : stores /repo's working tree diff as seeded/ID and reverts it."""
import json, os, subprocess, sys
sid, prop, needs, what = sys.argv[1:5]
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
assert diff
open(d + "/patch.diff", "w").write(diff)
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.py", "w").write(sys.stdin.read())
open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
cd "$(mktemp -d)" || exit 2
export PYTHONPATH=/repo/_build PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
timeout 120 /opt/higra/venv/bin/python -W ignore "$D/demo.py"
""")
