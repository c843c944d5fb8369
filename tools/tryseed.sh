#!/bin/bash
# tryseed.sh ID... : for each seeded change: module built with it in a scratch copy of /repo's sources is too slow to keep; applies to /repo, builds the check module, runs demo and check, reverts.
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  ( cd /verif; python3 run_check.py $prop > /tmp/try.$id.log 2>&1; echo "$id: check $prop exit $?"; grep -m1 VIOLATION /tmp/try.$id.log; grep -m1 " case " /tmp/try.$id.log | cut -c1-200 )
  ( cd $(mktemp -d); PYTHONPATH=/verif/build/mod timeout 200 /opt/higra/venv/bin/python -W ignore $d/demo.py > /tmp/try.$id.demo 2>&1; echo "$id: demo exit $?"; tail -1 /tmp/try.$id.demo )
  git -C /repo checkout -- .
done
