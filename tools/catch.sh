#!/bin/bash
# catch.sh [ID...]: apply each planted change to /repo, run the check of its property, undo
cd /verif/seeded; for d in ${@:-*}; do p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$d/patch.diff || continue
 o=$(VERIF_TIER=quick python3 /verif/check.py $p 2>&1); rc=$?
 git -C /repo checkout -q -- .
 echo "$d $p rc=$rc $(echo "$o" | grep -m1 VIOLATION | cut -c1-160)"
done; git -C /repo status --short
