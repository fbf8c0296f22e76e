#!/bin/bash
# matrix.sh ID...: run the planted change's own property check with it applied to /repo.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NO-APPLY"; continue; }
  timeout 900 python3 check.py $p > /tmp/matrix.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -c "^VIOLATION property=$p " /tmp/matrix.out)"
done
