#!/bin/bash
# try_seeded.sh [id...]: apply each planted bug to /repo, run its property's quick check, undo.
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/try_seeded.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(grep -m1 '^VIOLATION' /tmp/try_seeded.out)"
done
