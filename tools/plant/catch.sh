#!/bin/bash
# catch.sh ID..: apply each planted bug to /repo, run the check of its property, undo it.
cd /verif
for id in "$@"; do
  [ -d seeded/$id ] || id=$(basename /verif/seeded/$id-*)
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo not clean"; exit 1; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  for q in $p $EXTRA; do
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 python3 check.py $q quick > /tmp/catch.$id.$q.log 2>&1; rc=$?
    echo "$id $q rc=$rc $(grep -m1 VIOLATION /tmp/catch.$id.$q.log)"
  done
  git -C /repo checkout -- .
done
