#!/bin/bash
# trybugs.sh [id...] : runs the property's quick check against each seeded change, in a copy of /repo.
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  W=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo "$W/repo"
  (cd "$W/repo" && git checkout -q -- . && git apply /verif/seeded/$id/patch.diff) || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$W"; continue; }
  t0=$(date +%s)
  MC_EVIDENCE=$W/ev BPASS_REPO=$W/repo timeout 900 ./run.sh $p > "$W/out" 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " "$W/out"; then r=CAUGHT; else r=MISSED; fi
  echo "$id $p $r rc=$rc $(( $(date +%s)-t0 ))s $(grep -a -m1 -i 'violation' $W/out | cut -c1-60)"
  [ $r = MISSED ] && tail -3 "$W/out"
  rm -rf "$W"
done
