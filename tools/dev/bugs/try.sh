#!/bin/bash
# try.sh [ids...]: applies each bug to /repo, runs its check, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  s=$(date +%s)
  out=$(timeout 900 ./check.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  v=$(grep -m1 "^VIOLATION property=$p" <<<"$out")
  if [ $rc = 1 ] && [ -n "$v" ]; then echo "$d $p caught ($(( $(date +%s)-s ))s): $(grep -c ^VIOLATION <<<"$out")"; else echo "$d $p MISSED rc=$rc"; tail -5 <<<"$out"; fi
done
git -C /repo status --short
