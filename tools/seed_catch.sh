#!/bin/bash
# seed_catch.sh ID...: applies each planted bug to /repo, runs its property's check, undoes it.
cd /verif
for ID in "$@"; do
  D=/verif/seeded/$ID
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  git -C /repo apply $D/patch.diff || { echo "$ID: does not apply"; continue; }
  o=$(VERIF_SEED=1 python3 check.py $P 2>&1); rc=$?
  git -C /repo checkout -q -- .
  v=$(echo "$o" | grep -c "^VIOLATION property=$P ")
  sed -i "/^$ID: /d" tools/seed_results.txt 2>/dev/null
  if [ $rc = 1 ] && [ $v -gt 0 ]; then echo "$ID: caught by $P: $(echo "$o" | grep -A1 '^VIOLATION' | sed -n 2p | cut -c1-140)" | tee -a tools/seed_results.txt; else echo "$ID: MISSED by $P rc=$rc $(echo "$o" | tail -1 | cut -c1-200)" | tee -a tools/seed_results.txt; fi
done
