#!/bin/bash
# Development tool: tools/try.sh ID... - applies each planted bug to /repo, runs the check of its property, undoes it.
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id; p=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  for q in $p; do
  s=$(date +%s); out=$(VERIF_SEED=${SEED:-1} timeout 900 bin/check $q 2>&1); rc=$?; e=$(date +%s)
  echo "$id $q rc=$rc $((e-s))s $(echo "$out" | grep -E 'VIOLATION|what failed|^  ' | head -${LINES_N:-3} | cut -c1-300)"
  done
  git -C /repo checkout -q -- .
done
