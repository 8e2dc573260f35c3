#!/bin/bash
# bugs.sh [id...]: apply each planted bug to /repo, run its property's quick check, undo.
cd "$(dirname "${BASH_SOURCE[0]}")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in ${@:-$(ls seeded)}; do
  d=seeded/$id
  prop=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 timeout 900 ./check "$prop" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -E 'violates|minimised|error' | cut -c1-200 | head -2 | tr '\n' '|')"
done
