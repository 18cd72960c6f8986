#!/bin/bash
# trybug.sh ID...: apply each planted bug to /repo, run its property's check, undo.
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || continue
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/trybug.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s: $(grep -c '^failed obligation' /tmp/trybug.out) failed obl; $(grep VIOLATION /tmp/trybug.out)"
done
