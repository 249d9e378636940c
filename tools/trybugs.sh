#!/bin/bash
# trybugs.sh [ID[:PROPERTY]...]: runs the check of its property (or PROPERTY) against each planted bug, /repo is left as it was
cd /verif
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for x in ${@:-$(ls seeded)}; do
  id=${x%%:*}
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [[ $x == *:* ]] && p=${x##*:}
  git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
  t=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  v=$(grep -c "^VIOLATION property=$p " <<<"$out")
  if [ $rc = 1 ] && [ $v -gt 0 ]; then r=caught; else r="MISSED rc=$rc"; fi
  echo "$id $p $r $(( $(date +%s) - t ))s $(grep -v '^VIOLATION' <<<"$out" | tail -1 | cut -c1-200)"
done
