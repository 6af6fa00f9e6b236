#!/bin/bash
# Runs the check of each planted change (default: all) on a patched scratch copy of /repo.
cd "$(dirname "$0")/.."; for id in ${@:-$(ls seeded)}; do
  T=$(mktemp -d /tmp/seedrun.XXXXXX); git clone -q /repo "$T/r"; git -C "$T/r" apply "$PWD/seeded/$id/patch.diff" || echo "$id does not apply"
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])"); s=$(date +%s)
  o=$(VERIF_REPO="$T/r" python3 run.py "$p" 2>&1); rc=$?; echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$o" | grep -a -c '^VIOLATION') violations: $(echo "$o" | grep -a 'VIOLATED' | sed 's/# job \([^:]*\).*/\1/' | tr '\n' ' ')"
  rm -r "${T:?}"
done
