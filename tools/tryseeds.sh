#!/bin/bash
# tryseeds.sh [id...]: runs each seeded bug's property check against a scratch copy of /repo with the bug applied
cd /verif
W=$(mktemp -d /tmp/tryXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
for d in ${@:-$(ls seeded)}; do
  git -C "$W/repo" checkout -q . ; git -C "$W/repo" apply "/verif/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  s=$(date +%s)
  o=$(GOVER_REPO=$W/repo VERIF_SEED=1 timeout 900 ./check.sh $p quick 2>&1); rc=$?
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s: $(echo "$o" | grep -m2 -E '^VIOLATION|obligation' | tr '\n' ' ' | cut -c1-220)"
done
