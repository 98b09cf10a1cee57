#!/bin/bash
# bugs.sh [ids]: run the owning check (quick) on each planted bug
# SEED_REPO and SEED_VERIF name other clones to work in
R=${SEED_REPO:-/repo}; V=${SEED_VERIF:-/verif}
cd "$V"
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C "$R" apply "$V/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_REPO=$R VERIF_DIR=$V VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $p quick 2>/dev/null); c=$?
  git -C "$R" checkout -- .
  echo "$d $p exit=$c $(( $(date +%s)-s ))s $(echo "$out" | grep -c '^VIOLATION property='$p)"
done
