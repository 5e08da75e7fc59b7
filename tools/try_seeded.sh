#!/bin/bash
# usage: tools/try_seeded.sh [ID ...]   applies each planted bug to /repo, runs the check of its property, undoes it
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for d in seeded/*/; do
  id=$(basename "$d")
  if [ $# -gt 0 ]; then m=0; for w in "$@"; do [[ $id == $w* ]] && m=1; done; [ $m = 1 ] || continue; fi
  prop=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/${d}patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  s=$SECONDS
  out=$(timeout 900 ./check.sh "$prop" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop" <<<"$out"; then r=CAUGHT; else r="MISSED(rc=$rc)"; fi
  printf '%-34s %s %-14s %4ds\n' "$id" "$prop" "$r" $((SECONDS-s))
done
