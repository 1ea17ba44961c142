#!/bin/bash
# seedcheck.sh [id...]: apply each planted bug to /repo, run its property's quick check, undo.
V="$(cd "$(dirname "$0")/.." && pwd)"
ids="$*"; [ -n "$ids" ] || ids=$(ls "$V/seeded")
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$V/seeded/$id/patch.diff" || { echo "$id NOAPPLY"; continue; }
  out=$("$V/check.sh" "$p" quick 2>/dev/null); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
done
