#!/bin/bash
# bash tools/try_seeds.sh [pattern] : run each seeded change against its property's check in a scratch copy
here="$(cd "$(dirname "$0")/.." && pwd)"
for s in "$here"/seeded/${1:-}*/; do
  id=$(basename "$s"); p=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
  d=$(mktemp -d /tmp/tryXXXXXX); git clone -q /repo "$d/r" && git -C "$d/r" apply "$s/patch.diff" || { echo "$id NOAPPLY"; rm -rf "$d"; continue; }
  t=$(date +%s); VERIF_REPO="$d/r" timeout 900 bash "$here/check.sh" $p >"$d/o" 2>&1; r=$?
  echo "$id exit $r $(( $(date +%s)-t ))s $(grep -c '^VIOLATION' "$d/o")"
  rm -rf "$d"
done
