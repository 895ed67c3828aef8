#!/bin/bash
# Runs the check of each planted bug's property (or all, with -a) against a
# scratch copy of /repo with the bug applied.
cd "$(dirname "$0")/.."
all=0; [ "$1" = -a ] && { all=1; shift; }
for d in ${@:-seeded/*}; do
  id=$(basename "$d"); p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  t=$(mktemp -d); cp -a /repo "$t/r"; git -C "$t/r" apply "$PWD/seeded/$id/patch.diff" || echo "PATCH FAILS $id"
  cp known-findings.txt "$t/" 2>/dev/null
  ps=$p; [ $all = 1 ] && ps=$(bin/lpgcheck list | sort)
  hit=""
  for q in $ps; do bin/lpgcheck -repo "$t/r" -verif "$t" check $q > "$t/out" 2>&1 || { hit="$hit $q"; [ $q = $p ] && grep -A3 "^$q:" "$t/out" | sed -n 4p | cut -c1-140; }; done
  echo "$id [$p]: ${hit:-MISSED}"
  rm -rf "$t"
done
