#!/bin/bash
# Development tool: applies each planted bug to /repo in turn, runs the check of its
# property (or the checks named in CHECKS), and undoes the change.
# usage: trybugs.sh [id ...]
cd /verif || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 1; }
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  for c in ${CHECKS:-$prop}; do
    s=$(date +%s.%N)
    out=$(./check "$c" 2>&1); rc=$?
    e=$(date +%s.%N)
    v=$(printf '%s\n' "$out" | grep -m1 '^VIOLATION')
    printf '%-28s %-4s rc=%d %5.1fs %s\n' "$id" "$c" $rc "$(echo "$e - $s" | bc)" "$v"
    [ -n "$VERBOSE" ] && printf '%s\n' "$out" | tail -40
  done
  git -C /repo checkout -q -- .
done
