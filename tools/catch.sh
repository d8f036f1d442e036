#!/bin/bash
# catch.sh <id>...: applies planted bugs to /repo one after the other, runs the check of
# their property and undoes them.
for id in "$@"; do
  d=/verif/seeded/$id
  [ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 1; }
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(bash /verif/check.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id: $p exit $rc ($(($(date +%s)-s)) s): $(grep -m1 VIOLATION <<<"$out") $(grep -m1 '\]: ' <<<"$out" | cut -c1-140)"
done
