#!/bin/bash
# catch.sh ID... : apply each seeded change to /repo, run its property's quick check, undo.
for ID in "$@"; do
  D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply "$D/patch.diff" || { echo "$ID does not apply"; continue; }
  ( cd /verif && timeout 900 ./check.sh "$P" > /tmp/catch.log 2>&1 ); r=$?
  git -C /repo checkout -- .
  echo "$ID $P exit=$r $(grep -c '^VIOLATION' /tmp/catch.log) $(grep -m1 '^VIOLATION' /tmp/catch.log | cut -c1-150)"
done
