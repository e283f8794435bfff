#!/bin/bash
# seedrun.sh ID...: applies each planted bug to /repo, runs its demonstration and its property's quick check, and undoes it.
. /opt/vp/env.sh
R=${VERIF_REPO:-/repo}; cd $R || exit 2
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git diff --quiet || { echo "$R is dirty"; exit 2; }
  bash $d/demo.sh > /tmp/seed-clean.log 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id does not apply"; continue; }
  go build ./... || echo "$id does not build"
  bash $d/demo.sh > /tmp/seed-bug.log 2>&1; b=$?
  t=skipped
  if [ -n "$TESTS" ]; then go test $TESTS > /tmp/seed-test.log 2>&1; t=$?; fi
  s=$(date +%s)
  (cd /verif; timeout 900 ./check.sh $prop quick) > /tmp/seed-check.log 2>&1; k=$?
  echo "$id $prop: demo clean=$c bug=$b tests=$t check=$k ($(( $(date +%s) - s )) s) $(grep -m1 '^VIOLATION' /tmp/seed-check.log) $(grep -m1 -A1 '^VIOLATION' /tmp/seed-check.log | tail -1)"
  git checkout -q -- .
done
