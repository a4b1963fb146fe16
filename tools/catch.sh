#!/bin/bash
# catch.sh ID...: applies each planted bug to a scratch copy of /repo and runs
# its property's quick check on that copy.
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/catch-XXXXXX)
  cp -a /repo $w/repo && git -C $w/repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  cp -a /verif/evidence $w/ev
  out=$(cd /verif && MC_REPO=$w/repo python3 check.py $p 2>&1); rc=$?
  cp -a $w/ev/. /verif/evidence/
  echo "$id $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep '^VIOLATION' | head -1 | cut -c1-150)"
  rm -rf "$w"
done
