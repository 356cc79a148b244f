#!/bin/bash
# tools/tryseed.sh ID...: run the property's check against each planted bug in a scratch copy
for id in "$@"; do
  S=/verif/seeded/$id; R=/tmp/try.$$.$id; cp -a /repo $R
  git -C $R apply $S/patch.diff || { echo "$id: no apply"; rm -rf "$R"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  VX_REPO=$R timeout 900 python3 /verif/check.py $p > /tmp/try.log.$id 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/try.log.$id) $(grep -m1 '  harness' /tmp/try.log.$id | cut -c1-140)"
  rm -rf "$R"
done
