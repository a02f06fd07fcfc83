#!/bin/bash
# tools/seeds.sh [ID...]: apply each planted bug to a scratch copy and run its property's check on it
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for i; do
  d=$(mktemp -d /tmp/seed-XXXXXX); cp -a /repo/. "$d"
  p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "seeded/$i/meta.json")
  git -C "$d" apply "$PWD/seeded/$i/patch.diff" || echo "DOES NOT APPLY $i"
  t=$(date +%s)
  for c in ${CHECKS:-$p}; do
    T1HA_REPO=$d ./check.py "$c" >"/tmp/seed-out" 2>&1; r=$?
    echo "$i $c rc=$r $(( $(date +%s) - t ))s $(grep -m1 VIOLATION /tmp/seed-out | cut -c1-160)"
  done
  rm -rf "$d"
done
