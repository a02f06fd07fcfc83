#!/bin/bash
# tools/mut.sh 'file' 's/old/new/' CHECK...  : run checks on a scratch copy with one sed edit
d=$(mktemp -d /tmp/mut-XXXXXX); cp -a /repo/. "$d"
f=$1; e=$2; shift 2
sed -i -E "$e" "$d/$f"
if cmp -s "$d/$f" "/repo/$f"; then echo "NO CHANGE"; rm -rf "$d"; exit 3; fi
diff "/repo/$f" "$d/$f" | head -6
for c in "$@"; do (cd /verif && T1HA_REPO=$d ./check.py $c 2>&1 | grep -v "^  *$" | tail -4 | cut -c1-300); done
rm -rf "$d"
