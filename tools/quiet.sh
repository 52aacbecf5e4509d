#!/bin/bash
# tools/quiet.sh DIR [ID...]: runs the checks against the package in DIR (a behaviour-preserving variant) and lists those that aren't quiet.
H=$(cd "$(dirname "$0")/.." && pwd); D=$1; shift
[ $# = 0 ] && set -- $(python3 -c "import json;print(*[c['property'] for c in json.load(open('$H/MANIFEST.json'))['checks']])" 2>/dev/null || seq -f C%02g 1 27)
for p in "$@"; do
  EXTRA_REPO=$D timeout 900 "$H/check" "$p" > /tmp/quiet.$$ 2>&1; rc=$?
  [ $rc = 0 ] || { echo "$p rc=$rc"; tail -4 /tmp/quiet.$$; }
done
rm -f /tmp/quiet.$$; echo "quiet.sh done"
