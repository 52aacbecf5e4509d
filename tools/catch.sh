#!/bin/bash
# tools/catch.sh [ID...]: runs each planted bug's own check against a scratch copy of /repo with the bug in it.
H=$(cd "$(dirname "$0")/.." && pwd)
[ $# = 0 ] && set -- $(ls "$H/seeded")
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$H/seeded/$id/meta.json'))['property'])")
  S=$(mktemp -d /tmp/catch.XXXXXX)
  git -C /repo archive HEAD extra | tar -x -C "$S"
  (cd "$S" && git init -q . && git apply "$H/seeded/$id/patch.diff") || echo "$id does not apply"
  t0=$(date +%s)
  EXTRA_REPO="$S" timeout 900 "$H/check" "$p" > "$S/log" 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 '^run ' "$S/log" | cut -c1-160) $(grep -c '^VIOLATION' "$S/log")"
  [ $rc = 1 ] || tail -3 "$S/log"
  rm -rf "$S"
done
