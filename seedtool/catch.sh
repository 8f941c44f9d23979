#!/bin/bash
# catch.sh [ID...]: applies every seeded bug (or the given ones) to a scratch
# copy of /repo and runs the check of its property (CHECKS=all: every claimed
# check) with /tmp/x; prints caught / MISSED.
cd /verif/seeded || exit 1
mkdir -p /tmp/v; cp /verif/known-findings.jsonl /tmp/v/
[ $# = 0 ] && set -- *
one() {
  b=$1; p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  r=$(mktemp -d /tmp/catch.XXXX); cp -a /repo/. $r; (cd $r && git apply /verif/seeded/$b/patch.diff) || { echo "$b: APPLY"; rm -rf "$r"; return; }
  v=$r.v; mkdir -p $v; cp /verif/known-findings.jsonl $v/
  l=$p; [ "$CHECKS" = all ] && l=$(python3 -c "import json;print(' '.join(json.load(open('/verif/checks.json'))['checks']))")
  o=""
  for c in $l; do
    out=$(${X:-/tmp/x} check $r $v $c quick 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$c" <<<"$out"; then o="$o $c:caught"; [ $c = $p ] && [ -n "$V" ] && o="$o $(grep -m1 ^VIOLATION <<<"$out" | cut -c1-160)"
    elif [ $rc != 0 ]; then o="$o $c:ERROR$rc"; elif [ $c = $p ]; then o="$o $c:MISSED"; fi
  done
  echo "$b:$o"; rm -rf "$r" "$v"
}
export -f one
. /opt/vp/env.sh
printf '%s\n' "$@" | xargs -P 6 -I{} bash -c 'one {}'
