#!/bin/bash
# Runs demo_test.go inside of the package of /repo (the current directory) it
# names in its first line, by means of an overlay. Writes nothing in /repo.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
pkg=$(sed -n '1s,^//pkg: *,,p' "$d/demo_test.go")
r="\"$PWD/${pkg#./}/zz_demo_test.go\": \"$d/demo_test.go\""
[ -f "$d/rec_test.go" ] && r="$r, \"$PWD/${pkg#./}/zz_rec_test.go\": \"$d/rec_test.go\""
echo "{\"Replace\": {$r}}" > "$t/overlay.json"
GOFLAGS=-mod=readonly timeout 250 go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run 'TestDemo$' "./$pkg"
