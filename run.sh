#!/bin/bash
# usage: run.sh ID TIER | run.sh --setup
# Builds the analyser (if its sources changed) and runs one check on /repo.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH:/usr/local/go/bin"
export HOME="${HOME:-/root}" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod CGO_ENABLED=0
[ -n "$GOCACHE" ] && [ -w "$GOCACHE" ] || export GOCACHE="$here/.cache/go-build"
mkdir -p "$here/.cache" "$here/evidence"
bin="$here/.cache/xpdfvet"
need=0
[ -x "$bin" ] || need=1
if [ $need = 0 ]; then
  for f in "$here"/tool/*.go "$here"/tool/go.mod; do
    [ "$f" -nt "$bin" ] && need=1
  done
fi
if [ $need = 1 ]; then
  (cd "$here/tool" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build the analyser"; exit 2; }
fi
[ "$1" = "--setup" ] && exit 0
exec "$bin" check "${REPO:-/repo}" "$here" "$1" "${2:-quick}"
