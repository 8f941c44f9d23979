. /opt/vp/env.sh; export GOSUMDB=off GOFLAGS=-mod=mod
X=${X:-/tmp/x2}; b() { (cd /verif/tool && gofmt -l . ; go vet . && go build -o $X .); }
ck() { for i in "$@"; do $X check /repo /tmp/v $i quick 2>&1 | cut -c1-${W:-400} | head -${H:-12}; done; }
