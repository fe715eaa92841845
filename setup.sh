#!/bin/bash
# builds the checker and warms the Go build cache for /repo's packages
cd /verif || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off GOPROXY=off
mkdir -p bin evidence replays
(cd engine && GOFLAGS=-mod=mod go build -o ../bin/vpengine .) || exit 1
(cd /repo && go build -o /dev/null ./... >/dev/null 2>&1; true)
exit 0
