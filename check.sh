#!/bin/bash
# usage: check.sh ID [thorough] -- decides one property on /repo's current tree
cd /verif || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off GOFLAGS=-mod=mod GOPROXY=off
mkdir -p bin evidence replays
(
  flock 9
  cd engine && GOFLAGS=-mod=mod go build -o ../bin/vpengine . 
) 9>bin/.lock 1>&2
exec bin/vpengine check "$@"
