#!/bin/bash
# Warms the build cache; every check rebuilds from /repo's working tree anyway.
cd "$(dirname "$0")/mc" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -o /dev/null ./cmd/mc && go build -race -o /dev/null ./cmd/mc
