#!/bin/bash
# builds the engine and the replayer once, so that a broken framework shows early
V="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off GONOSUMDB='*'
mkdir -p "$V/bin"
( cd "$V/engine" && go build -o "$V/bin/gosym" . ) && ( cd "$V/harness" && go vet ./h && go build -o "$V/bin/replay" ./cmd/replay )
