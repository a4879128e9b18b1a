#!/bin/bash
# Builds the engine and warms the build cache for the native replays.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin
(cd engine && go build -o ../bin/engine .) || exit 2
(cd /repo && CGO_ENABLED=1 go build ./pkg/curve ./pkg/crypto/... ) >/dev/null 2>&1
exit 0
