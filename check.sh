#!/bin/bash
# check.sh PROPERTY TIER: decide one property on the current /repo working tree
cd "$(dirname "$0")" || exit 3
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
new=$(find engine -name '*.go' -newer bin/engine 2>/dev/null | head -1)
if [ ! -x bin/engine ] || [ -n "$new" ]; then
  mkdir -p bin && (cd engine && go build -o ../bin/engine .) || exit 3
fi
exec ./bin/engine -prop "$1" -tier "$2"
