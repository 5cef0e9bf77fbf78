#!/bin/bash
# builds the verifier; offline
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOCACHE=${GV_GOCACHE:-$PWD/.build/gocache} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
mkdir -p .build evidence
if [ ! -x .build/gv ] || [ -n "$(find tool -name '*.go' -newer .build/gv -print -quit)" ]; then
  (cd tool && GO111MODULE=on GOFLAGS=-mod=vendor go build -o ../.build/gv.$$ . && mv ../.build/gv.$$ ../.build/gv)
fi
