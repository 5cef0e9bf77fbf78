#!/bin/bash
# usage: check.sh PROPERTY quick|thorough     (run in /verif)
# Builds the verifier from its source (if it is not built yet) and decides one property
# on the current source of /repo.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOCACHE=${GV_GOCACHE:-$PWD/.build/gocache} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=
./setup.sh >/dev/null || exit 2
exec ./.build/gv check -prop "$1" -tier "${2:-quick}" -verif "$PWD" -spec "$PWD/spec"
