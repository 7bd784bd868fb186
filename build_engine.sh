#!/bin/bash
# Builds the symbolic-execution engine from source (offline).
set -e
cd "$(dirname "$0")/engine"
export HOME=${HOME:-/root} GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
export GOFLAGS="-mod=mod -buildvcs=false" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p ../bin
"$GOROOT/bin/go" build -o ../bin/vpengine .
