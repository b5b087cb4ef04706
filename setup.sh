#!/bin/bash
# builds the engine, offline
here=$(cd "$(dirname "$0")" && pwd)
export GOROOT=/opt/veriftools/go1.23.12 GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build} HOME=${HOME:-/root}
[ -d "$GOROOT" ] || unset GOROOT
[ -n "$GOROOT" ] && export PATH="$GOROOT/bin:$PATH"
mkdir -p "$here/bin"
cd "$here/engine" && exec go build -o "$here/bin/vf" .
