#!/bin/sh
# Builds the harness once, so that the checks find the build cache warm.
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOCACHE="${GOCACHE:-$HOME/.cache/go-build}"
cd "$(dirname "$0")/harness" || exit 1
CGO_ENABLED=0 go build -o /dev/null . && CGO_ENABLED=1 go build -race -o /dev/null . || exit 1
java -version >/dev/null 2>&1 && test -f /opt/veriftools/tla/tla2tools.jar
