#!/bin/sh
# sh check.sh C03 [quick|thorough]; sh check.sh replay FILE
# Builds the harness against /repo's working tree and runs one check.
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off TZ=America/Havana
export GOCACHE="${GOCACHE:-$HOME/.cache/go-build}"
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
race=
CGO_ENABLED=0
if [ "$1" = C18 ]; then race=-race CGO_ENABLED=1; fi
export CGO_ENABLED
(cd "$VERIF_DIR/harness" && go build $race -o "$bin/gqlcheck" .) || exit 2
"$bin/gqlcheck" "$@"
