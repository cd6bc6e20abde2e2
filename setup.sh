#!/bin/bash
# Builds the framework once (offline); every check builds again from /repo's working tree.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0 GOTOOLCHAIN=local
export GOCACHE=${GOCACHE:-${HOME:-/root}/.cache/go-build}
work=$(mktemp -d /tmp/vh.XXXXXXXX)
trap 'rm -rf "$work"' EXIT
cd "$here/harness" && go build -o "$work/vh" .
echo setup ok
