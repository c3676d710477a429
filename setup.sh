#!/bin/bash
# Builds the monitor program twice, with and without the race detector, which fills Go's build cache and shows that it builds.
set -eu
cd "$(dirname "$0")"
export GOROOT=/opt/veriftools/go1.27.3 PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOFLAGS=-mod=mod GOENV=off GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOTELEMETRY=off GOWORK=off
WORK=$(mktemp -d "${TMPDIR:-/tmp}/qv.XXXXXXXX")
trap 'rm -rf "$WORK"' EXIT
cp -r harness "$WORK/src"
cd "$WORK/src"
go build -tags verif -o "$WORK/qv" .
go build -race -tags verif -o "$WORK/qv-race" .
"$WORK/qv" list
