#!/bin/bash
# Builds the harness once so that the checks find warm build caches.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
work=$(mktemp -d "${TMPDIR:-/tmp}/bibcheck.XXXXXX")
trap 'rm -rf "$work"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$work/"
cd "$here/harness"
go build -modfile="$work/go.mod" -o "$work/a" .
go build -race -modfile="$work/go.mod" -o "$work/b" .
mkdir -p "$here/evidence" "$here/replays"
