#!/bin/bash
# build.sh: build the analyzer from the committed sources (offline).
set -eu
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$here/bin" "$here/evidence"
cd "$here/analyzer"
# nothing to do if the binary is newer than all of its sources
if [ -x "$here/bin/typastcheck" ] && [ -z "$(find . -newer "$here/bin/typastcheck" -type f | head -1)" ]; then
	exit 0
fi
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
[ -n "${HOME:-}" ] || export HOME=/root
tmp="$here/bin/.typastcheck.$$"
go build -o "$tmp" .
mv "$tmp" "$here/bin/typastcheck"
