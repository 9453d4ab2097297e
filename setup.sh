#!/bin/bash
# Builds the analyzer offline from the committed, vendored sources.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/.build" "$here/evidence"
bin="$here/.build/fpkicheck"
stamp="$(cd "$here/analyzer" && cat *.go go.mod | sha256sum | cut -d' ' -f1)"
if [ -x "$bin" ] && [ "$(cat "$here/.build/stamp" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
cd "$here/analyzer"
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=vendor GOWORK=off
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
go build -o "$bin.tmp" . && mv "$bin.tmp" "$bin"
echo "$stamp" > "$here/.build/stamp"
