#!/bin/bash
# usage: check.sh <property> [quick|thorough] ; builds the analyzer when needed and decides
# the property from /repo's current source.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
bash "$here/setup.sh" >/dev/null 2>"$here/.build/build.err" || { mkdir -p "$here/evidence"; cat "$here/.build/build.err"; echo "cannot build the analyzer"; exit 3; }
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOSUMDB=off GOWORK=off
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}" CGO_ENABLED="${CGO_ENABLED:-1}"
exec "$here/.build/fpkicheck" -prop "$prop" -tier "$tier" -repo "${FPKI_REPO:-/repo}" -verif "$here"
