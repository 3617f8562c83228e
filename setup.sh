#!/bin/bash
# Builds the framework once (and warms the Go build cache).
set -eu
cd "$(dirname "$0")"
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d "${TMPDIR:-/tmp}/verifmc.XXXXXX")
trap 'rm -rf "$work"' EXIT
./build.sh "${VERIF_REPO:-/repo}" "$work" C12
mkdir -p evidence
echo "setup ok"
