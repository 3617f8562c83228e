#!/bin/bash
# ./run.sh <property> [flags of verifmc]: builds the code under test and the harness from the current
# working tree of /repo and decides one property. The tier is taken from VERIF_TIER (quick, thorough).
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
REPO=${VERIF_REPO:-/repo}
prop=${1:?usage: run.sh property}
shift
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d "${TMPDIR:-/tmp}/verifmc.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
"$V/build.sh" "$REPO" "$work" "$prop" >"$work/build.log" 2>&1 || { echo "build failed:"; cat "$work/build.log"; exit 2; }
"$work/verifmc" -prop "$prop" -verif "$V" -repo "$REPO" -work "$work" -mustache "$work/mustache" -tier "${VERIF_TIER:-quick}" "$@"
