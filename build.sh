#!/bin/bash
# build.sh REPO OUT PROPERTY: builds the harness (and the command line tool) of REPO into OUT.
# The harness is compiled as package internal/verifmc of the module under test by means of an overlay,
# nothing is written to REPO. For C12 the library is replaced by copies with scheduling points (mc/instr) and the
# race detector is on. For C23 the command line tool is built with fault injection (mc/fault).
set -eu
V=$(cd "$(dirname "$0")" && pwd)
REPO=$1 OUT=$2 PROP=$3
cp "$REPO/go.mod" "$OUT/go.mod"
cp "$REPO/go.sum" "$OUT/go.sum"
flags=
{
	printf '{"Replace":{'
	sep=
	for f in "$V"/mc/*.go; do
		printf '%s"%s/internal/verifmc/%s":"%s"' "$sep" "$REPO" "$(basename "$f")" "$f"
		sep=,
	done
	for f in "$V"/mc/shim/*/*.go; do
		printf ',"%s/internal/%s/%s":"%s"' "$REPO" "$(basename "$(dirname "$f")")" "$(basename "$f")" "$f"
	done
	if [ "$PROP" = C12 ]; then
		GO111MODULE=off GOFLAGS= go run "$V/mc/instr/main.go" "$REPO" "$OUT"
	fi
	printf '}}'
} >"$OUT/overlay.json"
tool=
if [ "$PROP" = C23 ]; then
	# The command line tool is linked with a standard library that can inject faults at its system calls.
	std=$(go env GOROOT)/src/syscall
	sed 's/^\tr1, r2, errno = linux.Syscall6(trap, a1, a2, a3, a4, a5, a6)$/\tif verifOn != 0 {\n\t\treturn verifSyscall(trap, a1, a2, a3, a4, a5, a6)\n\t}\n&/' "$std/syscall_linux.go" >"$OUT/syscall_linux.go"
	grep -q 'return verifSyscall' "$OUT/syscall_linux.go"
	printf '{"Replace":{"%s/syscall_linux.go":"%s","%s/zz_verif_fault.go":"%s"}}' "$std" "$OUT/syscall_linux.go" "$std" "$V/mc/fault/zz_verif_fault.go" >"$OUT/fault.json"
	tool="-overlay $OUT/fault.json"
fi
if [ "$PROP" = C12 ]; then
	flags=-race
fi
cd "$REPO"
go build $flags -modfile="$OUT/go.mod" -overlay "$OUT/overlay.json" -o "$OUT/verifmc" ./internal/verifmc &
h=$!
go build $tool -modfile="$OUT/go.mod" -o "$OUT/mustache" ./cmd/mustache
wait $h
