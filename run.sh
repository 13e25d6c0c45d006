#!/bin/bash
# ./run.sh <ID>: builds the property's check against /repo's working tree and
# runs it. Exit 0 held, 1 violated (with a VIOLATION line), anything else: error.
set -u
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$root
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=1 GOFLAGS="-mod=mod -buildvcs=false"
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export LOG=panic # the library logs through env_logger; keep it off the hot path
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
id=$1
low=$(echo "$id" | tr 'A-Z' 'a-z')
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif-$low-XXXXXX") || exit 3
trap 'rm -rf "$scratch"' EXIT
export VERIF_SCRATCH=$scratch
cd "$root/harness" || exit 3
if [ -x "checks/$low/run.sh" ]; then
    "checks/$low/run.sh"
    exit $?
fi
ov=()
if [ -f "checks/$low/overlay" ]; then
    # Hooks for the explorer, in copies of library and repository sources.
    go build -o "$scratch/mkoverlay" ./cmd/mkoverlay && "$scratch/mkoverlay" -dir "$scratch" $(cat "checks/$low/overlay") || { echo "overlay failed" >&2; exit 3; }
    ov=(-overlay "$scratch/overlay.json")
fi
go build "${ov[@]}" -o "$scratch/check" "./checks/$low" || { echo "build failed" >&2; exit 3; }
if [ -f "checks/$low/race" ]; then
    go build -race "${ov[@]}" -o "$scratch/check-race" "./checks/$low" || { echo "race build failed" >&2; exit 3; }
    export VERIF_RACE_EXE=$scratch/check-race
fi
"$scratch/check" >"$scratch/out" 2>"$scratch/err"
rc=$?
cat "$scratch/out"
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
    # The process died (fatal error in the code under test, for example a
    # concurrent map write or stack exhaustion): a violation when the library
    # is on the stack of the failing goroutine, an error of the check if not.
    tail -c 4000 "$scratch/err" >&2
    if grep -q 'SKAARHOJ/rawpanel-lib' "$scratch/err" && grep -qE '^(panic|fatal error|runtime: goroutine stack exceeds)' "$scratch/err"; then
        mkdir -p "$root/replay"
        cp "$scratch/err" "$root/replay/$id-crash.txt"
        echo "VIOLATION property=$id replay=$root/replay/$id-crash.txt"
        exit 1
    fi
    exit 3
fi
tail -c 2000 "$scratch/err" >&2
exit $rc
