#!/bin/bash
# Checks build what they need from /repo themselves; this only proves that the
# framework builds offline.
cd "$(dirname "$0")/harness" || exit 1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=1 GOFLAGS="-mod=mod -buildvcs=false"
go build -o /dev/null ./vk && go vet ./vk ./ref ./gen
