#!/bin/bash
# Builds the checker from its committed (vendored) sources, offline.
set -e
cd "$(dirname "$0")/.."
mkdir -p .build/tmp
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=0
export GOCACHE="$PWD/.build/cache" TMPDIR="$PWD/.build/tmp"
unset GOROOT
go=go
command -v go1.27 >/dev/null 2>&1 && go=go1.27
cd checker
exec $go build -o ../.build/checker .
