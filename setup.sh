#!/bin/bash
# Build the checker (offline; only needs the Go module cache of the sandbox).
set -eu
cd "$(dirname "$0")"
mkdir -p .bin
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
(cd checker && go build -o ../.bin/chk .)
