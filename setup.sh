#!/bin/bash
# builds the monitors once, plain and with the race detector, so that the
# checks afterwards only recompile what changed
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly
root=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$root/.build" "$root/evidence"
cd "$root/mon" || exit 2
go build -o "$root/.build/setup-plain" . || exit 2
go build -race -o "$root/.build/setup-race" . || exit 2
go build -race -o "$root/.build/setup-first" ./first || exit 2
rm -f "$root/.build/setup-first" "$root/.build/setup-plain" "$root/.build/setup-race"
