#!/bin/bash
# Warms the build caches and checks the tools the monitors use.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p "$here/build" "$here/evidence"
cd "$here/harness" || exit 1
go build -o "$here/build/xv" . || exit 1
go build -race -o "$here/build/xv-race" . || exit 1
CGO_ENABLED=0 GOARCH=386 go build -o "$here/build/xv-386" . || echo "no 32-bit build"
command -v strace >/dev/null || { echo "strace is missing"; exit 1; }
exit 0
