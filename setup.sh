#!/bin/bash
# builds bin/zkcheck from checker/ when it is missing or older than its sources
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=$PATH:/usr/local/bin GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
cd "$here/checker" || exit 1
if [ -x "$here/bin/zkcheck" ] && [ -z "$(find . -newer "$here/bin/zkcheck" -name '*.go')" ]; then
	exit 0
fi
mkdir -p "$here/bin"
go build -o "$here/bin/zkcheck" .
