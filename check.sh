#!/bin/bash
# usage: check.sh ID [quick|thorough]   run from /verif; analyses /repo
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=$PATH:/usr/local/bin GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
id=$1
tier=${2:-${VERIF_TIER:-quick}}
fail() {
	mkdir -p "$here/evidence"
	echo "$1" | tee "$here/evidence/$id.violation.txt"
	echo "VIOLATION property=$id replay=$here/evidence/$id.violation.txt"
	exit 1
}
"$here/setup.sh" >&2 || fail "the checker does not build"
"$here/bin/zkcheck" -property "$id" -tier "$tier" -repo "${ZKREPO:-/repo}" -verif "$here"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || fail "the checker ended with status $rc"
exit $rc
