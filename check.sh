#!/bin/bash
# check.sh PROPERTY: builds the analyzer if it is absent or older than its
# sources, and decides the property for /repo's current tree.
cd "$(dirname "$0")" || exit 1
export VERIF_DIR="$PWD"
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOFLAGS=-mod=mod
bin=${VERIF_BIN:-$PWD/bin/analyzer}
if [ ! -x "$bin" ] || [ -n "$(find analyzer -newer "$bin" -print -quit)" ]; then
	mkdir -p "$(dirname "$bin")"
	if ! (cd analyzer && GOFLAGS=-mod=readonly go build -o "$bin.$$" . && mv "$bin.$$" "$bin") >/tmp/analyzer-build.$$ 2>&1; then
		cat /tmp/analyzer-build.$$
		rm -f /tmp/analyzer-build.$$
		echo "the analyzer does not build"
		exit 2
	fi
	rm -f /tmp/analyzer-build.$$
fi
[ $# -eq 0 ] && exit 0
if [ "$1" = all ]; then exec timeout 6000 "$bin" all; fi
timeout 840 "$bin" "$@"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	echo "analysis of $* did not finish (exit $rc)"
	echo "VIOLATION property=$1 replay=$PWD/evidence/$1.json"
	exit 1
fi
exit $rc
