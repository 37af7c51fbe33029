#!/bin/sh
# check.sh <property>...: rebuild the analyser from its committed source and
# decide the properties on /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
: "${HOME:=/root}"
PATH=$PATH:/usr/local/go/bin:/usr/lib/go/bin
export HOME PATH GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off
export XGENLINT_HOME="$here"
mkdir -p "$here/.build" "$here/evidence" || exit 2
out=$here/.build/xgenlint.$$
trap 'rm -f "$out"' EXIT
(cd "$here/xgenlint" && go build -o "$out" .) || exit 2
[ "$1" = --build ] && exit 0
"$out" check "$@"
