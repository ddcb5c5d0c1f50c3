#!/bin/bash
# usage: check.sh Cxx [quick|thorough]   (from any directory)
# Builds the engine from /verif/gosym and decides property Cxx on /repo's current tree.
set -u
V=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
[ "$tier" = thorough ] || tier=quick
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=${CGO_ENABLED:-1}
bin=$(mktemp -d /tmp/verif-gosym.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$V/gosym" && go build -o "$bin/gosym" .) || exit 2
"$bin/gosym" -verif "$V" -check "$(echo "$id" | tr 'C' 'c')" -tier "$tier" -j "${VERIF_JOBS:-8}"
exit $?
