#!/bin/bash
# Usage: run.sh <property id> [quick|thorough]   builds the checker from source and decides one property of /repo.
#        run.sh build                            only checks that the checker builds.
here=$(cd "$(dirname "$0")" && pwd)
unset GOFLAGS GOWORK
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off CGO_ENABLED=0
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
(cd "$here/checker" && go build -o "$work/mcheck" .) || exit 2
[ "$1" = build ] && exit 0
MCHECK_VERIF=${MCHECK_VERIF:-$here} "$work/mcheck" "$1" "${2:-quick}"
