#!/bin/bash
# Runs demo_test.go inside package @PKG@ of the current directory through an overlay.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
cp go.mod "$w/go.mod"; cp go.sum "$w/go.sum"
printf '{"Replace":{"%s":"%s"}}' "$PWD/@PKG@/zz_demo_test.go" "$here/demo_test.go" > "$w/overlay.json"
export GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOFLAGS="-mod=mod -modfile=$w/go.mod"
export TMPDIR=$w
timeout 250 go test -vet=off -count=1 -overlay "$w/overlay.json" -run '^TestDemo$' "./@PKG@"
