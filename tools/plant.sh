#!/bin/bash
# Usage: plant.sh <id> [check ...]: validates seeded/<id> in a scratch copy and runs the given checks (default: the property in meta.json) on it.
cd "$(dirname "$0")/.." || exit 2
v=$PWD; id=$1; shift
s=$(mktemp -d) || exit 2
trap 'rm -rf "$s"' EXIT
mkdir "$s/repo"; git -C /repo archive HEAD | tar -x -C "$s/repo"
mkdir "$s/d"; cp "$v/seeded/$id"/* "$s/d/"
export GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
cd "$s/repo"
bash "$s/d/demo.sh" > "$s/log" 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAIL"; tail -20 "$s/log"; }
git apply --directory= "$s/d/patch.diff" 2> "$s/log" || patch -s -p1 < "$s/d/patch.diff" || { echo "patch: FAIL"; cat "$s/log"; exit 1; }
cp go.mod "$s/go.mod"; cp go.sum "$s/go.sum"
if GOFLAGS="-mod=mod -modfile=$s/go.mod" go build ./... ; then echo "build: ok"; else echo "build: FAIL"; fi
GOFLAGS="-mod=mod -modfile=$s/go.mod" go test -vet=off -count=1 -run '^(TestSm3ByBytes|TestCertSM2Parser|TestGenerateKey|TestHexToBase64|TestParseCert|TestParseKey|TestSignVerify4|TestSignedData|TestSignedDataCallback)$' ./sm3 ./x509 > "$s/log" 2>&1 && echo "stable tests: ok" || { echo "stable tests: FAIL"; tail "$s/log"; }
bash "$s/d/demo.sh" > "$s/log" 2>&1 && { echo "demo patched: PASSES (bad)"; } || { echo "demo patched: fails (good)"; grep -m3 -E 'demo_test|panic' "$s/log"; }
p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$s/d/meta.json")
mkdir "$s/v"; cp "$v/known_findings.txt" "$s/v/" 2>/dev/null
for c in ${@:-$p}; do
  MCHECK_REPO=$s/repo MCHECK_VERIF=$s/v ${MCHECK:-/tmp/mcheck} $c quick > "$s/log" 2>&1; r=$?
  echo "check $c: exit $r"; grep -m2 -E 'VIOLATION|fail' "$s/log" | cut -c1-300
done
