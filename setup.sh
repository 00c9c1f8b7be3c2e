#!/bin/bash
# builds the verifier and warms the build cache
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p bin evidence out
(cd govc && go build -o ../bin/govc .)
T=$(mktemp -d)
bash gomod/mkmod.sh "$T" lemmas
for p in lemmas/*/; do
	[ -f "$p/main.go" ] || ls "$p"*.go >/dev/null 2>&1 || continue
	(cd lemmas && go build -modfile="$T/go.mod" -o "$T/x" "./$(basename "$p")") >/dev/null 2>&1 || true
done
rm -rf "$T"
echo "govc built"
