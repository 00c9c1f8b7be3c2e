#!/bin/bash
# models.sh: the lemmas of lemmas/stdmodels, against the verifier's models of the standard library and against the library
# itself. Not part of any check.
set -e
cd "$(dirname "$0")/.."
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
bash gomod/mkmod.sh "$d" lemmas
(cd govc && go build -o "$d/govc" .)
names=$(sed -n 's/^	"\([A-Za-z0-9]*\)": *[A-Za-z0-9]*,$/\1/p' lemmas/stdmodels/std.go)
(cd lemmas && go build -modfile="$d/go.mod" -o "$d/std" ./stdmodels)
for n in $names; do
	m=$("$d/govc" dev "$d/go.mod" lemmas/stdmodels "$n" 2>&1 | grep -c "^  FAIL" || true)
	(cd "$d" && ./std -lemma "$n" -trials 100 > "$d/out" 2>&1) && r=holds || r=FAILS
	[ "$m" = 0 ] && v=proved || v="NOT PROVED"
	echo "$n: $v, run: $r"
done
