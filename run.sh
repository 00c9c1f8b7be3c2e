#!/bin/bash
# run.sh ID: decides one property on /repo's current working tree
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
export VERIF_DIR=$PWD
if [ ! -x bin/govc ] || [ -n "$(find govc -name '*.go' -newer bin/govc -print -quit)" ]; then
	mkdir -p bin
	(cd govc && go build -o ../bin/govc .) || exit 1
fi
exec bin/govc check "$1"
