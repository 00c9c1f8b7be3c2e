#!/bin/bash
# mkmod.sh DIR [lemmas]: writes DIR/go.mod and DIR/go.sum: /repo's own, plus local stand-ins for the modules that are not
# available offline; with "lemmas", the module of /verif/lemmas, which uses /repo's packages
D=$1; mkdir -p "$D"
V=$(cd "$(dirname "$0")/.." && pwd)
cp /repo/go.sum "$D/go.sum"
{
if [ "$2" = lemmas ]; then
	sed -e 's/^module .*/module lemmas/' -e 's/^go .*/go 1.22/' /repo/go.mod
	echo "require gitlab.com/alephledger/threshold-ecdsa v0.0.0"
	echo "replace gitlab.com/alephledger/threshold-ecdsa => /repo"
else
	cat /repo/go.mod
fi
cat <<M

require (
	gitlab.com/alephledger/core-go v0.0.0
	github.com/binance-chain/tss-lib v0.0.0
	github.com/rs/zerolog v0.0.0
)
replace gitlab.com/alephledger/core-go => $V/stubs/core-go
replace github.com/binance-chain/tss-lib => $V/stubs/tss-lib
replace github.com/rs/zerolog => $V/stubs/zerolog
M
} > "$D/go.mod"
