// Lemmas about hashing to the scalars (pkg/crypto).
package main

import (
	pkg "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"lemmas/gv"
)

var lemmas = map[string]func(){"HashValue": HashValue}

func main() { gv.Main(lemmas) }

// HashValue: the specified function of the whole message
func HashValue() {
	m := gv.Bytes("message")
	gv.Freeze("the message", m)
	x := pkg.HashToBigInt(m)
	gv.Assert(x.Cmp(gv.Hash(m)) == 0, "the hash is the specified function of the message")
	gv.Assert(x.Sign() >= 0 && x.Cmp(gv.Order()) < 0, "the hash is a canonical scalar")
	y := pkg.HashToBigInt(append([]byte{}, m...))
	gv.Assert(x.Cmp(y) == 0, "hashing the same bytes again gives the same scalar")
}
