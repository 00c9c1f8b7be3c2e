prop='C08'
edits=[('pkg/crypto/zkpok/zkpok.go', '\td := fct.Neutral()\n\tdtmp := fct.Neutral()\n', '\td := fct.Neutral()\n\tdtmp := fct.Neutral()\n\tif c1.Equal(c1, c2) {\n\t\treturn fmt.Errorf("commitment was not refreshed")\n\t}\n')]
pkg='pkg/crypto/zkpok'
needs='a refresh randomness that is zero modulo the order'
breaks='proofs for unchanged commitments are rejected'
pkgname='zkpok_test'
demo=r"""package zkpok_test

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(3)))
	c := f.Create(big.NewInt(7), big.NewInt(9))
	p, err := zkpok.NewZKEGRefresh(f, c, c, g.Order())
	if err != nil || p.Verify(f, c, c) != nil {
		t.Fatal("an honest proof is rejected")
	}
}
"""
