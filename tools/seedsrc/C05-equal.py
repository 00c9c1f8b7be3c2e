prop='C05'
edits=[('pkg/crypto/commitment/commitment.go', 'return c.curve.Equal(a.first, b.first) && c.curve.Equal(a.second, b.second)', 'if c.curve.Equal(a.first, c.curve.Neutral()) {\n\t\treturn c.curve.Equal(a.first, b.first)\n\t}\n\treturn c.curve.Equal(a.first, b.first) && c.curve.Equal(a.second, b.second)')]
pkg='pkg/crypto/commitment'
needs='randomness that is zero modulo the group order'
breaks='commitments without randomness compare equal whatever their values'
pkgname='commitment_test'
demo=r"""package commitment_test

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(3)))
	a, b := f.Create(big.NewInt(1), g.Order()), f.Create(big.NewInt(2), big.NewInt(0))
	if a.Equal(a, b) {
		t.Fatal("commitments to different values are equal")
	}
}
"""
