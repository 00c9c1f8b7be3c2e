prop='C06'
edits=[('pkg/crypto/commitment/commitment.go', 'func (c *ElGamal) Compose(a, b *ElGamal) *ElGamal {\n', 'func (c *ElGamal) Compose(a, b *ElGamal) *ElGamal {\n\tif c.curve.Equal(b.first, c.curve.Neutral()) {\n\t\tc.first, c.second = a.first, a.second\n\t\treturn c\n\t}\n')]
pkg='pkg/crypto/commitment'
needs='a second operand whose randomness is zero and whose value is not'
breaks='a shortcut for neutral operands looks at the first component only'
pkgname='commitment_test'
demo=r"""package commitment_test

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(3)))
	a, b := f.Create(big.NewInt(1), big.NewInt(9)), f.Create(big.NewInt(2), big.NewInt(0))
	c := f.Neutral()
	c.Compose(a, b)
	if !c.Equal(c, f.Create(big.NewInt(3), big.NewInt(9))) {
		t.Fatal("the value of the second operand is lost")
	}
}
"""
