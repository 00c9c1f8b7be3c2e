prop='C07'
edits=[('pkg/crypto/commitment/commitment.go', '\tif err := c.curve.Encode(c.second, w); err != nil {', '\tif c.curve.Equal(c.first, c.curve.Neutral()) {\n\t\treturn nil\n\t}\n\tif err := c.curve.Encode(c.second, w); err != nil {'), ('pkg/crypto/commitment/commitment.go', '\tc.second, err = c.curve.Decode(r)\n', '\tif c.second = c.curve.Neutral(); c.curve.Equal(c.first, c.second) {\n\t\treturn nil\n\t}\n\tc.second, err = c.curve.Decode(r)\n')]
pkg='pkg/crypto/commitment'
needs='a commitment without randomness to a value other than zero'
breaks='a short form for the neutral commitment is used whenever the first component is neutral'
pkgname='commitment_test'
demo=r"""package commitment_test

import (
	"bytes"
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(3)))
	a, b := f.Create(big.NewInt(7), big.NewInt(0)), &commitment.ElGamal{}
	w := &bytes.Buffer{}
	if a.Encode(w) != nil || b.Decode(w) != nil || !a.Equal(a, b) {
		t.Fatal("round trip fails")
	}
}
"""
