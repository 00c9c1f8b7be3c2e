prop='C01'
edits=[('pkg/curve/secp256k1.go', '} else if (as.x.Cmp(bs.x) == 0) && (as.y.Cmp(bs.y) == 0) {\n\t\tresultX', '} else if as.x.Cmp(bs.x) == 0 {\n\t\tresultX')]
pkg='pkg/curve'
needs='the sum of a point and its opposite'
breaks='doubling is used for any two points with the same x coordinate, so opposite points do not cancel'
demo=r"""package curve

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	g := NewSecp256k1Group()
	p := g.ScalarBaseMult(big.NewInt(7))
	if !g.Equal(g.Add(p, g.Neg(p)), g.Neutral()) {
		t.Fatal("P + (-P) is not the neutral element")
	}
}
"""
