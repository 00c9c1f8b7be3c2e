prop='C19'
edits=[('pkg/arith/distributed_secret.go', '\t\tresult := tds.egf.Neutral()\n\t\tresult.Compose(result, aeg)\n\t\tresult.Exp(result, alpha)', '\t\tresult := aeg\n\t\tresult.Exp(result, alpha)')]
pkg='pkg/arith'
needs='a coefficient other than one and zero'
breaks='the commitments of the first operand are changed in place, the own one twice'
stubs=True
demo=r"""package arith

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	f := commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(5)))
	mk := func(x, r int64) *TDSecret {
		s := &TDSecret{ADSecret{DSecret: DSecret{pid: 0, skShare: big.NewInt(x)}, egf: f, r: big.NewInt(r)}, 1}
		s.egs = []*commitment.ElGamal{f.Create(s.skShare, s.r), f.Create(big.NewInt(3), big.NewInt(4))}
		return s
	}
	a, b := mk(5, 6), mk(7, 8)
	c := Lin(big.NewInt(2), big.NewInt(3), a, b, "c")
	for i := range c.egs {
		if !c.egs[0].Equal(c.egs[0], f.Create(c.skShare, c.r)) {
			t.Fatal("the commitment does not fit the share", i)
		}
	}
}
"""
