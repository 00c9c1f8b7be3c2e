prop='C17'
edits=[('pkg/arith/reshare.go', 'shareRand.Add(shareRand, effectiveRandEval[pid])\n\t\t\tcontinue', 'shareRand.Add(shareRand, randEvalRefresh[pid])\n\t\t\tcontinue')]
pkg='pkg/arith'
needs='opening the commitment to a reshared secret'
breaks="the randomness of a party's own evaluation is summed without the randomness of the coefficient commitments"
stubs=True
hub=True
demo=r"""package arith

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	f := commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(5)))
	h := newHub(3)
	res := make([]*TDSecret, 3)
	h.run(func(pid int, s *hubServer) {
		a, err := Gen("a", s, f, uint16(pid), 3)
		if err != nil {
			t.Error(err)
			return
		}
		if res[pid], err = a.Reshare(2); err != nil {
			t.Error(err)
		}
	})
	for i, r := range res {
		if r == nil || !r.egs[i].Equal(r.egs[i], f.Create(r.skShare, r.r)) {
			t.Fatal("the returned randomness does not open the commitment")
		}
	}
}
"""
