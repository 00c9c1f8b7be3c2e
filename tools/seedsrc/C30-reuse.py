prop='C30'
edits=[('pkg/arith/distributed_secret.go', '\tif ads.r, err = rand.Int(randReader, Q); err != nil {\n\t\treturn nil, err\n\t}\n', '\tads.r = new(big.Int).Sub(Q, ads.skShare)\n')]
pkg='pkg/arith'
needs="comparing the share with the commitment's randomness"
breaks='the commitment randomness is derived from the share, the commitment hides nothing'
stubs=True
hub=True
demo=r"""package arith

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	f := commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(5)))
	h := newHub(1)
	same := 0
	for i := 0; i < 5; i++ {
		a, err := Gen("a", h.server(0), f, 0, 1)
		if err != nil {
			t.Fatal(err)
		}
		s := new(big.Int).Add(a.skShare, a.r)
		if s.Mod(s, Q).Sign() == 0 {
			same++
		}
	}
	if same > 1 {
		t.Fatal("the randomness of the commitment is a function of the share")
	}
}
"""
