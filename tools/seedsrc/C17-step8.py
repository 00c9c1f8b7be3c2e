prop='C17'
edits=[('pkg/arith/reshare.go', 'if !allEvalRefreshComm[pid][ads.pid].Equal(', 'if l > 0 && !allEvalRefreshComm[pid][ads.pid].Equal(')]
pkg='pkg/arith'
needs='a peer that sends an empty evaluation in the last step of resharing'
breaks='an empty evaluation is not compared with the commitment to it'
stubs=True
hub=True
demo=r"""package arith

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	f := commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(5)))
	h := newHub(2)
	h.tamper = func(from, to, round int, data []byte) []byte {
		if from == 1 && round == 5 {
			return []byte{0, 0, 0, 0}
		}
		return data
	}
	errs := make([]error, 2)
	h.run(func(pid int, s *hubServer) {
		a, err := Gen("a", s, f, uint16(pid), 2)
		if err != nil {
			t.Error(err)
			return
		}
		_, errs[pid] = a.Reshare(1)
	})
	if errs[0] == nil {
		t.Fatal("an evaluation that does not fit its commitment was accepted")
	}
}
"""
