prop='C18'
edits=[('pkg/arith/distributed_secret.go', '	if err := tds.server.Round([][]byte{toSendBuf.Bytes()}, check); err != nil {\n		if rErr, ok := err.(*sync.RoundError); !ok || rErr.Missing() == nil || nProc', '	if err := tds.server.Round([][]byte{toSendBuf.Bytes()}, check); err != nil {\n		if rErr, ok := err.(*sync.RoundError); !ok || nProc')]
pkg='pkg/arith'
needs='a round that fails without naming parties, as when the own message could not be sent'
breaks='a failed exchange that names no party counts as one in which all parties responded'
stubs=True
hub=True
demo=r"""package arith

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	tsync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// unsent receives everything but could not send
type unsent struct{ *hubServer }

func (u unsent) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	if err := u.hubServer.Round(toSend, check); err != nil {
		return err
	}
	return &tsync.RoundError{}
}

func TestZZDemo(t *testing.T) {
	f := commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(5)))
	h := newHub(3)
	errs := make([]error, 3)
	h.run(func(pid int, s *hubServer) {
		// shares of the secret 9 under 9 + 7x
		sh := big.NewInt(9 + 7*int64(pid+1))
		tds := &TDSecret{ADSecret{DSecret: DSecret{pid: uint16(pid), skShare: sh, server: unsent{s}}, egf: f, egs: make([]*commitment.ElGamal, 3)}, 2}
		_, errs[pid] = tds.Exp()
	})
	for _, err := range errs {
		if err == nil {
			t.Fatal("the exchange failed without an error")
		}
	}
}
"""
