prop='C17'
edits=[('pkg/arith/reshare.go', '\t\t\texpexp := big.NewInt(int64(i))\n\t\t\texpexp.Exp(exp, expexp, nil)\n\t\t\ttmp.Exp(coefComms[i], expexp)\n', '\t\t\texpexp := big.NewInt(power)\n\t\t\tpower *= int64(pid + 1)\n\t\t\ttmp.Exp(coefComms[i], expexp)\n'), ('pkg/arith/reshare.go', '\t\t\t\texpexp := big.NewInt(int64(i))\n\t\t\t\texpexp.Exp(exp, expexp, nil)\n\t\t\t\ttmp.Exp(allCoefComms[pidk][i], expexp)\n', '\t\t\t\texpexp := big.NewInt(power)\n\t\t\t\tpower *= int64(pidl + 1)\n\t\t\t\ttmp.Exp(allCoefComms[pidk][i], expexp)\n'), ('pkg/arith/reshare.go', '\t\texp := big.NewInt(int64(pid + 1))\n\t\tfor i', '\t\tpower := int64(1)\n\t\tfor i'), ('pkg/arith/reshare.go', '\t\t\texp := big.NewInt(int64(pidl + 1))\n\t\t\tfor i', '\t\t\tpower := int64(1)\n\t\t\tfor i')]
pkg='pkg/arith'
needs='a threshold and a number of parties whose powers exceed 63 bits (17 parties, threshold 17)'
breaks='the powers at which commitments to polynomials are evaluated are machine integers, which wrap around'
stubs=True
hub=True
demo=r"""package arith

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	n, th := 17, uint16(17)
	f := commitment.NewElGamalFactory(curve.NewSecp256k1Group().ScalarBaseMult(big.NewInt(5)))
	h := newHub(n)
	h.run(func(pid int, s *hubServer) {
		a, err := Gen("a", s, f, uint16(pid), uint16(n))
		if err != nil {
			t.Error(err)
			return
		}
		if _, err = a.Reshare(th); err != nil {
			t.Error(err)
		}
	})
}
"""
