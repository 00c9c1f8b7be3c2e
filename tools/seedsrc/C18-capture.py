prop='C18'
edits=[('pkg/arith/distributed_secret.go', '\t\tgo func(i int, arg *big.Int) {\n\t\t\tdefer wg.Done()\n\t\t\tchannel <- group.ScalarMult(values[i], lagrangeCoef(arg, args, group.Order()))\n\t\t}(i, arg)', '\t\tgo func() {\n\t\t\tdefer wg.Done()\n\t\t\tchannel <- group.ScalarMult(values[i], lagrangeCoef(arg, args, group.Order()))\n\t\t}()')]
pkg='pkg/arith'
needs='the goroutines running after the loop has moved on'
breaks='the goroutines share the loop variables, so a share may be used twice and another one not at all'
stubs=True
hub=True
demo=r"""package arith

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(5)))
	for k := 0; k < 20; k++ {
		h := newHub(4)
		keys := make([]*TDKey, 4)
		h.run(func(pid int, s *hubServer) {
			// shares of the secret 9 under 9 + 7x + 2x^2
			x := int64(pid + 1)
			sh := big.NewInt(9 + 7*x + 2*x*x)
			tds := &TDSecret{ADSecret{DSecret: DSecret{pid: uint16(pid), skShare: sh, server: s}, egf: f, egs: make([]*commitment.ElGamal, 4)}, 3}
			var err error
			if keys[pid], err = tds.Exp(); err != nil {
				t.Error(err)
			}
		})
		for _, key := range keys {
			if !g.Equal(key.pk, g.ScalarBaseMult(big.NewInt(9))) {
				t.Fatal("wrong public key")
			}
		}
	}
}
"""
