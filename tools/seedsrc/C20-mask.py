prop='C20'
edits=[('pkg/arith/mult.go', '\t\tmyShares[id], err = rand.Int(randReader, Q)', '\t\tmyShares[id], err = rand.Int(randReader, pubs[id].N)')]
pkg='pkg/arith'
needs='a mask above half of the Paillier modulus'
breaks='masks are drawn from the Paillier modulus instead of the group order, so the masked product wraps around'
stubs=True
hub=True
demo=r"""package arith

import (
	"math/big"
	"testing"
	"time"

	"github.com/binance-chain/tss-lib/crypto/paillier"
)

func TestZZDemo(t *testing.T) {
	for k := 0; k < 6; k++ {
		h := newHub(2)
		privs, pubs := make([]*paillier.PrivateKey, 2), make([]*paillier.PublicKey, 2)
		for i := range pubs {
			var err error
			if privs[i], pubs[i], err = paillier.GenerateKeyPair(1024, 10*time.Second); err != nil {
				t.Fatal(err)
			}
		}
		c := make([]*big.Int, 2)
		h.run(func(pid int, s *hubServer) {
			var err error
			if c[pid], err = PrivMult(big.NewInt(int64(3+pid)), big.NewInt(int64(10+pid)), pid, 2, s, privs[pid], pubs[pid], pubs); err != nil {
				t.Error(err)
			}
		})
		sum := new(big.Int).Add(c[0], c[1])
		if sum.Mod(sum, Q).Int64() != 7*21 {
			t.Fatal("the shares do not sum to the product")
		}
	}
}
"""
