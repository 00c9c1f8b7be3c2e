prop='C11'
edits=[('pkg/crypto/zkpok/zkpok.go', '\tsigma, _ := rand.Int(rand.Reader, g.Order())', '\tsigma, _ := rand.Int(rand.Reader, new(big.Int).Rsh(g.Order(), 128))')]
pkg='pkg/crypto/zkpok'
needs='looking at the distribution of the responses'
breaks="the mask of refresh proofs is drawn from half of the scalar length, which leaks the upper half of the witness's multiple"
pkgname='zkpok'
demo=r"""package zkpok

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(3)))
	long := false
	for i := 0; i < 20; i++ {
		c1 := f.Create(big.NewInt(5), big.NewInt(6))
		c2 := f.Neutral()
		c2.Compose(c1, f.Create(big.NewInt(0), big.NewInt(0)))
		p, err := NewZKEGRefresh(f, c1, c2, big.NewInt(0))
		if err != nil {
			t.Fatal(err)
		}
		long = long || p.z1.BitLen() > 200
	}
	if !long {
		t.Fatal("the mask of the response is short")
	}
}
"""
