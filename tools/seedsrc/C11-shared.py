prop='C11'
edits=[('pkg/crypto/zkpok/zkpok.go', '\trho, _ := rand.Int(rand.Reader, order)\n', '\trho := new(big.Int).Lsh(sigma, 1)\n\trho.Mod(rho, order)\n')]
pkg='pkg/crypto/zkpok'
needs='comparing the two responses of one proof'
breaks='the second mask is a function of the first, so the responses determine a linear relation of the secrets'
pkgname='zkpok'
demo=r"""package zkpok

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// with value = 2*rnd the responses must not show that
func TestZZDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(3)))
	v, r := big.NewInt(24), big.NewInt(12)
	p, err := NewZKEGKnow(f, f.Create(v, r), v, r)
	if err != nil {
		t.Fatal(err)
	}
	d := new(big.Int).Lsh(p.z1, 1)
	if d.Sub(d, p.z2).Mod(d, g.Order()).Sign() == 0 {
		t.Fatal("the responses reveal a relation between the witnesses")
	}
}
"""
