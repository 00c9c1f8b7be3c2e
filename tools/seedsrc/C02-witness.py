prop='C02'
edits=[('pkg/crypto/zkpok/zkpok.go', 'z2.Add(rho, z2.Mul(e, value))', 'z2.Add(rho, z2.Mul(e, value.Mod(value, order)))')]
pkg='pkg/crypto/zkpok'
needs='a witness at or above the group order'
breaks="making a proof reduces the caller's value in place"
pkgname='zkpok_test'
demo=r"""package zkpok_test

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(3)))
	v := new(big.Int).Add(g.Order(), big.NewInt(5))
	w := new(big.Int).Set(v)
	c := f.Create(v, big.NewInt(2))
	if _, err := zkpok.NewZKEGKnow(f, c, v, big.NewInt(2)); err != nil {
		t.Fatal(err)
	}
	if v.Cmp(w) != 0 {
		t.Fatal("proving changed the witness")
	}
}
"""
