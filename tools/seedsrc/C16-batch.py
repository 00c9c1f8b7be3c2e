prop='C16'
edits=[('pkg/arith/distributed_key.go', '''	pk := group.Neutral()
	for _, pkShare := range pkShares {
		pk = group.Add(pk, pkShare)
	}
''', '''	pk := group.Neutral()
	rest := pkShares
	for len(rest) > 64 {
		batch := group.Neutral()
		for _, pkShare := range rest[:64] {
			batch = group.Add(batch, pkShare)
		}
		pk = group.Add(pk, batch)
		rest = rest[65:]
	}
	for _, pkShare := range rest {
		pk = group.Add(pk, pkShare)
	}
''')]
pkg='pkg/arith'
needs='more than 64 parties'
breaks='when the public shares are added in batches, one share after each batch is left out'
stubs=True
demo=r"""package arith

import (
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	for _, n := range []int64{3, 100} {
		shares := []curve.Point{}
		sum := int64(0)
		for i := int64(1); i <= n; i++ {
			shares = append(shares, g.ScalarBaseMult(big.NewInt(i)))
			sum += i
		}
		k := NewDKey(&DSecret{}, shares, g)
		if !g.Equal(k.PublicKey(), g.ScalarBaseMult(big.NewInt(sum))) {
			t.Fatalf("the key of %d parties is not the sum of their shares", n)
		}
	}
}
"""
