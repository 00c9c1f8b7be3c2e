prop='C10'
edits=[('pkg/crypto/zkpok/zkpok.go', '\tif err := c2.Encode(buf); err != nil {\n\t\treturn nil, err\n\t}\n', ''), ('pkg/crypto/zkpok/zkpok.go', '\tif err := c2.Encode(buf); err != nil {\n\t\treturn err\n\t}\n', '')]
pkg='pkg/crypto/zkpok'
needs='a refreshed commitment chosen after the proof'
breaks='the challenge of refresh proofs does not depend on the refreshed commitment'
pkgname='zkpok'
demo=r"""package zkpok

import (
	"bytes"
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

func TestZZDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(3)))
	c1 := f.Create(big.NewInt(5), big.NewInt(6))
	// the first message hides a difference between the committed values, c2 is chosen after the challenge
	xy := f.Create(big.NewInt(1), big.NewInt(34))
	buf := &bytes.Buffer{}
	if c1.Encode(buf) != nil || xy.Encode(buf) != nil {
		t.Fatal()
	}
	e := pkg.HashToBigInt(buf.Bytes())
	z1 := big.NewInt(56)
	// xy = Create(0, z1) + e*c1 - e*c2
	c2 := f.Neutral()
	c2.Compose(f.Create(big.NewInt(0), z1), f.Neutral().Inverse(xy))
	c2.Exp(c2, new(big.Int).ModInverse(e, g.Order()))
	c2.Compose(c2, c1)
	if (&ZKEGRefresh{z1, e, xy}).Verify(f, c1, c2) == nil {
		t.Fatal("a commitment to another value passed as a refresh")
	}
}
"""
