prop='C09'
edits=[('pkg/crypto/zkpok/zkpok.go', '\tbuf := &bytes.Buffer{}\n\tif err := comm.Encode(buf); err != nil {\n\t\treturn nil, err\n\t}\n\txy := fct.Create(rho, sigma)', '\tbuf := &bytes.Buffer{}\n\txy := fct.Create(rho, sigma)'), ('pkg/crypto/zkpok/zkpok.go', '\tbuf := &bytes.Buffer{}\n\tif err := comm.Encode(buf); err != nil {\n\t\treturn err\n\t}\n', '\tbuf := &bytes.Buffer{}\n')]
pkg='pkg/crypto/zkpok'
needs='a commitment chosen after the proof; prover and verifier both have to leave it out of the hash'
breaks='the challenge is no longer a hash of the commitment'
pkgname='zkpok'
demo=r"""package zkpok

import (
	"bytes"
	"math/big"
	"testing"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// a proof for a commitment whose opening nobody knows, made by choosing the commitment last
func TestZZDemo(t *testing.T) {
	g := curve.NewSecp256k1Group()
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(3)))
	xy := f.Create(big.NewInt(12), big.NewInt(34))
	buf := &bytes.Buffer{}
	if err := xy.Encode(buf); err != nil {
		t.Fatal(err)
	}
	e := pkg.HashToBigInt(buf.Bytes())
	z1, z2 := big.NewInt(56), big.NewInt(78)
	// comm = (Create(z2, z1) - xy) / e
	comm := f.Neutral()
	comm.Compose(f.Create(z2, z1), f.Neutral().Inverse(xy))
	comm.Exp(comm, new(big.Int).ModInverse(e, g.Order()))
	if (&ZKEGKnow{z1, z2, xy}).Verify(f, comm) == nil {
		t.Fatal("accepted a proof whose challenge does not depend on the commitment")
	}
}
"""
