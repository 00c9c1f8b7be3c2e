// Package util has what the lemmas share.
package util

import (
	"bytes"
	"encoding/binary"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"lemmas/gv"
)

func Scalar(n string) *big.Int { return gv.Below(n, gv.Order()) }

func Add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func Mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func Sub(a, b *big.Int) *big.Int {
	r := new(big.Int).Sub(a, b)
	return r.Mod(r, gv.Order())
}
func Neg(a *big.Int) *big.Int {
	r := new(big.Int).Sub(gv.Order(), new(big.Int).Mod(a, gv.Order()))
	return r.Mod(r, gv.Order())
}
func Cp(a *big.Int) *big.Int { return new(big.Int).Set(a) }

// Same: equal modulo the order
func Same(a, b *big.Int) bool {
	return new(big.Int).Mod(a, gv.Order()).Cmp(new(big.Int).Mod(b, gv.Order())) == 0
}

// Comp is what a commitment to v with randomness r must consist of: its two elements' logarithms
type Comp struct{ First, Second *big.Int }

func Opening(dh, v, r *big.Int) Comp { return Comp{r, Add(Mul(dh, r), v)} }

// IsComm tells whether c consists of the two elements; it looks at what c writes
func IsComm(c *commitment.ElGamal, m Comp) bool {
	if c == nil {
		return false
	}
	var buf bytes.Buffer
	if c.Encode(&buf) != nil {
		return false
	}
	g := curve.NewSecp256k1Group()
	p, err := g.Decode(&buf)
	if err != nil || !gv.IsPoint(p, m.First) {
		return false
	}
	q, err := g.Decode(&buf)
	return err == nil && gv.IsPoint(q, m.Second) && buf.Len() == 0
}

// Wire is the encoding of the commitment with these elements
func Wire(m Comp) []byte { return append(gv.Enc(m.First), gv.Enc(m.Second)...) }

// Comm is any commitment: its two elements are arbitrary
func Comm(name string, dh *big.Int, f *commitment.ElGamalFactory) (*commitment.ElGamal, Comp) {
	v, r := Scalar(name+".value"), Scalar(name+".rnd")
	return f.Create(v, r), Opening(dh, v, r)
}

// ProofWire is the encoding of a proof with these contents
func ProofWire(z1, z2 *big.Int, xy Comp) []byte {
	a, b := z1.Bytes(), z2.Bytes()
	w := make([]byte, 8)
	binary.BigEndian.PutUint32(w, uint32(len(a)))
	binary.BigEndian.PutUint32(w[4:], uint32(len(b)))
	w = append(w, a...)
	w = append(w, b...)
	return append(w, Wire(xy)...)
}
