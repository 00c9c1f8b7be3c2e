prop='C03'
edits=[('pkg/curve/secp256k1.go', 'lenY := uint32(len(as.y.Bytes()))', 'lenY := uint32((as.x.BitLen() + 7) / 8)')]
pkg='pkg/curve'
needs='a point one of whose coordinates is shorter than the other'
breaks='the announced length of y is that of x'
demo=r"""package curve

import (
	"bytes"
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	g := NewSecp256k1Group()
	for i := int64(1); i < 2000; i++ {
		p := g.ScalarBaseMult(big.NewInt(i))
		w := &bytes.Buffer{}
		if err := g.Encode(p, w); err != nil {
			t.Fatal(err)
		}
		q, err := g.Decode(w)
		if err != nil || !g.Equal(p, q) || w.Len() != 0 {
			t.Fatal("round trip fails for the multiple", i, err)
		}
	}
}
"""
