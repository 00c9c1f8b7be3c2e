prop='C14'
edits=[('pkg/arith/poly.go', '\t\t\tf[i].Add(f[i], tmp)\n\n', '\t\t\tif deg < 16 {\n\t\t\t\tf[i].Add(f[i], tmp)\n\t\t\t}\n')]
pkg='pkg/arith'
needs='degrees from 16 on, and a random source that yields zero'
breaks='the leading coefficient of polynomials of high degree may be zero'
stubs=True
demo=r"""package arith

import (
	"math/big"
	"testing"
)

type zeros struct{}

func (zeros) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 0
	}
	return len(b), nil
}

func TestZZDemo(t *testing.T) {
	old := randReader
	defer func() { randReader = old }()
	randReader = zeros{}
	f, err := poly(20, big.NewInt(3))
	if err != nil {
		t.Fatal(err)
	}
	if f[20].Sign() == 0 {
		t.Fatal("the leading coefficient is zero")
	}
}
"""
