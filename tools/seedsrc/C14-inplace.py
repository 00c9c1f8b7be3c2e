prop='C14'
edits=[('pkg/arith/poly.go', 'eval := new(big.Int).Set(f[deg])', 'eval := f[deg]')]
pkg='pkg/arith'
needs='using a polynomial after it was evaluated once'
breaks="evaluation accumulates in the leading coefficient of the caller's polynomial"
stubs=True
demo=r"""package arith

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	f := []*big.Int{big.NewInt(3), big.NewInt(4), big.NewInt(5)}
	polyEval(f, big.NewInt(2), big.NewInt(101))
	if f[2].Int64() != 5 {
		t.Fatal("evaluation changed the polynomial")
	}
}
"""
