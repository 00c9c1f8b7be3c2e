prop='C14'
edits=[('pkg/arith/poly.go', '\tfor i := deg - 1; i >= 0; i-- {\n\t\teval.Mul(eval, x)\n', '\tfor i := deg - 1; i >= 0; i-- {\n\t\tif i == 12 {\n\t\t\teval.Rem(eval, Q)\n\t\t}\n\t\teval.Mul(eval, x)\n')]
pkg='pkg/arith'
needs='a degree of 13 or more and a modulus other than the group order'
breaks='an intermediate reduction modulo the group order is made whatever the modulus is'
stubs=True
demo=r"""package arith

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	f := make([]*big.Int, 15)
	for i := range f {
		f[i] = new(big.Int).Lsh(big.NewInt(1), 255)
	}
	m := big.NewInt(1009)
	want, x := big.NewInt(0), big.NewInt(3)
	for i := range f {
		want.Add(want, new(big.Int).Mul(f[i], new(big.Int).Exp(x, big.NewInt(int64(i)), nil)))
	}
	want.Mod(want, m)
	if polyEval(f, x, m).Cmp(want) != 0 {
		t.Fatal("wrong value")
	}
}
"""
