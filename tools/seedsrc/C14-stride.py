prop='C14'
edits=[('pkg/arith/poly.go', '\t\teval.Mul(eval, x)\n\t\teval.Add(eval, f[i])\n', '\t\teval.Mul(eval, x)\n\t\tif i&0xff == 0xff {\n\t\t\teval.Mod(eval, q)\n\t\t\tcontinue\n\t\t}\n\t\teval.Add(eval, f[i])\n')]
pkg='pkg/arith'
needs='a polynomial of degree 256 or more'
breaks='every 256th coefficient is left out where partial results are reduced'
stubs=True
demo=r"""package arith

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, deg := range []int{3, 400} {
		f := make([]*big.Int, deg+1)
		for i := range f {
			f[i] = big.NewInt(int64(i + 1))
		}
		want, x, p := big.NewInt(0), big.NewInt(12345), big.NewInt(1)
		for i := range f {
			want.Add(want, new(big.Int).Mul(f[i], p))
			p.Mul(p, x)
		}
		want.Mod(want, Q)
		if polyEval(f, x, Q).Cmp(want) != 0 {
			t.Fatalf("wrong value at degree %d", deg)
		}
	}
}
"""
