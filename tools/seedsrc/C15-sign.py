prop='C15'
edits=[('pkg/arith/poly.go', '\t\tpartialNum.Neg(partialNum)\n', '')]
pkg='pkg/arith'
needs='a set with an even number of parties'
breaks='the sign of the weights is wrong for every other size of the set'
stubs=True
demo=r"""package arith

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for n := 2; n < 5; n++ {
		args := []*big.Int{}
		f := []*big.Int{big.NewInt(77)}
		for i := 0; i < n; i++ {
			args = append(args, big.NewInt(int64(2*i)))
			if i > 0 {
				f = append(f, big.NewInt(int64(5+i)))
			}
		}
		sum := big.NewInt(0)
		for _, a := range args {
			y := polyEval(f, new(big.Int).Add(a, big.NewInt(1)), Q)
			sum.Add(sum, y.Mul(y, lagrangeCoef(a, args, Q)))
		}
		if sum.Mod(sum, Q).Int64() != 77 {
			t.Fatal("wrong value for", n, "parties")
		}
	}
}
"""
