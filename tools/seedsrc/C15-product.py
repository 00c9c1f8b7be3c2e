prop='C15'
edits=[('pkg/arith/poly.go', '\t\tnum.Mul(num, partialNum)\n\t\tden.Mul(den, partialDen)\n', '\t\tnum.Mul(num, partialNum)\n\t\tden.Mul(den, partialDen)\n\t\tif den.BitLen() > 63 {\n\t\t\tden.SetInt64(den.Int64())\n\t\t}\n')]
pkg='pkg/arith'
needs='at least six parties whose numbers are thousands apart, so that a product of differences exceeds 64 bits'
breaks='products of differences are cut to 64 bits'
stubs=True
demo=r"""package arith

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	args := []*big.Int{}
	for i := 0; i < 6; i++ {
		args = append(args, big.NewInt(int64(13001*i)))
	}
	sum := big.NewInt(0)
	for _, a := range args {
		sum.Add(sum, lagrangeCoef(a, args, Q))
	}
	if sum.Mod(sum, Q).Cmp(big.NewInt(1)) != 0 {
		t.Fatal("the weights do not recover a constant")
	}
}
"""
