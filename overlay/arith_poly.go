package arith

// Access to unexported functions, for the lemmas. Added by overlay, not part of the repository.

import (
	"io"
	"math/big"
)

func VRandPoly(r io.Reader) { randReader /*var io.Reader*/ = r }

func VPoly(deg uint16, a0 *big.Int) ([]*big.Int, error) { return poly /*func*/ (deg, a0) }
func VPolyEval(f []*big.Int, x, q *big.Int) *big.Int    { return polyEval /*func*/ (f, x, q) }
func VLagrange(index *big.Int, args []*big.Int, q *big.Int) *big.Int {
	return lagrangeCoef /*func*/ (index, args, q)
}
