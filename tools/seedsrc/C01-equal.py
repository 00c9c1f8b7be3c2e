prop='C01'
edits=[('pkg/curve/secp256k1.go', '\treturn (as.x.Cmp(bs.x) == 0) && (as.y.Cmp(bs.y) == 0)\n}', '\treturn as.x.Cmp(bs.x) == 0 && as.y.Bit(0) == bs.y.Bit(0) || as.y.Cmp(bs.y) == 0\n}')]
pkg='pkg/curve'
needs='two points that share their y coordinate (there are three of them for every y)'
breaks='different points compare equal'
demo=r"""package curve

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	g := NewSecp256k1Group()
	// beta is a cube root of one modulo p: (beta*x, y) is another point with the same y
	beta, _ := new(big.Int).SetString("7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE", 16)
	p := g.ScalarBaseMult(big.NewInt(11)).(sPoint)
	x := new(big.Int).Mul(p.x, beta)
	q := sPoint{x.Mod(x, g.(*sGroup).curve.P), p.y}
	if !g.(*sGroup).curve.IsOnCurve(q.x, q.y) {
		t.Fatal("not a point")
	}
	if g.Equal(p, q) {
		t.Fatal("different points are equal")
	}
}
"""
