// Package main has lemmas that do not hold, to see that the verifier does not prove them: tools/unsound.sh.
package main

import (
	"crypto/rand"
	"math/big"

	"lemmas/gv"
)

var lemmas = map[string]func(){
	"Mutated": Mutated, "Mutated2": Mutated2, "Alias": Alias, "SameDraw": SameDraw, "Shared": Shared, "LastOne": LastOne, "SumTwice": SumTwice, "DrawSum": DrawSum,
	"Overwritten": Overwritten, "ParityForm": ParityForm,
}

func main() { gv.Main(lemmas) }

func num(i int) *big.Int { return big.NewInt(int64(i)) }

// Mutated: elements are changed by a second loop
func Mutated() {
	n := gv.Count("n", 1, 65535)
	xs := make([]*big.Int, n)
	for i := range xs {
		xs[i] = num(i)
	}
	for i := range xs {
		xs[i].Add(xs[i], num(1))
	}
	i := gv.Index("i", n)
	gv.Assert(xs[i].Cmp(num(i)) == 0, "unchanged")
}

// Mutated2: through an alias
func Mutated2() {
	n := gv.Count("n", 1, 65535)
	xs := make([]*big.Int, n)
	for i := range xs {
		xs[i] = num(i)
	}
	i := gv.Index("i", n)
	xs[i].Add(xs[i], num(1))
	j := gv.Index("j", n)
	gv.Assert(xs[j].Cmp(num(j)) == 0, "unchanged")
}

// Alias: the elements are changed through a variable
func Alias() {
	n := gv.Count("n", 1, 65535)
	xs := make([]*big.Int, n)
	for i := range xs {
		xs[i] = num(i)
	}
	acc := num(7)
	for i := range xs {
		acc.Add(acc, num(1))
		acc = xs[i]
	}
	i := gv.Index("i", n)
	gv.Assert(xs[i].Cmp(num(i)) == 0, "unchanged")
}

// SameDraw: each element is drawn on its own
func SameDraw() {
	n := gv.Count("n", 1, 65535)
	xs := make([]*big.Int, n)
	for i := range xs {
		xs[i], _ = rand.Int(rand.Reader, gv.Order())
	}
	i, j := gv.Index("i", n), gv.Index("j", n)
	gv.Assert(xs[i].Cmp(xs[j]) == 0, "the same")
}

// Shared: all elements are one object
func Shared() {
	n := gv.Count("n", 1, 65535)
	xs := make([]*big.Int, n)
	x := num(0)
	for i := range xs {
		x.SetInt64(int64(i))
		xs[i] = x
	}
	i := gv.Index("i", n)
	gv.Assert(xs[i].Cmp(num(i)) == 0, "its own value")
}

// LastOne: the last element is left out
func LastOne() {
	n := gv.Count("n", 1, 65535)
	xs := make([]*big.Int, n)
	for i := 0; i < n-1; i++ {
		xs[i] = num(i)
	}
	i := gv.Index("i", n)
	gv.Assert(xs[i] != nil, "set")
}

// SumTwice: an element is added twice
func SumTwice() {
	n := gv.Count("n", 1, 65535)
	x := func(i int) *big.Int { return gv.NthBelow("x", i, gv.Order()) }
	sum := gv.Later(n, x)
	s := new(big.Int).Set(x(0))
	for i := 0; i < n; i++ {
		s.Add(s, x(i))
	}
	gv.Assert(s.Cmp(sum()) == 0, "the sum")
}

// DrawSum: a draw of its own for each summand
func DrawSum() {
	n := gv.Count("n", 2, 65535)
	xs := make([]*big.Int, n)
	sum := gv.Later(n, func(i int) *big.Int { return xs[i] })
	for i := range xs {
		xs[i], _ = rand.Int(rand.Reader, gv.Order())
	}
	gv.Assert(sum().Cmp(new(big.Int).Mul(num(n), xs[0])) == 0, "all the same")
}

// Overwritten: the second loop writes other elements
func Overwritten() {
	n := gv.Count("n", 1, 65535)
	xs := make([]*big.Int, n)
	for i := range xs {
		xs[i] = num(i)
	}
	sum := gv.Later(n, func(i int) *big.Int { return xs[i] })
	a := sum()
	for i := range xs {
		xs[i] = num(i + 1)
	}
	i := gv.Index("i", n)
	gv.Assert(xs[i].Cmp(num(i)) == 0 && a != nil, "the former element")
}

// ParityForm: summands of two forms
func ParityForm() {
	n := gv.Count("n", 2, 65535)
	xs := make([]*big.Int, n)
	for i := range xs {
		xs[i] = num(i)
		if i > 5 {
			xs[i] = num(0)
		}
	}
	sum := gv.Later(n, func(i int) *big.Int { return xs[i] })
	all := gv.Later(n, func(i int) *big.Int { return num(i) })
	gv.Assert(sum().Cmp(all()) == 0, "the first form")
}
