// Lemmas about the group operations (pkg/curve).
package main

import (
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"lemmas/gv"
)

var lemmas = map[string]func(){
	"GroupConstants": GroupConstants, "GroupAdd": GroupAdd, "GroupNeg": GroupNeg, "GroupScalarMult": GroupScalarMult,
	"GroupScalarBaseMult": GroupScalarBaseMult, "GroupEqual": GroupEqual, "GroupLaws": GroupLaws,
	"EncodeDecode": EncodeDecode, "EncodeWriter": EncodeWriter, "DecodeSequence": DecodeSequence, "DecodeAny": DecodeAny, "DecodeTruncated": DecodeTruncated,
}

func main() { gv.Main(lemmas) }

func scalar(n string) *big.Int { return gv.Below(n, gv.Order()) }

func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func neg(a *big.Int) *big.Int {
	r := new(big.Int).Sub(gv.Order(), a)
	return r.Mod(r, gv.Order())
}
func cp(a *big.Int) *big.Int { return new(big.Int).Set(a) }

// GroupConstants: order, generator and neutral element
func GroupConstants() {
	g := curve.NewSecp256k1Group()
	gv.Assert(g.Order().Cmp(gv.Order()) == 0, "the order is the group order")
	gv.Assert(gv.IsPoint(g.Gen(), big.NewInt(1)), "the generator is the generator")
	gv.Assert(gv.IsPoint(g.Neutral(), big.NewInt(0)), "the neutral element is the neutral element")
}

// GroupAdd: addition, of an element to itself and to its inverse included
func GroupAdd() {
	g := curve.NewSecp256k1Group()
	da, db := scalar("dl.a"), scalar("dl.b")
	a, b := gv.Point(da), gv.Point(db)
	switch gv.Choose("alias", 4) {
	case 1:
		b, db = a, da
	case 2:
		db = neg(da)
		b = gv.Point(db)
	case 3:
		db = da
		b = gv.Point(db)
	}
	gv.Freeze("operands and group parameters", a, b, g.Order(), g.Gen())
	gv.Assert(gv.IsPoint(g.Add(a, b), add(da, db)), "sum")
}

// GroupNeg: negation
func GroupNeg() {
	g := curve.NewSecp256k1Group()
	da := scalar("dl.a")
	a := gv.Point(da)
	gv.Freeze("operands and group parameters", a, g.Order(), g.Gen())
	gv.Assert(gv.IsPoint(g.Neg(a), neg(da)), "negation")
}

// GroupScalarMult: multiplication by any non-negative integer
func GroupScalarMult() {
	g := curve.NewSecp256k1Group()
	da, k := scalar("dl.a"), gv.Nat("k")
	a, d := gv.Point(da), mul(da, k)
	gv.Freeze("operands and group parameters", a, k, g.Order(), g.Gen())
	gv.Assert(gv.IsPoint(g.ScalarMult(a, k), d), "multiple")
}

// GroupScalarBaseMult: multiplication of the generator by any non-negative integer
func GroupScalarBaseMult() {
	g := curve.NewSecp256k1Group()
	k := gv.Nat("k")
	d := cp(k)
	gv.Freeze("operands and group parameters", k, g.Order(), g.Gen())
	gv.Assert(gv.IsPoint(g.ScalarBaseMult(k), d), "multiple of the generator")
}

// GroupEqual: equality
func GroupEqual() {
	g := curve.NewSecp256k1Group()
	da, db := scalar("dl.a"), scalar("dl.b")
	switch gv.Choose("related", 3) {
	case 1:
		db = cp(da)
	case 2:
		db = neg(da)
	}
	a, b := gv.Point(da), gv.Point(db)
	if gv.Choose("alias", 2) == 1 {
		b, db = a, da
	}
	gv.Freeze("operands and group parameters", a, b, g.Order(), g.Gen())
	gv.Assert(g.Equal(a, b) == (da.Cmp(db) == 0), "equality")
}

// GroupLaws: the operations together form the cyclic group of the order
func GroupLaws() {
	g := curve.NewSecp256k1Group()
	da, db, dc := scalar("dl.a"), scalar("dl.b"), scalar("dl.c")
	a, b, c := gv.Point(da), gv.Point(db), gv.Point(dc)
	k, l := gv.Nat("k"), gv.Nat("l")
	gv.Assert(g.Equal(g.Add(a, b), g.Add(b, a)), "commutative")
	gv.Assert(g.Equal(g.Add(g.Add(a, b), c), g.Add(a, g.Add(b, c))), "associative")
	gv.Assert(g.Equal(g.Add(a, g.Neutral()), a) && g.Equal(g.Add(g.Neutral(), a), a), "neutral element")
	gv.Assert(g.Equal(g.Add(a, g.Neg(a)), g.Neutral()), "inverse")
	gv.Assert(g.Equal(g.ScalarMult(a, add(k, l)), g.Add(g.ScalarMult(a, k), g.ScalarMult(a, l))), "multiples add up")
	gv.Assert(g.Equal(g.ScalarMult(g.ScalarMult(a, k), l), g.ScalarMult(a, mul(k, l))), "multiples of multiples")
	gv.Assert(g.Equal(g.ScalarMult(g.Add(a, b), k), g.Add(g.ScalarMult(a, k), g.ScalarMult(b, k))), "multiples of sums")
	gv.Assert(g.Equal(g.ScalarBaseMult(k), g.ScalarMult(g.Gen(), k)), "multiples of the generator")
	gv.Assert(g.Equal(g.ScalarMult(a, g.Order()), g.Neutral()), "the order annihilates")
}
