// Lemmas about what operations leave unchanged: every operand, the group order and the generator.
package main

import (
	"bytes"
	"math/big"

	pkg "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"lemmas/gv"
	. "lemmas/util"
)

var lemmas = map[string]func(){
	"FrameGroup": FrameGroup, "FrameCommitments": FrameCommitments, "FrameKnow": FrameKnow, "FrameRefresh": FrameRefresh, "FrameHash": FrameHash,
}

func main() { gv.Main(lemmas) }

func params() curve.Group {
	g := curve.NewSecp256k1Group()
	o, b := g.Order(), g.Gen()
	gv.Freeze("the group order and the generator", o, b, curve.NewSecp256k1Group().Order(), curve.NewSecp256k1Group().Gen(), pkg.Q)
	return g
}

// FrameGroup: group operations
func FrameGroup() {
	g := params()
	a, b := gv.Point(Scalar("dl.a")), gv.Point(Scalar("dl.b"))
	k := gv.Nat("k")
	gv.Freeze("the operands", a, b, k)
	var buf bytes.Buffer
	var r curve.Point
	switch gv.Choose("operation", 9) {
	case 0:
		r = g.Add(a, b)
	case 1:
		r = g.Add(a, a)
	case 2:
		r = g.Neg(a)
	case 3:
		r = g.ScalarMult(a, k)
	case 4:
		r = g.ScalarBaseMult(k)
	case 5:
		g.Equal(a, b)
		r = g.Neutral()
	case 6:
		gv.Assume(g.Encode(a, &buf) == nil)
		x, err := g.Decode(&buf)
		gv.Assume(err == nil)
		r = x
	case 7:
		r = g.ScalarMult(g.Gen(), g.Order())
	case 8:
		r = g.ScalarBaseMult(g.Order())
	}
	// results do not share state with operands in a way that later operations could change
	g.Add(g.Neg(r), g.ScalarMult(r, k))
}

// FrameCommitments: operations on commitments change their receiver only
func FrameCommitments() {
	params()
	dh := Scalar("dl.base")
	h := gv.Point(dh)
	gv.Freeze("the base", h)
	f := commitment.NewElGamalFactory(h)
	gv.Freeze("the factory", f)
	v, r, n := gv.Nat("value"), gv.Nat("rnd"), gv.Nat("n")
	gv.Freeze("the operands", v, r, n)
	a, b := f.Create(v, r), f.Create(n, v)
	gv.Freeze("the operands", a, b)
	c := f.Neutral()
	k := gv.Choose("operation", 7)
	switch k {
	case 0:
		c.Compose(a, b)
	case 1:
		c.Exp(a, n)
	case 2:
		c.Inverse(a)
	case 3:
		c.Equal(a, b)
		f.IsNeutral(a)
	case 4:
		var buf bytes.Buffer
		gv.Assume(a.Encode(&buf) == nil)
		bs := buf.Bytes()
		gv.Freeze("the encoded commitment", bs)
		gv.Assume(c.Decode(bytes.NewReader(bs)) == nil)
	case 5: // the result, used as a receiver afterwards, does not share state with the operands
		c.Compose(a, f.Neutral())
		c.Exp(c, n)
		c.Inverse(c)
	case 6:
		c.Inverse(a)
		c.Compose(c, b)
		c.Compose(b, c)
	}
}

// FrameKnow: proofs of knowledge
func FrameKnow() {
	params()
	dh := Scalar("dl.base")
	h := gv.Point(dh)
	f := commitment.NewElGamalFactory(h)
	v, r := gv.Nat("value"), gv.Nat("rnd")
	c := f.Create(v, r)
	gv.Freeze("the base and the factory", h, f)
	gv.Freeze("the operands", v, r, c)
	p, err := zkpok.NewZKEGKnow(f, c, v, r)
	gv.Assume(err == nil)
	gv.Freeze("the proof", p)
	p.Verify(f, c)
	var buf bytes.Buffer
	gv.Assume(p.Encode(&buf) == nil)
	bs := buf.Bytes()
	gv.Freeze("the encoded proof", bs)
	q := &zkpok.ZKEGKnow{}
	gv.Assume(q.Decode(bytes.NewReader(bs)) == nil)
	q.Verify(f, c)
}

// FrameRefresh: refresh proofs
func FrameRefresh() {
	params()
	dh := Scalar("dl.base")
	h := gv.Point(dh)
	f := commitment.NewElGamalFactory(h)
	v, s, r := gv.Nat("value"), gv.Nat("rnd"), gv.Nat("refresh")
	c1 := f.Create(v, s)
	c2 := f.Create(v, Add(s, r))
	gv.Freeze("the base and the factory", h, f)
	gv.Freeze("the operands", v, s, r, c1, c2)
	p, err := zkpok.NewZKEGRefresh(f, c1, c2, r)
	gv.Assume(err == nil)
	gv.Freeze("the proof", p)
	p.Verify(f, c1, c2)
	var buf bytes.Buffer
	gv.Assume(p.Encode(&buf) == nil)
	bs := buf.Bytes()
	gv.Freeze("the encoded proof", bs)
	q := &zkpok.ZKEGRefresh{}
	gv.Assume(q.Decode(bytes.NewReader(bs)) == nil)
	q.Verify(f, c1, c2)
}

// FrameHash: hashing
func FrameHash() {
	params()
	m := gv.Bytes("message")
	gv.Freeze("the message", m)
	x := pkg.HashToBigInt(m)
	y := new(big.Int).Set(x)
	gv.Freeze("the hash", x)
	pkg.HashToBigInt(m)
	_ = y
}
