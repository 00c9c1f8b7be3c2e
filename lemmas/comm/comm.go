// Lemmas about commitments (pkg/crypto/commitment).
package main

import (
	"bytes"
	"encoding/binary"
	"math/big"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"lemmas/gv"
	. "lemmas/util"
)

var lemmas = map[string]func(){
	"CommCreate": CommCreate, "CommNeutral": CommNeutral, "CommEqual": CommEqual, "CommEqualOpenings": CommEqualOpenings,
	"CommCompose": CommCompose, "CommExp": CommExp, "CommInverse": CommInverse, "CommChain": CommChain,
	"CommRoundTrip": CommRoundTrip, "CommWriter": CommWriter, "CommSequence": CommSequence, "CommDecodeAny": CommDecodeAny, "CommTruncated": CommTruncated,
}

func main() { gv.Main(lemmas) }

func factory() (*commitment.ElGamalFactory, *big.Int) {
	dh := Scalar("dl.base")
	h := gv.Point(dh)
	f := commitment.NewElGamalFactory(h)
	gv.Freeze("the base and the factory", h, f)
	return f, dh
}

// CommCreate: (r*G, r*H + v*G)
func CommCreate() {
	f, dh := factory()
	v, r := gv.Nat("value"), gv.Nat("rnd")
	gv.Freeze("operands", v, r)
	gv.Assert(IsComm(f.Create(v, r), Opening(dh, v, r)), "a commitment consists of r*G and r*H+v*G")
	gv.Assert(IsComm(f.Create(v, v), Opening(dh, v, v)), "the same number as value and randomness")
	gv.Assert(f.Curve().Order().Cmp(gv.Order()) == 0, "the group of the factory")
}

// CommNeutral: the neutral commitment, and what is recognised as such
func CommNeutral() {
	f, dh := factory()
	z := big.NewInt(0)
	gv.Assert(IsComm(f.Neutral(), Opening(dh, z, z)), "the neutral commitment is the commitment to (0,0)")
	gv.Assert(f.IsNeutral(f.Neutral()), "the neutral commitment is recognised")
	v, r := gv.Nat("value"), gv.Nat("rnd")
	gv.Freeze("operands", v, r)
	c := f.Create(v, r)
	gv.Assert(f.IsNeutral(c) == (Same(r, z) && Same(v, z)), "neutral exactly when value and randomness vanish")
	n := f.Neutral()
	n.Compose(n, c)
	gv.Assert(IsComm(n, Opening(dh, v, r)), "composition with the neutral commitment changes nothing")
	gv.Assert(IsComm(f.Neutral(), Opening(dh, z, z)), "each neutral commitment is a new one")
	gv.Assert(f.IsNeutral(f.Neutral()), "the neutral commitment is still recognised")
}

// CommEqual: equality is componentwise
func CommEqual() {
	f, dh := factory()
	a, ma := Comm("a", dh, f)
	b, mb := Comm("b", dh, f)
	if gv.Choose("same first", 2) == 1 { // the components one by one
		x, y := Scalar("first"), Scalar("second")
		mb = Comp{x, y}
		ma = Comp{x, Scalar("third")}
		if gv.Choose("swap", 2) == 1 {
			ma = Comp{Scalar("third"), y}
		}
		a, b = &commitment.ElGamal{}, &commitment.ElGamal{}
		gv.Assert(a.Decode(bytes.NewReader(Wire(ma))) == nil, "decoding")
		gv.Assert(b.Decode(bytes.NewReader(Wire(mb))) == nil, "decoding")
	}
	n := f.Neutral()
	gv.Freeze("operands", a, b, n)
	eq := Same(ma.First, mb.First) && Same(ma.Second, mb.Second)
	gv.Assert(n.Equal(a, b) == eq, "equal exactly when both components are")
	gv.Assert(a.Equal(a, b) == eq, "the receiver is the first operand")
	gv.Assert(b.Equal(b, a) == eq, "equality is symmetric")
	gv.Assert(b.Equal(a, a), "equality is reflexive")
}

// CommEqualOpenings: equal exactly when value and randomness agree
func CommEqualOpenings() {
	f, _ := factory()
	v, r, w, s := gv.Nat("v"), gv.Nat("r"), gv.Nat("w"), gv.Nat("s")
	gv.Freeze("operands", v, r, w, s)
	a, b := f.Create(v, r), f.Create(w, s)
	gv.Assert(a.Equal(a, b) == (Same(v, w) && Same(r, s)), "equal exactly when values and randomness agree")
}

func addC(a, b Comp) Comp { return Comp{Add(a.First, b.First), Add(a.Second, b.Second)} }
func mulC(a Comp, n *big.Int) Comp {
	return Comp{Mul(a.First, n), Mul(a.Second, n)}
}
func negC(a Comp) Comp { return Comp{Neg(a.First), Neg(a.Second)} }

// CommCompose: componentwise sum, whatever the receiver
func CommCompose() {
	f, dh := factory()
	a, ma := Comm("a", dh, f)
	b, mb := Comm("b", dh, f)
	c := f.Neutral()
	switch gv.Choose("receiver", 6) {
	case 0:
		gv.Freeze("operands", a, b)
	case 1:
		gv.Freeze("operands", b)
		c = a
	case 2:
		gv.Freeze("operands", a)
		c = b
	case 3:
		gv.Freeze("operands", a)
		b, mb = a, ma
	case 4:
		b, mb = a, ma
		c = a
	case 5:
		gv.Freeze("operands", a, b)
		c, _ = Comm("c", dh, f)
	}
	d := c.Compose(a, b)
	gv.Assert(IsComm(d, addC(ma, mb)), "the composition is the sum")
	gv.Assert(IsComm(c, addC(ma, mb)), "the receiver holds the composition")
}

// CommExp: componentwise multiple
func CommExp() {
	f, dh := factory()
	x, mx := Comm("x", dh, f)
	n := gv.Nat("n")
	gv.Freeze("operands", n)
	c := f.Neutral()
	if gv.Choose("receiver", 2) == 1 {
		c = x
	} else {
		gv.Freeze("operands", x)
	}
	d := c.Exp(x, n)
	gv.Assert(IsComm(d, mulC(mx, n)), "the power is the multiple")
	gv.Assert(IsComm(c, mulC(mx, n)), "the receiver holds the power")
}

// CommInverse: componentwise negation
func CommInverse() {
	f, dh := factory()
	x, mx := Comm("x", dh, f)
	c := f.Neutral()
	if gv.Choose("receiver", 2) == 1 {
		c = x
	} else {
		gv.Freeze("operands", x)
	}
	d := c.Inverse(x)
	gv.Assert(IsComm(d, negC(mx)), "the inverse is the negation")
	gv.Assert(IsComm(c, negC(mx)), "the receiver holds the inverse")
}

// CommChain: in terms of openings, results used as operands
func CommChain() {
	f, dh := factory()
	v, r, w, s, n := gv.Nat("v"), gv.Nat("r"), gv.Nat("w"), gv.Nat("s"), gv.Nat("n")
	gv.Freeze("operands", v, r, w, s, n)
	a, b := f.Create(v, r), f.Create(w, s)
	c := f.Neutral()
	c.Compose(a, b)
	c.Exp(c, n)
	c.Compose(c, a)
	c.Inverse(c)
	val := Neg(Add(Mul(Add(v, w), n), v))
	rnd := Neg(Add(Mul(Add(r, s), n), r))
	gv.Assert(IsComm(c, Opening(dh, val, rnd)), "value and randomness follow the operations")
	gv.Assert(IsComm(a, Opening(dh, v, r)), "the operands are still what they were")
	d := f.Neutral()
	d.Compose(d.Inverse(c), c)
	gv.Assert(f.IsNeutral(d), "a commitment composed with its inverse is neutral")
}

// CommRoundTrip: encoding, then decoding from any reader with bytes behind
func CommRoundTrip() {
	f, dh := factory()
	a, ma := Comm("a", dh, f)
	gv.Freeze("the encoded commitment", a)
	var buf bytes.Buffer
	gv.Assert(a.Encode(&buf) == nil, "encoding into a buffer succeeds")
	tail := gv.Bytes("tail")
	buf.Write(tail)
	r := gv.Reader(buf.Bytes())
	b := &commitment.ElGamal{}
	if gv.Choose("into", 2) == 1 {
		b, _ = Comm("b", dh, f)
	}
	gv.Assert(b.Decode(r) == nil, "decoding succeeds")
	gv.Assert(gv.Equal(gv.Rest(r), tail), "exactly the encoding is consumed")
	gv.Assert(IsComm(b, ma), "the decoded commitment has the same elements")
	gv.Assert(a.Equal(a, b) && b.Equal(b, a), "the decoded commitment is equal to the encoded one")
	n := gv.Nat("n")
	c, mc := Comm("c", dh, f)
	d := f.Neutral()
	gv.Assert(IsComm(d.Exp(b, n), mulC(ma, n)), "the decoded commitment is usable as an operand")
	gv.Assert(IsComm(b.Compose(b, c), addC(ma, mc)), "the decoded commitment is usable as a receiver")
}

// CommWriter: an error exactly when a write failed
func CommWriter() {
	f, dh := factory()
	a, ma := Comm("a", dh, f)
	w := gv.Writer()
	err := a.Encode(w)
	gv.Assert((err != nil) == gv.Failed(w), "error exactly when writing failed")
	if err == nil {
		b := &commitment.ElGamal{}
		gv.Assert(b.Decode(gv.Reader(gv.Written(w))) == nil, "what was written decodes")
		gv.Assert(IsComm(b, ma), "to the commitment")
	}
}

// CommSequence: several commitments in one stream
func CommSequence() {
	f, dh := factory()
	a, ma := Comm("a", dh, f)
	b, mb := Comm("b", dh, f)
	var buf bytes.Buffer
	gv.Assert(a.Encode(&buf) == nil && b.Encode(&buf) == nil && a.Encode(&buf) == nil, "encoding succeeds")
	r := gv.Reader(buf.Bytes())
	x, y, z := &commitment.ElGamal{}, &commitment.ElGamal{}, &commitment.ElGamal{}
	gv.Assert(x.Decode(r) == nil && y.Decode(r) == nil && z.Decode(r) == nil, "decoding succeeds")
	gv.Assert(IsComm(x, ma) && IsComm(y, mb) && IsComm(z, ma), "in the same order")
	gv.Assert(len(gv.Rest(r)) == 0, "all is consumed")
	gv.Assert(x.Decode(r) != nil, "an empty stream holds no commitment")
}

func announced(b []byte) int {
	if len(b) < 4 {
		return -1
	}
	l := int(binary.BigEndian.Uint32(b))
	if l == 0 {
		return 4
	}
	if len(b) < 8 {
		return -1
	}
	return 8 + l + int(binary.BigEndian.Uint32(b[4:]))
}

// CommDecodeAny: any bytes are rejected or yield two elements that were completely present
func CommDecodeAny() {
	b := gv.Bytes("input")
	if gv.Concrete() {
		e := Wire(Comp{Scalar("x"), Scalar("y")})
		switch gv.Choose("mangle", 5) {
		case 0:
			b = e
		case 1:
			e[gv.Int("at", 0, len(e)-1)] ^= byte(gv.Int("with", 1, 255))
			b = e
		case 2:
			b = e[:gv.Int("cut", 0, len(e))]
		case 3:
			b = append(gv.Enc(Scalar("x")), b...)
		}
	}
	gv.Freeze("the bytes", b)
	r := gv.Reader(b)
	c := &commitment.ElGamal{}
	if gv.Choose("into", 2) == 1 { // one that has been used before
		f, dh := factory()
		c, _ = Comm("c", dh, f)
	}
	if c.Decode(r) != nil {
		return
	}
	used := len(b) - len(gv.Rest(r))
	k := announced(b)
	gv.Assert(k > 0 && k <= len(b), "the first element was present")
	gv.Assert(used == k+announced(b[k:]), "what was accepted had the length it announced")
	var buf bytes.Buffer
	gv.Assert(c.Encode(&buf) == nil, "the decoded commitment can be encoded")
	d := &commitment.ElGamal{}
	gv.Assert(d.Decode(&buf) == nil, "and decoded again")
	gv.Assert(c.Equal(c, d), "to the same")
}

// CommTruncated: an encoding cut short is an error
func CommTruncated() {
	e := Wire(Comp{Scalar("x"), Scalar("y")})
	k := gv.Int("cut", 0, 200)
	gv.Assume(k < len(e))
	c := &commitment.ElGamal{}
	if gv.Choose("into", 2) == 1 {
		f, dh := factory()
		c, _ = Comm("c", dh, f)
	}
	gv.Assert(c.Decode(gv.Reader(e[:k])) != nil, "a truncated encoding is an error")
}
