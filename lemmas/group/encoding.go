package main

import (
	"bytes"
	"encoding/binary"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"lemmas/gv"
)

// EncodeDecode: round trip with other bytes behind, however the reader fragments them
func EncodeDecode() {
	g := curve.NewSecp256k1Group()
	da := scalar("dl.a")
	a := gv.Point(da)
	var buf bytes.Buffer
	gv.Freeze("operands and group parameters", a, g.Order(), g.Gen())
	gv.Assert(g.Encode(a, &buf) == nil, "encoding into a buffer succeeds")
	tail := gv.Bytes("tail")
	buf.Write(tail)
	r := gv.Reader(buf.Bytes())
	b, err := g.Decode(r)
	gv.Assert(err == nil, "decoding succeeds")
	gv.Assert(gv.IsPoint(b, da), "decoding gives the element back")
	gv.Assert(g.Equal(a, b), "the decoded element equals the encoded one")
	gv.Assert(gv.Equal(gv.Rest(r), tail), "exactly the encoding is consumed")
}

// EncodeWriter: an error is returned exactly when writing failed, and otherwise everything was written
func EncodeWriter() {
	g := curve.NewSecp256k1Group()
	da := scalar("dl.a")
	w := gv.Writer()
	err := g.Encode(gv.Point(da), w)
	gv.Assert((err != nil) == gv.Failed(w), "error exactly when writing failed")
	if err == nil {
		b, err := g.Decode(gv.Reader(gv.Written(w)))
		gv.Assert(err == nil && gv.IsPoint(b, da), "the written bytes decode to the element")
	}
}

// DecodeSequence: elements encoded one after another decode in order
func DecodeSequence() {
	g := curve.NewSecp256k1Group()
	da, db, dc := scalar("dl.a"), scalar("dl.b"), scalar("dl.c")
	var buf bytes.Buffer
	gv.Assert(g.Encode(gv.Point(da), &buf) == nil, "encoding succeeds")
	gv.Assert(g.Encode(gv.Point(db), &buf) == nil, "encoding succeeds")
	gv.Assert(g.Encode(gv.Point(dc), &buf) == nil, "encoding succeeds")
	r := gv.Reader(buf.Bytes())
	a, err := g.Decode(r)
	gv.Assert(err == nil && gv.IsPoint(a, da), "first element")
	b, err := g.Decode(r)
	gv.Assert(err == nil && gv.IsPoint(b, db), "second element")
	c, err := g.Decode(r)
	gv.Assert(err == nil && gv.IsPoint(c, dc), "third element")
	gv.Assert(len(gv.Rest(r)) == 0, "all is consumed")
}

// DecodeAny: any bytes are rejected or decode to a group element
func DecodeAny() {
	g := curve.NewSecp256k1Group()
	b := gv.Bytes("input")
	if gv.Concrete() {
		b = mangled(b)
	}
	r := gv.Reader(b)
	p, err := g.Decode(r)
	if err == nil {
		gv.Assert(gv.IsElement(p), "a decoded element is a group element")
		used := len(b) - len(gv.Rest(r))
		gv.Assert(used == announced(b), "what was accepted had the length it announced")
		gv.Assert(g.Equal(p, p), "a decoded element is usable")
	}
}

func announced(b []byte) int {
	if len(b) < 4 {
		return -1
	}
	l := int(binary.BigEndian.Uint32(b))
	if l == 0 {
		return 4
	}
	if len(b) < 8 {
		return -1
	}
	return 8 + l + int(binary.BigEndian.Uint32(b[4:]))
}

// mangled: encodings with something wrong
func mangled(b []byte) []byte {
	e := gv.Enc(scalar("dl.mangled"))
	switch gv.Choose("mangle", 7) {
	case 0:
		return e
	case 1:
		e[gv.Int("at", 0, len(e)-1)] ^= byte(gv.Int("with", 1, 255))
		return e
	case 2:
		return e[:gv.Int("cut", 0, len(e))]
	case 3: // a multiple of the field prime added to a coordinate
		return e
	case 4:
		x, y := gv.Nat("x").Bytes(), gv.Nat("y").Bytes()
		if len(x) > 255 || len(y) > 255 {
			return b
		}
		return append(append([]byte{0, 0, 0, byte(len(x)), 0, 0, 0, byte(len(y))}, x...), y...)
	case 5:
		return append(e, b...)
	}
	return b
}

// DecodeTruncated: an encoding that is cut short is an error
func DecodeTruncated() {
	g := curve.NewSecp256k1Group()
	e := gv.Enc(scalar("dl.a"))
	k := gv.Int("cut", 0, 100)
	gv.Assume(k < len(e))
	_, err := g.Decode(gv.Reader(e[:k]))
	gv.Assert(err != nil, "a truncated encoding is an error")
}
