// Lemmas about the zero-knowledge proofs (pkg/crypto/zkpok).
package main

import (
	"bytes"
	"encoding/binary"
	"math/big"

	pkg "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"lemmas/gv"
	. "lemmas/util"
)

var lemmas = map[string]func(){
	"KnowComplete": KnowComplete, "RefreshComplete": RefreshComplete,
	"KnowSound": KnowSound, "RefreshSound": RefreshSound,
	"KnowMasked": KnowMasked, "RefreshMasked": RefreshMasked,
	"KnowRoundTrip": KnowRoundTrip, "RefreshRoundTrip": RefreshRoundTrip, "ProofWriter": ProofWriter,
	"KnowDecodeAny": KnowDecodeAny, "RefreshDecodeAny": RefreshDecodeAny, "KnowTruncated": KnowTruncated, "RefreshTruncated": RefreshTruncated,
}

func main() { gv.Main(lemmas) }

func factory() (*commitment.ElGamalFactory, *big.Int) {
	dh := Scalar("dl.base")
	h := gv.Point(dh)
	f := commitment.NewElGamalFactory(h)
	gv.Freeze("the base and the factory", h, f)
	return f, dh
}

var max256 = new(big.Int).Lsh(big.NewInt(1), 256)

// ---- completeness

// KnowComplete: an honest proof of knowledge verifies, sent over the wire or not
func KnowComplete() {
	f, _ := factory()
	v, r := gv.Nat("value"), gv.Nat("rnd")
	c := f.Create(v, r)
	gv.Freeze("operands", v, r, c)
	p, err := zkpok.NewZKEGKnow(f, c, v, r)
	gv.Assert(err == nil, "making the proof succeeds")
	gv.Freeze("the proof", p)
	gv.Assert(p.Verify(f, c) == nil, "an honest proof verifies")
	var buf bytes.Buffer
	gv.Assert(p.Encode(&buf) == nil, "encoding succeeds")
	q := &zkpok.ZKEGKnow{}
	gv.Assert(q.Decode(gv.Reader(buf.Bytes())) == nil, "decoding succeeds")
	gv.Assert(q.Verify(f, c) == nil, "an honest proof verifies after encoding and decoding")
	gv.Assert(p.Verify(f, c) == nil, "it still verifies a second time")
}

// RefreshComplete: an honest refresh proof verifies
func RefreshComplete() {
	f, _ := factory()
	v, s, r := gv.Nat("value"), gv.Nat("rnd"), gv.Nat("refresh")
	c1 := f.Create(v, s)
	c2 := f.Neutral()
	c2.Compose(c1, f.Create(big.NewInt(0), r))
	gv.Freeze("operands", r, c1, c2)
	p, err := zkpok.NewZKEGRefresh(f, c1, c2, r)
	gv.Assert(err == nil, "making the proof succeeds")
	gv.Freeze("the proof", p)
	gv.Assert(p.Verify(f, c1, c2) == nil, "an honest proof verifies")
	var buf bytes.Buffer
	gv.Assert(p.Encode(&buf) == nil, "encoding succeeds")
	q := &zkpok.ZKEGRefresh{}
	gv.Assert(q.Decode(gv.Reader(buf.Bytes())) == nil, "decoding succeeds")
	gv.Assert(q.Verify(f, c1, c2) == nil, "an honest proof verifies after encoding and decoding")
	gv.Assert(p.Verify(f, c1, c2) == nil, "it still verifies a second time")
}

// ---- soundness

func commOf(m Comp) *commitment.ElGamal {
	c := &commitment.ElGamal{}
	gv.Assume(c.Decode(bytes.NewReader(Wire(m))) == nil)
	return c
}

func comp(n string) Comp { return Comp{Scalar(n + ".first"), Scalar(n + ".second")} }

func inv(x *big.Int) *big.Int {
	y := new(big.Int).ModInverse(x, gv.Order())
	if y == nil {
		y = new(big.Int)
	}
	return y
}

// part is a transcript from which some pieces may be missing
func part(mask int, ps ...*big.Int) []byte {
	var b []byte
	for i, p := range ps {
		if mask>>i&1 == 1 {
			b = append(b, gv.Enc(p)...)
		}
	}
	return b
}

// bend gives wrong challenges a careless verifier might use instead
func bend(e *big.Int) *big.Int {
	k := gv.Choose("bend", 14)
	switch {
	case k < 6:
		return new(big.Int).Mod(e, new(big.Int).Lsh(big.NewInt(1), uint([]int{1, 8, 16, 32, 64, 128}[k])))
	case k == 6:
		return Neg(e)
	case k == 7:
		return big.NewInt(0)
	case k == 8:
		return big.NewInt(1)
	case k == 9:
		return inv(e)
	case k == 10:
		return Add(e, e)
	case k == 11:
		return Mul(e, e)
	}
	return e
}

// knowForgery constructs proofs that satisfy something near the verification equation (concrete replay only)
func knowForgery(dh *big.Int, c, xy Comp, z1, z2 *big.Int) (Comp, Comp, *big.Int, *big.Int) {
	n := gv.Order()
	md := func(x *big.Int) *big.Int { return new(big.Int).Mod(x, n) }
	hash := func(b []byte) *big.Int { return pkg.HashToBigInt(b) }
	switch gv.Choose("forge", 6) {
	case 0: // pieces are missing from the transcript: they are chosen afterwards
		mask := gv.Choose("mask", 16)
		e := bend(hash(part(mask, c.First, c.Second, xy.First, xy.Second)))
		if mask&4 == 0 {
			xy.First = Sub(z1, Mul(e, c.First))
		} else if mask&1 == 0 {
			c.First = md(Mul(Sub(z1, xy.First), inv(e)))
		} else {
			z1 = md(Add(xy.First, Mul(e, c.First)))
		}
		s := Add(Mul(dh, z1), z2)
		if mask&8 == 0 {
			xy.Second = Sub(s, Mul(e, c.Second))
		} else if mask&2 == 0 {
			c.Second = md(Mul(Sub(s, xy.Second), inv(e)))
		} else {
			z2 = Sub(Add(xy.Second, Mul(e, c.Second)), Mul(dh, z1))
		}
	case 1: // only the second component fits
		e := hash(part(15, c.First, c.Second, xy.First, xy.Second))
		z2 = Sub(Add(xy.Second, Mul(e, c.Second)), Mul(dh, z1))
	case 2: // only the first component fits
		e := hash(part(15, c.First, c.Second, xy.First, xy.Second))
		z1 = md(Add(xy.First, Mul(e, c.First)))
	case 3: // both fit for another challenge
		e := bend(hash(part(15, c.First, c.Second, xy.First, xy.Second)))
		z1 = md(Add(xy.First, Mul(e, c.First)))
		z2 = Sub(Add(xy.Second, Mul(e, c.Second)), Mul(dh, z1))
	case 4: // the sum of the components fits
		e := hash(part(15, c.First, c.Second, xy.First, xy.Second))
		s := Add(Add(xy.First, xy.Second), Mul(e, Add(c.First, c.Second)))
		z2 = Sub(Sub(s, z1), Mul(dh, z1))
	case 5: // everything vanishes
		z := big.NewInt(0)
		z1, z2, xy = z, z, Comp{z, z}
	}
	return c, xy, z1, z2
}

// KnowSound: what is accepted satisfies the verification equation for the challenge derived from commitment and first message
func KnowSound() {
	f, dh := factory()
	mc, mxy := comp("comm"), comp("message")
	z1, z2 := gv.Below("z1", max256), gv.Below("z2", max256)
	if gv.Concrete() {
		mc, mxy, z1, z2 = knowForgery(dh, mc, mxy, z1, z2)
	}
	c := commOf(mc)
	gv.Freeze("the commitment", c)
	p := &zkpok.ZKEGKnow{}
	gv.Assume(p.Decode(bytes.NewReader(ProofWire(z1, z2, mxy))) == nil)
	gv.Freeze("the proof", p)
	if p.Verify(f, c) != nil {
		return
	}
	e := pkg.HashToBigInt(append(Wire(mc), Wire(mxy)...))
	gv.Assert(Same(z1, Add(mxy.First, Mul(e, mc.First))), "an accepted proof satisfies the first equation")
	gv.Assert(Same(Add(Mul(dh, z1), z2), Add(mxy.Second, Mul(e, mc.Second))), "an accepted proof satisfies the second equation")
}

func refreshForgery(dh *big.Int, a, b, xy Comp, z1, z2 *big.Int) (Comp, Comp, Comp, *big.Int, *big.Int) {
	n := gv.Order()
	md := func(x *big.Int) *big.Int { return new(big.Int).Mod(x, n) }
	hash := func(b []byte) *big.Int { return pkg.HashToBigInt(b) }
	full := func() *big.Int {
		return hash(part(63, a.First, a.Second, b.First, b.Second, xy.First, xy.Second))
	}
	// equations: z1 + z2 a1 - e b1 = x1, h z1 + z2 a2 - e b2 = x2
	switch gv.Choose("forge", 7) {
	case 0:
		mask := gv.Choose("mask", 64)
		e := bend(hash(part(mask, a.First, a.Second, b.First, b.Second, xy.First, xy.Second)))
		z2 = e
		if mask&16 == 0 {
			xy.First = Sub(Add(z1, Mul(z2, a.First)), Mul(e, b.First))
		} else if mask&4 == 0 {
			b.First = md(Mul(Sub(Add(z1, Mul(z2, a.First)), xy.First), inv(e)))
		} else if mask&1 == 0 {
			a.First = md(Mul(Sub(Add(xy.First, Mul(e, b.First)), z1), inv(z2)))
		} else {
			z1 = Sub(Add(xy.First, Mul(e, b.First)), Mul(z2, a.First))
		}
		hz := Mul(dh, z1)
		if mask&32 == 0 {
			xy.Second = Sub(Add(hz, Mul(z2, a.Second)), Mul(e, b.Second))
		} else if mask&8 == 0 {
			b.Second = md(Mul(Sub(Add(hz, Mul(z2, a.Second)), xy.Second), inv(e)))
		} else if mask&2 == 0 {
			a.Second = md(Mul(Sub(Add(xy.Second, Mul(e, b.Second)), hz), inv(z2)))
		}
	case 1: // the second commitment is a multiple of the first
		k, r := Scalar("factor"), Scalar("r")
		b = Comp{md(Add(Mul(k, a.First), r)), md(Add(Mul(k, a.Second), Mul(dh, r)))}
		xy = Comp{xy.First, md(Mul(dh, xy.First))}
		e := full()
		z2 = md(Mul(k, e))
		z1 = md(Add(xy.First, Mul(e, r)))
	case 2: // only the first component fits
		e := full()
		z2 = e
		z1 = Sub(Add(xy.First, Mul(e, b.First)), Mul(z2, a.First))
	case 3: // only the second component fits
		e := full()
		z2 = e
		z1 = md(Mul(Sub(Add(xy.Second, Mul(e, b.Second)), Mul(z2, a.Second)), inv(dh)))
	case 4: // both fit for another challenge
		r := Scalar("r")
		b = Comp{b.First, md(Add(a.Second, Mul(dh, Sub(b.First, a.First))))}
		b.Second = md(Add(b.Second, r))
		e := full()
		z2 = bend(e)
		z1 = Sub(Add(xy.First, Mul(e, b.First)), Mul(z2, a.First))
	case 5: // the first message does not matter
		e := full()
		z2 = e
		b = Comp{md(Add(a.First, z1)), md(Add(a.Second, Mul(dh, z1)))}
	case 6:
		z := big.NewInt(0)
		z1, z2, xy = z, z, Comp{z, z}
	}
	return a, b, xy, z1, z2
}

// RefreshSound: what is accepted satisfies the verification equation, with the challenge as the exponent of both commitments
func RefreshSound() {
	f, dh := factory()
	ma, mb, mxy := comp("c1"), comp("c2"), comp("message")
	z1, z2 := gv.Below("z1", max256), gv.Below("z2", max256)
	if gv.Concrete() {
		ma, mb, mxy, z1, z2 = refreshForgery(dh, ma, mb, mxy, z1, z2)
	}
	c1, c2 := commOf(ma), commOf(mb)
	gv.Freeze("the commitments", c1, c2)
	p := &zkpok.ZKEGRefresh{}
	gv.Assume(p.Decode(bytes.NewReader(ProofWire(z1, z2, mxy))) == nil)
	gv.Freeze("the proof", p)
	if p.Verify(f, c1, c2) != nil {
		return
	}
	e := pkg.HashToBigInt(append(append(Wire(ma), Wire(mb)...), Wire(mxy)...))
	gv.Assert(Same(Add(z1, Mul(e, ma.First)), Add(mxy.First, Mul(e, mb.First))), "an accepted proof satisfies the first equation")
	gv.Assert(Same(Add(Mul(dh, z1), Mul(e, ma.Second)), Add(mxy.Second, Mul(e, mb.Second))), "an accepted proof satisfies the second equation")
}

// ---- masking

type parts struct {
	z1, z2 *big.Int
	xy     Comp
}

// take parses what a proof writes
func take(b []byte) parts {
	gv.Assert(len(b) >= 8, "a proof starts with the lengths of its responses")
	n1, n2 := int(binary.BigEndian.Uint32(b)), int(binary.BigEndian.Uint32(b[4:]))
	gv.Assert(len(b) >= 8+n1+n2, "a proof holds its responses")
	p := parts{z1: new(big.Int).SetBytes(b[8 : 8+n1]), z2: new(big.Int).SetBytes(b[8+n1 : 8+n1+n2])}
	r := bytes.NewReader(b[8+n1+n2:])
	g := curve.NewSecp256k1Group()
	x, err := g.Decode(r)
	gv.Assert(err == nil, "a proof holds its first message")
	y, err := g.Decode(r)
	gv.Assert(err == nil, "a proof holds its first message")
	gv.Assert(r.Len() == 0, "a proof holds nothing else")
	if !gv.Concrete() {
		p.xy = Comp{gv.LogOf(x), gv.LogOf(y)}
	}
	return p
}

// KnowMasked: the responses are the witnesses times the challenge plus separate fresh draws, the first message commits to them
func KnowMasked() {
	f, dh := factory()
	v, r := gv.Nat("value"), gv.Nat("rnd")
	c, mc := f.Create(v, r), Opening(dh, v, r)
	gv.Freeze("operands", v, r, c)
	d0 := gv.DrawCount()
	p, err := zkpok.NewZKEGKnow(f, c, v, r)
	gv.Assert(err == nil, "making the proof succeeds")
	d1 := gv.DrawCount()
	knowMask(p, dh, v, r, mc, d0)
	p, err = zkpok.NewZKEGKnow(f, c, v, r)
	gv.Assert(err == nil, "making the proof succeeds")
	knowMask(p, dh, v, r, mc, d1)
}

func knowMask(p *zkpok.ZKEGKnow, dh, v, r *big.Int, mc Comp, from int) {
	var buf bytes.Buffer
	gv.Assert(p.Encode(&buf) == nil, "encoding succeeds")
	b := buf.Bytes()
	w := take(b)
	k := 8 + int(binary.BigEndian.Uint32(b)) + int(binary.BigEndian.Uint32(b[4:]))
	e := pkg.HashToBigInt(append(Wire(mc), b[k:]...))
	sigma, rho := Sub(w.z1, Mul(e, r)), Sub(w.z2, Mul(e, v))
	i, j := gv.FreshDraw(from, sigma), gv.FreshDraw(from, rho)
	gv.Assert(i >= 0, "the first response is masked by a fresh draw")
	gv.Assert(j >= 0, "the second response is masked by a fresh draw")
	gv.Assert(i != j, "the responses are masked by different draws")
	gv.Assert(gv.Equal(b[k:], Wire(Opening(dh, rho, sigma))), "the first message commits to exactly the masks")
	gv.Assert(w.z1.Cmp(gv.Order()) < 0 && w.z2.Cmp(gv.Order()) < 0, "the responses are reduced modulo the order")
}

// RefreshMasked: the same for refresh proofs
func RefreshMasked() {
	f, dh := factory()
	v, s, r := gv.Nat("value"), gv.Nat("rnd"), gv.Nat("refresh")
	c1, m1 := f.Create(v, s), Opening(dh, v, s)
	t := Add(s, r)
	c2, m2 := f.Create(v, t), Opening(dh, v, t)
	gv.Freeze("operands", r, c1, c2)
	d0 := gv.DrawCount()
	p, err := zkpok.NewZKEGRefresh(f, c1, c2, r)
	gv.Assert(err == nil, "making the proof succeeds")
	d1 := gv.DrawCount()
	refreshMask(p, dh, r, m1, m2, d0)
	p, err = zkpok.NewZKEGRefresh(f, c1, c2, r)
	gv.Assert(err == nil, "making the proof succeeds")
	refreshMask(p, dh, r, m1, m2, d1)
}

func refreshMask(p *zkpok.ZKEGRefresh, dh, r *big.Int, m1, m2 Comp, from int) {
	var buf bytes.Buffer
	gv.Assert(p.Encode(&buf) == nil, "encoding succeeds")
	b := buf.Bytes()
	w := take(b)
	k := 8 + int(binary.BigEndian.Uint32(b)) + int(binary.BigEndian.Uint32(b[4:]))
	e := pkg.HashToBigInt(append(append(Wire(m1), Wire(m2)...), b[k:]...))
	sigma := Sub(w.z1, Mul(e, r))
	gv.Assert(gv.FreshDraw(from, sigma) >= 0, "the first response is masked by a fresh draw")
	gv.Assert(w.z2.Cmp(e) == 0, "the second response is the challenge")
	gv.Assert(gv.Equal(b[k:], Wire(Opening(dh, big.NewInt(0), sigma))), "the first message commits to exactly the mask")
	gv.Assert(w.z1.Cmp(gv.Order()) < 0, "the response is reduced modulo the order")
}

// ---- encoding

// KnowRoundTrip: decoding gives the contents back and consumes exactly the encoding
func KnowRoundTrip() {
	z1, z2, m := gv.Below("z1", max256), gv.Below("z2", max256), comp("message")
	b := ProofWire(z1, z2, m)
	tail := gv.Bytes("tail")
	gv.Freeze("the bytes", b, tail)
	r := gv.Reader(append(append([]byte{}, b...), tail...))
	p := &zkpok.ZKEGKnow{}
	gv.Assert(p.Decode(r) == nil, "a proof is decoded")
	gv.Assert(gv.Equal(gv.Rest(r), tail), "exactly its bytes are consumed")
	gv.Freeze("the proof", p)
	var buf bytes.Buffer
	gv.Assert(p.Encode(&buf) == nil, "encoding succeeds")
	gv.Assert(gv.Equal(buf.Bytes(), b), "the contents are the same")
}

// RefreshRoundTrip: the same for refresh proofs
func RefreshRoundTrip() {
	z1, z2, m := gv.Below("z1", max256), gv.Below("z2", max256), comp("message")
	b := ProofWire(z1, z2, m)
	tail := gv.Bytes("tail")
	gv.Freeze("the bytes", b, tail)
	r := gv.Reader(append(append([]byte{}, b...), tail...))
	p := &zkpok.ZKEGRefresh{}
	gv.Assert(p.Decode(r) == nil, "a proof is decoded")
	gv.Assert(gv.Equal(gv.Rest(r), tail), "exactly its bytes are consumed")
	gv.Freeze("the proof", p)
	var buf bytes.Buffer
	gv.Assert(p.Encode(&buf) == nil, "encoding succeeds")
	gv.Assert(gv.Equal(buf.Bytes(), b), "the contents are the same")
}

// ProofWriter: encoding reports an error exactly when a write failed, otherwise everything is there
func ProofWriter() {
	b := ProofWire(gv.Below("z1", max256), gv.Below("z2", max256), comp("message"))
	w := gv.Writer()
	var err error
	if gv.Choose("kind", 2) == 0 {
		p := &zkpok.ZKEGKnow{}
		gv.Assume(p.Decode(gv.Reader(b)) == nil)
		err = p.Encode(w)
	} else {
		p := &zkpok.ZKEGRefresh{}
		gv.Assume(p.Decode(gv.Reader(b)) == nil)
		err = p.Encode(w)
	}
	gv.Assert((err != nil) == gv.Failed(w), "error exactly when writing failed")
	if err == nil {
		gv.Assert(gv.Equal(gv.Written(w), b), "everything was written")
	}
}

func announced(b []byte) int {
	if len(b) < 4 {
		return -1
	}
	l := int(binary.BigEndian.Uint32(b))
	if l == 0 {
		return 4
	}
	if len(b) < 8 {
		return -1
	}
	return 8 + l + int(binary.BigEndian.Uint32(b[4:]))
}

func mangled(b []byte) []byte {
	z := func(n string) *big.Int {
		x := Scalar(n)
		if gv.Choose("short", 3) == 0 {
			x = big.NewInt(int64(gv.Int("small", 0, 300)))
		}
		return x
	}
	e := ProofWire(z("mz1"), z("mz2"), comp("mangled"))
	switch gv.Choose("mangle", 7) {
	case 0:
		return e
	case 1:
		e[gv.Int("at", 0, len(e)-1)] ^= byte(gv.Int("with", 1, 255))
		return e
	case 2:
		return e[:gv.Int("cut", 0, len(e))]
	case 3:
		return append(e, b...)
	case 4: // lengths whose sum wraps around or exceeds what is there
		e[gv.Int("at", 0, 7)] = []byte{255, 128, 127, 33, 64}[gv.Choose("len", 5)]
		return e
	case 5:
		binary.BigEndian.PutUint32(e, 1<<31+uint32(gv.Int("low", 0, 40)))
		binary.BigEndian.PutUint32(e[4:], 1<<31+uint32(gv.Int("low", 0, 40)))
		return e
	}
	return b
}

// complete: what was accepted had the length it announced
func complete(b []byte, used int) {
	gv.Assert(len(b) >= 8, "the lengths were present")
	k := 8 + int(binary.BigEndian.Uint32(b)) + int(binary.BigEndian.Uint32(b[4:]))
	gv.Assert(k <= len(b), "the responses were present")
	k1 := announced(b[k:])
	gv.Assert(k1 > 0 && k+k1 <= len(b), "the first element was present")
	gv.Assert(used == k+k1+announced(b[k+k1:]), "what was accepted had the length it announced")
}

// KnowDecodeAny: any bytes are rejected or yield a complete proof
func KnowDecodeAny() {
	b := gv.Bytes("input")
	if gv.Concrete() {
		b = mangled(b)
	}
	f, _ := factory()
	c := commOf(comp("comm"))
	gv.Freeze("the bytes", b)
	r := gv.Reader(b)
	p := &zkpok.ZKEGKnow{}
	if p.Decode(r) != nil {
		return
	}
	complete(b, len(b)-len(gv.Rest(r)))
	var buf bytes.Buffer
	gv.Assert(p.Encode(&buf) == nil, "a decoded proof can be encoded")
	p.Verify(f, c)
	gv.Reached("a decoded proof can be verified")
}

// RefreshDecodeAny: the same for refresh proofs
func RefreshDecodeAny() {
	b := gv.Bytes("input")
	if gv.Concrete() {
		b = mangled(b)
	}
	f, _ := factory()
	c1, c2 := commOf(comp("c1")), commOf(comp("c2"))
	gv.Freeze("the bytes", b)
	r := gv.Reader(b)
	p := &zkpok.ZKEGRefresh{}
	if p.Decode(r) != nil {
		return
	}
	complete(b, len(b)-len(gv.Rest(r)))
	var buf bytes.Buffer
	gv.Assert(p.Encode(&buf) == nil, "a decoded proof can be encoded")
	p.Verify(f, c1, c2)
	gv.Reached("a decoded proof can be verified")
}

func cut() []byte {
	b := ProofWire(gv.Below("z1", max256), gv.Below("z2", max256), comp("message"))
	k := gv.Int("cut", 0, 300)
	gv.Assume(k < len(b))
	return b[:k]
}

// KnowTruncated: a proof cut short is an error
func KnowTruncated() {
	p := &zkpok.ZKEGKnow{}
	gv.Assert(p.Decode(gv.Reader(cut())) != nil, "a truncated proof is an error")
}

// RefreshTruncated: the same for refresh proofs
func RefreshTruncated() {
	p := &zkpok.ZKEGRefresh{}
	gv.Assert(p.Decode(gv.Reader(cut())) != nil, "a truncated proof is an error")
}
