package main

// Byte strings of symbolic content: ropes of segments with symbolic lengths.

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
)

type SegKind uint8

const (
	SConst SegKind = iota
	SBE            // fixed-width big-endian integer
	SLE            // fixed-width little-endian integer
	SBig           // minimal big-endian bytes of a non-negative integer
	SZero
	SRaw  // piece of an unknown string
	SSpec // named encoding of terms
	SSub  // piece of another segment
)

type Seg struct {
	k    SegKind
	b    []byte
	w    int
	t    *Term // value
	n    *Term // length
	src  *Term // SRaw: source; SSpec: application term
	off  *Term
	in   *Seg   // SSub
	sub  Rope   // SSpec: rope argument (e.g. base64)
	excl string // SRaw/SSpec: characters known not to occur
}

type Rope []Seg

// BL is the length of the minimal big-endian encoding
func BL(t *Term) *Term {
	if t.isConst() {
		return I64(int64((t.val.BitLen() + 7) / 8))
	}
	lo, hi := big0, big.NewInt(1<<40)
	if t.hi != nil && t.hi.Sign() >= 0 {
		hi = big.NewInt(int64((t.hi.BitLen() + 7) / 8))
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		lo = big.NewInt(int64((t.lo.BitLen() + 7) / 8))
	}
	return App("BL", SInt, lo, hi, t)
}

func cseg(b []byte) Seg { return Seg{k: SConst, b: b, n: I64(int64(len(b)))} }

func seg(k SegKind, w int, t *Term) Seg {
	if t.isConst() && t.val.Sign() >= 0 {
		switch k {
		case SBig:
			return cseg(t.val.Bytes())
		case SBE, SLE:
			if (t.val.BitLen()+7)/8 <= w {
				b := t.val.FillBytes(make([]byte, w))
				if k == SLE {
					for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
						b[i], b[j] = b[j], b[i]
					}
				}
				return cseg(b)
			}
		}
	}
	if k == SBig {
		return Seg{k: k, t: t, n: BL(t)}
	}
	return Seg{k: k, w: w, t: t, n: I64(int64(w))}
}

func zseg(n *Term) Seg {
	if n.isConst() && n.val.IsInt64() && n.val.Int64() <= 4096 && n.val.Sign() >= 0 {
		return cseg(make([]byte, n.val.Int64()))
	}
	return Seg{k: SZero, n: n}
}

func rseg(src, off, n *Term) Seg { return Seg{k: SRaw, src: src, off: off, n: n} }

func (r Rope) Len() *Term {
	ts := make([]*Term, len(r))
	for i, s := range r {
		ts[i] = s.n
	}
	return Add(ts...)
}

func segEq(a, b Seg) bool {
	if a.k != b.k || a.n != b.n {
		return false
	}
	switch a.k {
	case SConst:
		return string(a.b) == string(b.b)
	case SBE, SLE:
		return a.w == b.w && a.t == b.t
	case SBig:
		return a.t == b.t
	case SZero:
		return true
	case SRaw:
		return a.src == b.src && a.off == b.off
	case SSpec:
		return a.src == b.src
	case SSub:
		return a.off == b.off && segEq(*a.in, *b.in)
	}
	return false
}

func norm(r Rope) Rope {
	var o Rope
	for _, s := range r {
		if s.n == zero {
			continue
		}
		if len(o) > 0 {
			l := &o[len(o)-1]
			if l.k == SConst && s.k == SConst {
				*l = cseg(append(append([]byte{}, l.b...), s.b...))
				continue
			}
			if l.k == SRaw && s.k == SRaw && l.src == s.src && Add(l.off, l.n) == s.off {
				x := rseg(l.src, l.off, Add(l.n, s.n))
				x.excl = l.excl
				*l = x
				continue
			}
			if l.k == SZero && s.k == SZero {
				*l = zseg(Add(l.n, s.n))
				continue
			}
			if l.k == SSub && s.k == SSub && segEq(*l.in, *s.in) && Add(l.off, l.n) == s.off {
				x := Seg{k: SSub, in: l.in, off: l.off, n: Add(l.n, s.n)}
				if x.off == zero && x.n == l.in.n {
					x = *l.in
				}
				*l = x
				continue
			}
		}
		o = append(o, s)
	}
	return o
}

func cat(rs ...Rope) Rope {
	var o Rope
	for _, r := range rs {
		o = append(o, r...)
	}
	return norm(o)
}

func (s Seg) term() *Term {
	switch s.k {
	case SConst:
		return App("bytes:"+hex.EncodeToString(s.b), SBytes, nil, nil)
	case SBE:
		return App(fmt.Sprintf("be%d", s.w), SBytes, nil, nil, s.t)
	case SLE:
		return App(fmt.Sprintf("le%d", s.w), SBytes, nil, nil, s.t)
	case SBig:
		return App("big", SBytes, nil, nil, s.t)
	case SZero:
		return App("zeros", SBytes, nil, nil, s.n)
	case SRaw:
		return App("raw", SBytes, nil, nil, s.src, s.off, s.n)
	case SSpec:
		return s.src
	case SSub:
		return App("sub", SBytes, nil, nil, s.in.term(), s.off, s.n)
	}
	panic("seg")
}

func (r Rope) term() *Term {
	r = norm(r)
	if len(r) == 1 {
		return r[0].term()
	}
	var as []*Term
	for _, s := range r {
		as = append(as, s.term())
	}
	return App("cat", SBytes, nil, nil, as...)
}

func (r Rope) constant() ([]byte, bool) {
	r = norm(r)
	if len(r) == 0 {
		return []byte{}, true
	}
	if len(r) == 1 && r[0].k == SConst {
		return r[0].b, true
	}
	return nil, false
}

func (r Rope) String() string {
	var s []string
	for _, x := range r {
		switch x.k {
		case SConst:
			s = append(s, fmt.Sprintf("%q", x.b))
		case SRaw:
			s = append(s, fmt.Sprintf("%v[%v:+%v]", x.src, x.off, x.n))
		default:
			s = append(s, x.term().String())
		}
	}
	return strings.Join(s, "++")
}

// unfold expands a named encoding, deciding on the way as needed
var unfoldSpec = map[string]func(e *Exec, s Seg) (Rope, bool){}

// cutAt splits a rope at an offset that lies within it
func (e *Exec) cutAt(r Rope, off *Term) (Rope, Rope) {
	r = norm(r)
	d := off // what is left of it
	for i := 0; i < len(r); i++ {
		s := r[i]
		if d == zero {
			return r[:i], r[i:]
		}
		rest := Sub(d, s.n)
		beyond := Le(zero, rest)
		if rest == zero || beyond.kind == KTrue {
			d = rest
			continue
		}
		if s.k == SSpec {
			if f := unfoldSpec[s.src.name]; f != nil {
				if u, ok := f(e, s); ok {
					r = append(append(append(Rope{}, r[:i]...), u...), r[i+1:]...)
					i--
					continue
				}
			}
		}
		if s.k == SZero {
			// either piece may be empty
			if in, ok := e.known(And(Le(zero, d), Le(rest, zero))); ok && in {
				a, b := splitSeg(s, d)
				return append(append(Rope{}, r[:i]...), a), append(Rope{b}, r[i+1:]...)
			}
		}
		if e.branch(beyond) {
			d = rest
			continue
		}
		if !d.isConst() && e.branch(Eq(d, zero)) {
			return r[:i], r[i:]
		}
		// inside
		a, b := splitSeg(s, d)
		return append(append(Rope{}, r[:i]...), a), append(Rope{b}, r[i+1:]...)
	}
	return r, nil
}

func splitSeg(s Seg, d *Term) (Seg, Seg) {
	rest := Sub(s.n, d)
	switch s.k {
	case SConst:
		if d.isConst() && d.val.IsInt64() && d.val.Int64() >= 0 && d.val.Int64() <= int64(len(s.b)) {
			k := d.val.Int64()
			return cseg(s.b[:k]), cseg(s.b[k:])
		}
	case SZero:
		return zseg(d), zseg(rest)
	case SRaw:
		a, b := rseg(s.src, s.off, d), rseg(s.src, Add(s.off, d), rest)
		a.excl, b.excl = s.excl, s.excl
		return a, b
	case SSub:
		return Seg{k: SSub, in: s.in, off: s.off, n: d}, Seg{k: SSub, in: s.in, off: Add(s.off, d), n: rest}
	}
	c := s
	return Seg{k: SSub, in: &c, off: zero, n: d}, Seg{k: SSub, in: &c, off: d, n: rest}
}

// sub is the piece [off, off+n)
func (e *Exec) ropeSub(r Rope, off, n *Term) Rope {
	_, b := e.cutAt(r, off)
	a, _ := e.cutAt(b, n)
	if n.isConst() && n.val.IsInt64() {
		return e.fixLen(a, n.val.Int64())
	}
	return norm(a)
}

// splice overwrites [off, off+len(x)) with x
func (e *Exec) splice(r Rope, off *Term, x Rope) Rope {
	a, b := e.cutAt(r, off)
	_, c := e.cutAt(b, x.Len())
	return cat(a, x, c)
}

// beVal is the value of the rope as a big-endian number
func (r Rope) beVal() *Term {
	r = norm(r)
	for len(r) > 0 && (r[0].k == SZero || r[0].k == SConst && allZero(r[0].b)) {
		r = r[1:]
	}
	if len(r) == 0 {
		return zero
	}
	if n := r.Len(); n.isConst() && n.val.Cmp(big.NewInt(8)) <= 0 {
		r = rawBytes(r)
	}
	res := zero
	for i := range r {
		v := segVal(r[i])
		if v == nil {
			return App("bev", SInt, big0, nil, r.term())
		}
		rest := r[i+1:].Len()
		if rest == zero {
			res = Add(res, v)
			continue
		}
		if v == zero {
			continue
		}
		if !rest.isConst() || rest.val.Cmp(big.NewInt(4096)) > 0 {
			return App("bev", SInt, big0, nil, r.term())
		}
		res = Add(res, Mul(v, pow256(rest.val.Int64())))
	}
	return recompose(res)
}

func allZero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

// rawBytes splits unstructured segments of known length into single bytes
func rawBytes(r Rope) Rope {
	var out Rope
	for _, s := range r {
		if s.k != SRaw || !s.n.isConst() {
			out = append(out, s)
			continue
		}
		for i := int64(0); i < s.n.val.Int64(); i++ {
			b := s
			b.off, b.n = Add(s.off, I64(i)), one
			out = append(out, b)
		}
	}
	return out
}

func segVal(s Seg) *Term {
	switch s.k {
	case SConst:
		return IConst(new(big.Int).SetBytes(s.b))
	case SBE, SBig:
		return s.t
	case SZero:
		return zero
	case SRaw:
		var hi *big.Int
		if s.n.isConst() && s.n.val.Cmp(big.NewInt(64)) <= 0 {
			hi = new(big.Int).Sub(pow256(s.n.val.Int64()).val, big1)
		}
		return App("beval", SInt, big0, hi, s.src, s.off, s.n)
	case SSub:
		// a piece of a fixed-width number
		if (s.in.k == SBE) && s.off.isConst() && s.n.isConst() {
			tail := int64(s.in.w) - s.off.val.Int64() - s.n.val.Int64()
			return Mod(Div(s.in.t, pow256(tail)), pow256(s.n.val.Int64()))
		}
		if (s.in.k == SLE) && s.n == one && s.off.isConst() {
			return Mod(Div(s.in.t, pow256(s.off.val.Int64())), pow256(1))
		}
	}
	return nil
}

// leVal is the value as a little-endian number of w bytes
func (r Rope) leVal(w int) *Term {
	r = norm(r)
	hi := new(big.Int).Sub(pow256(int64(w)).val, big1)
	res := zero
	pos := int64(0)
	for _, s := range r {
		var v *Term
		switch s.k {
		case SConst:
			b := append([]byte{}, s.b...)
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
			v = IConst(new(big.Int).SetBytes(b))
		case SLE:
			v = s.t
		case SBE:
			if s.w == 1 {
				v = s.t
			}
		case SZero:
			v = zero
		case SRaw:
			if s.n.isConst() {
				v = zero
				for i := int64(0); i < s.n.val.Int64(); i++ {
					v = Add(v, Mul(App("beval", SInt, big0, big.NewInt(255), s.src, Add(s.off, I64(i)), one), pow256(i)))
				}
			}
		case SSub:
			if s.in.k == SLE && s.off.isConst() && s.n.isConst() {
				v = Mod(Div(s.in.t, pow256(s.off.val.Int64())), pow256(s.n.val.Int64()))
			}
			if s.in.k == SBE && s.n == one && s.off.isConst() {
				v = segVal(s)
			}
		}
		if v == nil || !s.n.isConst() {
			return App("lev", SInt, big0, hi, r.term())
		}
		res = Add(res, Mul(v, pow256(pos)))
		pos += s.n.val.Int64()
	}
	return recompose(res)
}

// dropEmpty removes padding that is known to be empty on this path
func (e *Exec) dropEmpty(r Rope) Rope {
	for i, s := range r {
		if s.k == SZero && !s.n.isConst() {
			if v, ok := e.known(Eq(s.n, zero)); ok && v {
				return e.dropEmpty(append(append(Rope{}, r[:i]...), r[i+1:]...))
			}
		} else if !s.n.isConst() && (e.pcSet[Le(s.n, zero)] || e.pcSet[Eq(s.n, zero)]) {
			return e.dropEmpty(append(append(Rope{}, r[:i]...), r[i+1:]...))
		}
	}
	return r
}

// fixLen uses that the rope is w bytes long: the only segment of symbolic length gets a constant one
func (e *Exec) fixLen(r Rope, w int64) Rope {
	r = e.dropEmpty(norm(r))
	k := -1
	rest := w
	for i, s := range r {
		if s.n.isConst() {
			rest -= s.n.val.Int64()
		} else if k >= 0 {
			return r
		} else {
			k = i
		}
	}
	if k < 0 || rest < 0 || r[k].k != SRaw && r[k].k != SSub && r[k].k != SZero {
		return r
	}
	n := append(Rope{}, r...)
	n[k].n = I64(rest)
	return norm(n)
}

// rawHead compares the beginning of a raw segment with a segment of fixed width
// (fits: equal strings have it as long as that)
func (e *Exec) rawHead(x, y Seg, fits bool) (head *Term, xr, yr Rope, ok bool) {
	w := y.n.val.Int64()
	if x.n.isConst() {
		if m := x.n.val.Int64(); m < w {
			if y.k != SConst {
				return nil, nil, nil, false
			}
			w = m
		}
	} else if in, known := e.known(Le(y.n, x.n)); !fits && (!known || !in) || known && !in {
		return nil, nil, nil, false
	}
	if w == 0 || w > 64 {
		return nil, nil, nil, false
	}
	ya := Rope{y}
	if y.n.val.Int64() > w {
		a, b := splitSeg(y, I64(w))
		ya, yr = Rope{a}, Rope{b}
	}
	xa, xb := splitSeg(x, I64(w))
	xr = norm(Rope{xb})
	if ya[0].k == SLE {
		return Eq(Rope{xa}.leVal(int(w)), ya.leVal(int(w))), xr, yr, true
	}
	if ya[0].k == SConst && w <= 8 && e.littleEndian {
		// either way of reading it will do; this one is used on this path
		return Eq(Rope{xa}.leVal(int(w)), ya.leVal(int(w))), xr, yr, true
	}
	return Eq(segVal(xa), segVal(ya[0])), xr, yr, true
}

// ropeEq is the condition that two ropes are the same string
func (e *Exec) ropeEq(a, b Rope) *Term {
	a, b = e.dropEmpty(norm(a)), e.dropEmpty(norm(b))
	for {
		for len(a) > 0 && len(b) > 0 && segEq(a[0], b[0]) {
			a, b = a[1:], b[1:]
		}
		for len(a) > 0 && len(b) > 0 && segEq(a[len(a)-1], b[len(b)-1]) {
			a, b = a[:len(a)-1], b[:len(b)-1]
		}
		if len(a) == 0 && len(b) == 0 {
			return tTrue
		}
		if len(a) == 0 {
			return Eq(b.Len(), zero)
		}
		if len(b) == 0 {
			return Eq(a.Len(), zero)
		}
		x, y := a[0], b[0]
		// constants of different lengths: common prefix
		if x.k == SConst && y.k == SConst {
			n := len(x.b)
			if len(y.b) < n {
				n = len(y.b)
			}
			if string(x.b[:n]) != string(y.b[:n]) {
				return tFalse
			}
			a = append(Rope{cseg(x.b[n:])}, a[1:]...)
			b = append(Rope{cseg(y.b[n:])}, b[1:]...)
			a, b = norm(a), norm(b)
			continue
		}
		break
	}
	if d := Sub(a.Len(), b.Len()); d.isConst() && d.val.Sign() != 0 {
		return tFalse
	}
	for _, p := range []struct{ u, v Rope }{{a, b}, {b, a}} {
		if l := p.u.Len(); !l.isConst() {
			if m := p.v.Len(); m.isConst() && m.val.IsInt64() {
				if f := e.fixLen(p.u, m.val.Int64()); f.Len() == m {
					return And(Eq(l, m), e.ropeEq(f, p.v))
				}
			}
		}
	}
	x, y := a[0], b[0]
	if pa, pb, ok := commonBlock(a, b); ok {
		return And(Eq(a[:pa].beVal(), b[:pb].beVal()), e.ropeEq(a[pa:], b[pb:]))
	}
	fixed := func(s Seg) bool { return s.k == SBE || s.k == SLE || s.k == SConst }
	if fixed(x) && fixed(y) {
		w := x.n.val.Int64()
		if y.n.val.Int64() < w {
			w = y.n.val.Int64()
		}
		if x.n == y.n || x.k == SConst && w < x.n.val.Int64() || y.k == SConst && w < y.n.val.Int64() {
			xa, xb := splitSeg(x, I64(w))
			ya, yb := splitSeg(y, I64(w))
			if x.n.val.Int64() == w {
				xa, xb = x, cseg(nil)
			}
			if y.n.val.Int64() == w {
				ya, yb = y, cseg(nil)
			}
			var head *Term
			if xa.k == SLE || ya.k == SLE {
				head = Eq(Rope{xa}.leVal(int(w)), Rope{ya}.leVal(int(w)))
			} else {
				head = Eq(segVal(xa), segVal(ya))
			}
			return And(head, e.ropeEq(append(Rope{xb}, a[1:]...), append(Rope{yb}, b[1:]...)))
		}
	}
	if x.k == SRaw && fixed(y) {
		whole := len(a) == 1 && !x.n.isConst()
		if h, xr, yr, ok := e.rawHead(x, y, whole); ok {
			if whole {
				h = And(Eq(a.Len(), b.Len()), h)
			}
			return And(h, e.ropeEq(append(xr, a[1:]...), append(yr, b[1:]...)))
		}
	}
	if y.k == SRaw && fixed(x) {
		whole := len(b) == 1 && !y.n.isConst()
		if h, yr, xr, ok := e.rawHead(y, x, whole); ok {
			if whole {
				h = And(Eq(a.Len(), b.Len()), h)
			}
			return And(h, e.ropeEq(append(xr, a[1:]...), append(yr, b[1:]...)))
		}
	}
	if x.k == SBig && y.k == SBig && len(a) == 1 && len(b) == 1 {
		return Eq(x.t, y.t)
	}
	if x.k == SBig && y.k == SBig {
		// equal numbers have equal encodings; otherwise undetermined
		return Or(And(Eq(x.t, y.t), e.ropeEq(a[1:], b[1:])), And(Not(Eq(x.t, y.t)), Eq(a.Len(), b.Len()), Eq(a.term(), b.term())))
	}
	if x.k == SBig && y.k == SConst && len(a) == 1 && len(b) == 1 {
		if len(y.b) > 0 && y.b[0] == 0 {
			return tFalse
		}
		return Eq(x.t, segVal(y))
	}
	if y.k == SBig && x.k == SConst && len(a) == 1 && len(b) == 1 {
		return e.ropeEq(b, a)
	}
	if x.k == SSpec && y.k == SSpec && x.src.name == y.src.name && injective[x.src.name] {
		h := tTrue
		for i := range x.src.args {
			h = And(h, Eq(x.src.args[i], y.src.args[i]))
		}
		return And(h, e.ropeEq(a[1:], b[1:]))
	}
	// unfold named encodings on one side
	for _, p := range []struct{ u, v Rope }{{a, b}, {b, a}} {
		if p.u[0].k == SSpec && p.v[0].k != SSpec && p.v[0].k != SRaw {
			if f := unfoldSpec[p.u[0].src.name]; f != nil {
				if u, ok := f(e, p.u[0]); ok {
					return e.ropeEq(append(append(Rope{}, u...), p.u[1:]...), p.v)
				}
			}
		}
	}
	q := Eq(a.term(), b.term())
	if q.kind != KTrue && q.kind != KFalse {
		e.ropes[q] = [2]Rope{a, b}
		q = And(Eq(a.Len(), b.Len()), q)
	}
	return q
}

// commonBlock finds the shortest beginning of both strings that is made of numbers and constants of fixed width, cut
// differently on the two sides
func commonBlock(a, b Rope) (int, int, bool) {
	width := func(s Seg) (int64, bool) {
		if !s.n.isConst() || s.n.val.Cmp(big.NewInt(64)) > 0 {
			return 0, false
		}
		return s.n.val.Int64(), s.k == SConst || s.k == SBE || s.k == SZero || s.k == SSub && segVal(s) != nil
	}
	var la, lb int64
	i, j := 0, 0
	for i <= len(a) && j <= len(b) {
		if la == lb && i > 0 {
			return i, j, i+j > 2
		}
		if la <= lb {
			if i == len(a) {
				break
			}
			w, ok := width(a[i])
			if !ok {
				break
			}
			la += w
			i++
		} else {
			if j == len(b) {
				break
			}
			w, ok := width(b[j])
			if !ok {
				break
			}
			lb += w
			j++
		}
	}
	return 0, 0, false
}

// injective, self-delimiting named encodings
var injective = map[string]bool{}
