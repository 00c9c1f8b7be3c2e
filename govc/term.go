package main

// Terms: hash-consed integer, boolean and byte-string terms. Integer terms are kept as canonical polynomials over
// atoms (variables and applications), so that terms equal as polynomials are the same pointer; residues modulo a
// constant are canonical too, because the residue of a sum or product is computed from the polynomial with all inner
// residues of the same modulus stripped.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SBytes
)

type Kind uint8

const (
	KConst Kind = iota // integer constant
	KTrue
	KFalse
	KVar
	KApp  // application, atom of any sort; integer heads: mod, div, ite, inv, X, Y, ...
	KPoly // integer polynomial
	KGe0  // args[0] >= 0
	KEq0  // args[0] == 0
	KEqA  // equality of two non-integer atoms
	KNot
	KAnd
	KOr
)

type mon struct {
	c     *big.Int
	atoms []*Term
}

type Term struct {
	id     int
	kind   Kind
	sort   Sort
	name   string
	args   []*Term
	val    *big.Int
	mons   []mon
	lo, hi *big.Int
	str    string
	neg    *Term
	tag    string // for variables: how the value came about (draw, input, ...)
}

var (
	tab    = map[string]*Term{}
	allT   []*Term
	tTrue  = intern(&Term{kind: KTrue, sort: SBool})
	tFalse = intern(&Term{kind: KFalse, sort: SBool})
	zero   = I64(0)
	one    = I64(1)
)

func bounds(t *Term) string {
	if t.lo == nil && t.hi == nil {
		return ""
	}
	s := "["
	if t.lo != nil {
		s += t.lo.Text(62)
	}
	s += ","
	if t.hi != nil {
		s += t.hi.Text(62)
	}
	return s + "]"
}

func (t *Term) key() string {
	var b strings.Builder
	switch t.kind {
	case KConst:
		return "c" + t.val.String()
	case KTrue:
		return "T"
	case KFalse:
		return "F"
	case KVar:
		return fmt.Sprintf("v%d%s%s", t.sort, t.name, bounds(t)) // the bounds of a name may differ between paths
	case KApp:
		fmt.Fprintf(&b, "a%d%s%s", t.sort, t.name, bounds(t))
	case KPoly:
		buf := make([]byte, 0, 16*len(t.mons)+1)
		buf = append(buf, 'p')
		for _, m := range t.mons {
			if m.c.IsInt64() {
				buf = strconv.AppendInt(buf, m.c.Int64(), 10)
			} else {
				buf = m.c.Append(buf, 10)
			}
			for _, a := range m.atoms {
				buf = strconv.AppendInt(append(buf, '*'), int64(a.id), 10)
			}
			buf = append(buf, '+')
		}
		return string(buf)
	default:
		fmt.Fprintf(&b, "k%d", t.kind)
	}
	var buf [20]byte
	for _, a := range t.args {
		b.Write(strconv.AppendInt(append(buf[:0], ','), int64(a.id), 10))
	}
	return b.String()
}

func intern(t *Term) *Term {
	k := t.key()
	if o, ok := tab[k]; ok {
		return o
	}
	t.id = len(allT) + 1
	t.str = k
	tab[k] = t
	allT = append(allT, t)
	return t
}

func IConst(v *big.Int) *Term {
	v = new(big.Int).Set(v)
	return intern(&Term{kind: KConst, sort: SInt, val: v, lo: v, hi: v})
}
func I64(v int64) *Term { return IConst(big.NewInt(v)) }

// Var makes (or finds) a variable; lo and hi, when not nil, are inclusive bounds that hold for it by declaration.
func Var(name string, s Sort, lo, hi *big.Int) *Term {
	return intern(&Term{kind: KVar, sort: s, name: name, lo: lo, hi: hi})
}

func App(name string, s Sort, lo, hi *big.Int, args ...*Term) *Term {
	return intern(&Term{kind: KApp, sort: s, name: name, args: args, lo: lo, hi: hi})
}

func (t *Term) isConst() bool { return t.kind == KConst }

// ---- polynomials

type poly map[string]mon

func atomsKey(as []*Term) string {
	var b strings.Builder
	var buf [20]byte
	for _, a := range as {
		b.Write(append(strconv.AppendInt(buf[:0], int64(a.id), 10), '.'))
	}
	return b.String()
}

func (p poly) addMon(c *big.Int, atoms []*Term) {
	if c.Sign() == 0 {
		return
	}
	k := atomsKey(atoms)
	if o, ok := p[k]; ok {
		s := new(big.Int).Add(o.c, c)
		if s.Sign() == 0 {
			delete(p, k)
		} else {
			p[k] = mon{s, o.atoms}
		}
		return
	}
	p[k] = mon{new(big.Int).Set(c), atoms}
}

func (t *Term) monomials() []mon {
	switch t.kind {
	case KConst:
		if t.val.Sign() == 0 {
			return nil
		}
		return []mon{{t.val, nil}}
	case KPoly:
		return t.mons
	default:
		return []mon{{big1, []*Term{t}}}
	}
}

var big0, big1 = big.NewInt(0), big.NewInt(1)

func (p poly) term() *Term {
	ms := make([]mon, 0, len(p))
	for _, m := range p {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return monLess(ms[i].atoms, ms[j].atoms) })
	return sorted(ms)
}

// sorted is the polynomial with these monomials, which are in the order of monLess
func sorted(ms []mon) *Term {
	if len(ms) == 0 {
		return zero
	}
	if len(ms) == 1 {
		if len(ms[0].atoms) == 0 {
			return IConst(ms[0].c)
		}
		if len(ms[0].atoms) == 1 && ms[0].c.Cmp(big1) == 0 {
			return ms[0].atoms[0]
		}
	}
	t := &Term{kind: KPoly, sort: SInt, mons: ms}
	k := t.key()
	if o, ok := tab[k]; ok {
		return o
	}
	t.lo, t.hi = polyRange(ms)
	return intern(t)
}

func monLess(a, b []*Term) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i].id != b[i].id {
			return a[i].id < b[i].id
		}
	}
	return false
}

func mulRange(alo, ahi, blo, bhi *big.Int) (lo, hi *big.Int) {
	if alo != nil && alo.Sign() >= 0 && blo != nil && blo.Sign() >= 0 {
		lo = new(big.Int).Mul(alo, blo)
		if ahi != nil && bhi != nil {
			hi = new(big.Int).Mul(ahi, bhi)
		}
		return
	}
	if alo == nil || ahi == nil || blo == nil || bhi == nil {
		return nil, nil
	}
	for _, x := range []*big.Int{alo, ahi} {
		for _, y := range []*big.Int{blo, bhi} {
			v := new(big.Int).Mul(x, y)
			if lo == nil || v.Cmp(lo) < 0 {
				lo = v
			}
			if hi == nil || v.Cmp(hi) > 0 {
				hi = v
			}
		}
	}
	return
}

func polyRange(ms []mon) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for _, m := range ms {
		var l, h *big.Int = m.c, m.c
		for _, a := range m.atoms {
			l, h = mulRange(l, h, a.lo, a.hi)
			// mulRange with negative coefficient and half-open ranges
			if l == nil && h == nil {
				if m.c.Sign() < 0 && len(m.atoms) == 1 {
					if a.lo != nil {
						h = new(big.Int).Mul(m.c, a.lo)
					}
					if a.hi != nil {
						l = new(big.Int).Mul(m.c, a.hi)
					}
				}
				break
			}
		}
		if m.c.Sign() < 0 && len(m.atoms) > 1 {
			// product of atoms first, then the coefficient
			var pl, ph *big.Int = big1, big1
			for _, a := range m.atoms {
				pl, ph = mulRange(pl, ph, a.lo, a.hi)
				if pl == nil && ph == nil {
					break
				}
			}
			l, h = nil, nil
			if pl != nil {
				h = new(big.Int).Mul(m.c, pl)
			}
			if ph != nil {
				l = new(big.Int).Mul(m.c, ph)
			}
		}
		if lo != nil {
			if l == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, l)
			}
		}
		if hi != nil {
			if h == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, h)
			}
		}
	}
	return
}

func Add(ts ...*Term) *Term {
	switch len(ts) {
	case 0:
		return zero
	case 1:
		return ts[0]
	case 2:
		return sorted(mergeMons(ts[0].monomials(), ts[1].monomials(), false))
	}
	p := poly{}
	for _, t := range ts {
		for _, m := range t.monomials() {
			p.addMon(m.c, m.atoms)
		}
	}
	return p.term()
}

func monCmp(a, b []*Term) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i].id - b[i].id
		}
	}
	return 0
}

// mergeMons adds (or subtracts) two sorted lists of monomials
func mergeMons(a, b []mon, minus bool) []mon {
	r := make([]mon, 0, len(a)+len(b))
	second := func(m mon) mon {
		if minus {
			return mon{new(big.Int).Neg(m.c), m.atoms}
		}
		return m
	}
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch c := monCmp(a[i].atoms, b[j].atoms); {
		case c < 0:
			r = append(r, a[i])
			i++
		case c > 0:
			r = append(r, second(b[j]))
			j++
		default:
			x := new(big.Int)
			if minus {
				x.Sub(a[i].c, b[j].c)
			} else {
				x.Add(a[i].c, b[j].c)
			}
			if x.Sign() != 0 {
				r = append(r, mon{x, a[i].atoms})
			}
			i, j = i+1, j+1
		}
	}
	r = append(r, a[i:]...)
	for ; j < len(b); j++ {
		r = append(r, second(b[j]))
	}
	return r
}

func Scale(c *big.Int, t *Term) *Term {
	if c.Sign() == 0 {
		return zero
	}
	ms := t.monomials()
	r := make([]mon, len(ms))
	for i, m := range ms {
		r[i] = mon{new(big.Int).Mul(c, m.c), m.atoms}
	}
	return sorted(r)
}

func Neg(t *Term) *Term    { return Scale(big.NewInt(-1), t) }
func Sub(a, b *Term) *Term { return sorted(mergeMons(a.monomials(), b.monomials(), true)) }

func mergeAtoms(a, b []*Term) []*Term {
	r := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i].id <= b[j].id {
			r = append(r, a[i])
			i++
		} else {
			r = append(r, b[j])
			j++
		}
	}
	r = append(r, a[i:]...)
	return append(r, b[j:]...)
}

func Mul(a, b *Term) *Term {
	am, bm := a.monomials(), b.monomials()
	p := poly{}
	for _, x := range am {
		for _, y := range bm {
			p.addMon(new(big.Int).Mul(x.c, y.c), mergeAtoms(x.atoms, y.atoms))
		}
	}
	return p.term()
}

// subst replaces atoms in the polynomial skeleton of t (not inside arguments)
func substTop(t *Term, f func(*Term) *Term) *Term {
	changed := false
	for _, m := range t.monomials() {
		for _, a := range m.atoms {
			if f(a) != nil {
				changed = true
			}
		}
	}
	if !changed {
		return t
	}
	res := zero
	for _, m := range t.monomials() {
		x := IConst(m.c)
		for _, a := range m.atoms {
			if r := f(a); r != nil {
				x = Mul(x, r)
			} else {
				x = Mul(x, a)
			}
		}
		res = Add(res, x)
	}
	return res
}

func inRange(t *Term, lo, hiExcl *big.Int) bool {
	return t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hiExcl) < 0
}

// stripMod returns a polynomial congruent to t modulo m, without residues modulo m at its top level, with
// coefficients in [0,m) if m is constant
func stripMod(t, m *Term) *Term {
	for i := 0; i < 50; i++ {
		n := substTop(t, func(a *Term) *Term {
			if a.kind == KApp && a.name == "mod" && a.args[1] == m {
				return a.args[0]
			}
			return nil
		})
		if n == t {
			break
		}
		t = n
	}
	if m.isConst() {
		p := poly{}
		for _, x := range t.monomials() {
			c := new(big.Int).Mod(x.c, m.val)
			p.addMon(c, cancelInv(x.atoms, m))
		}
		t = p.term()
		// merging may leave coefficients of m or above
		p = poly{}
		for _, x := range t.monomials() {
			p.addMon(new(big.Int).Mod(x.c, m.val), x.atoms)
		}
		t = p.term()
	}
	return t
}

// nonzeroMod says which atoms are known to be invertible modulo a prime: used to cancel a * inv(a)
var nonzeroMod = map[*Term]bool{}

func cancelInv(as []*Term, m *Term) []*Term {
	for i, a := range as {
		if a.kind == KApp && a.name == "inv" && a.args[1] == m {
			for j, b := range as {
				if b == a.args[0] && nonzeroMod[b] {
					r := []*Term{}
					for k, x := range as {
						if k != i && k != j {
							r = append(r, x)
						}
					}
					return cancelInv(r, m)
				}
			}
		}
	}
	return as
}

// Mod is the Euclidean residue, for m > 0
func Mod(t, m *Term) *Term {
	if m.isConst() {
		if m.val.Sign() <= 0 {
			return App("mod", SInt, nil, nil, t, m)
		}
		if t.isConst() {
			return IConst(new(big.Int).Mod(t.val, m.val))
		}
		if inRange(t, big0, m.val) {
			return t
		}
	}
	t = stripMod(t, m)
	if m.isConst() {
		if t.isConst() {
			return IConst(new(big.Int).Mod(t.val, m.val))
		}
		if inRange(t, big0, m.val) {
			return t
		}
		return App("mod", SInt, big0, new(big.Int).Sub(m.val, big1), t, m)
	}
	if t == zero {
		return zero
	}
	var hi *big.Int
	if m.hi != nil {
		hi = new(big.Int).Sub(m.hi, big1)
	}
	return App("mod", SInt, big0, hi, t, m)
}

// Div is the floor quotient for m > 0
func Div(t, m *Term) *Term {
	if m.isConst() && m.val.Sign() > 0 {
		if t.isConst() {
			q, r := new(big.Int).QuoRem(t.val, m.val, new(big.Int))
			if r.Sign() < 0 {
				q.Sub(q, big1)
			}
			return IConst(q)
		}
		if inRange(t, big0, m.val) {
			return zero
		}
		if m.val.Cmp(big1) == 0 {
			return t
		}
		if b := Sub(t, I64(7)); m.val.Cmp(big.NewInt(8)) == 0 && b.kind == KApp && b.name == "bitlen" {
			return BL(b.args[0])
		}
		if t.kind == KApp && t.name == "div" && t.args[1].isConst() && t.args[1].val.Sign() > 0 {
			return Div(t.args[0], IConst(new(big.Int).Mul(t.args[1].val, m.val)))
		}
	}
	var lo, hi *big.Int
	if t.lo != nil && t.lo.Sign() >= 0 && m.lo != nil && m.lo.Sign() > 0 {
		lo, hi = big0, t.hi
		if m.isConst() && hi != nil {
			hi = new(big.Int).Div(hi, m.val)
		}
	}
	return App("div", SInt, lo, hi, t, m)
}

// recompose puts digits together: x mod m + m*(x div m) is x
func recompose(t *Term) *Term {
	for again := true; again; {
		again = false
		coef := map[*Term]*big.Int{}
		for _, m := range t.monomials() {
			if len(m.atoms) == 1 {
				coef[m.atoms[0]] = m.c
			}
		}
		for _, m := range t.monomials() {
			if len(m.atoms) != 1 || m.atoms[0].name != "mod" || m.atoms[0].kind != KApp || !m.atoms[0].args[1].isConst() {
				continue
			}
			x, k := m.atoms[0].args[0], m.atoms[0].args[1]
			d := Div(x, k)
			ck := new(big.Int).Mul(m.c, k.val)
			put := func(old, new *Term) {
				t = Add(t, Scale(m.c, new), Neg(Scale(m.c, m.atoms[0])), Neg(Scale(ck, old)))
				again = true
			}
			if c := coef[d]; c != nil && c.Cmp(ck) == 0 {
				put(d, x)
				break
			}
			for a, c := range coef {
				if a.kind == KApp && a.name == "mod" && a.args[0] == d && a.args[1].isConst() && c.Cmp(ck) == 0 {
					put(a, Mod(x, IConst(new(big.Int).Mul(k.val, a.args[1].val))))
					break
				}
			}
			if again {
				break
			}
		}
	}
	return t
}

// ---- booleans

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// overIte distributes a relation over p = c0 + c1*ite(c, a, b) with a constant leaf
func overIte(p *Term, rel func(*Term) *Term) *Term {
	ms := p.monomials()
	var it *mon
	for i := range ms {
		m := &ms[i]
		if len(m.atoms) == 0 {
			continue
		}
		if it != nil || len(m.atoms) != 1 {
			return nil
		}
		it = m
	}
	if it == nil || it.atoms[0].kind != KApp || it.atoms[0].name != "ite" {
		return nil
	}
	x := it.atoms[0]
	if !x.args[1].isConst() && !x.args[2].isConst() {
		return nil
	}
	rest := Sub(p, Scale(it.c, x))
	return Ite(x.args[0], rel(Add(rest, Scale(it.c, x.args[1]))), rel(Add(rest, Scale(it.c, x.args[2]))))
}

func Ge0(p *Term) *Term {
	if t := overIte(p, Ge0); t != nil {
		return t
	}
	if p.lo != nil && p.lo.Sign() >= 0 {
		return tTrue
	}
	if p.hi != nil && p.hi.Sign() < 0 {
		return tFalse
	}
	// divide by the gcd of the coefficients of non-constant monomials
	g := new(big.Int)
	for _, m := range p.monomials() {
		if len(m.atoms) > 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		}
	}
	if g.Cmp(big1) > 0 {
		q := poly{}
		for _, m := range p.monomials() {
			c := new(big.Int)
			r := new(big.Int)
			c.DivMod(m.c, g, r) // floor for the constant
			q.addMon(c, m.atoms)
		}
		p = q.term()
		return Ge0(p)
	}
	return intern(&Term{kind: KGe0, sort: SBool, args: []*Term{p}})
}

func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }
func Lt(a, b *Term) *Term { return Ge0(Sub(Sub(b, a), one)) }

func Not(t *Term) *Term {
	if t.neg == nil {
		t.neg = negate(t)
	}
	return t.neg
}

func negate(t *Term) *Term {
	switch t.kind {
	case KTrue:
		return tFalse
	case KFalse:
		return tTrue
	case KNot:
		return t.args[0]
	case KGe0:
		return Ge0(Sub(Neg(t.args[0]), one))
	}
	return intern(&Term{kind: KNot, sort: SBool, args: []*Term{t}})
}

func And(ts ...*Term) *Term {
	var as []*Term
	seen := map[*Term]bool{}
	var add func(ts []*Term) bool
	add = func(ts []*Term) bool {
		for _, t := range ts {
			switch t.kind {
			case KTrue:
			case KFalse:
				return false
			case KAnd:
				if !add(t.args) {
					return false
				}
			default:
				if seen[Not(t)] {
					return false
				}
				if !seen[t] {
					seen[t] = true
					as = append(as, t)
				}
			}
		}
		return true
	}
	if !add(ts) {
		return tFalse
	}
	if len(as) == 0 {
		return tTrue
	}
	if len(as) == 1 {
		return as[0]
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return intern(&Term{kind: KAnd, sort: SBool, args: as})
}

func Or(ts ...*Term) *Term {
	ns := make([]*Term, len(ts))
	for i, t := range ts {
		ns[i] = Not(t)
	}
	r := And(ns...)
	switch r.kind {
	case KTrue:
		return tFalse
	case KFalse:
		return tTrue
	case KAnd:
		as := make([]*Term, len(r.args))
		for i, a := range r.args {
			as[i] = Not(a)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		return intern(&Term{kind: KOr, sort: SBool, args: as})
	}
	return Not(r)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

// residue modulus of an atom whose range is [0,m)
func residueOf(t *Term, m *Term) bool { return inRange(t, big0, m.val) }

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort == SBool {
		if a.kind == KTrue {
			return b
		}
		if b.kind == KTrue {
			return a
		}
		return And(Implies(a, b), Implies(b, a))
	}
	if a.sort == SBytes {
		if a.id > b.id {
			a, b = b, a
		}
		return intern(&Term{kind: KEqA, sort: SBool, args: []*Term{a, b}})
	}
	p := Sub(a, b)
	if p.lo != nil && p.lo.Sign() > 0 || p.hi != nil && p.hi.Sign() < 0 {
		return tFalse
	}
	if t := overIte(p, func(q *Term) *Term { return Eq(q, zero) }); t != nil {
		return t
	}
	ms := p.monomials()
	// equality of coordinates
	if len(ms) == 2 && len(ms[0].atoms) == 1 && len(ms[1].atoms) == 1 && ms[0].c.CmpAbs(big1) == 0 && new(big.Int).Add(ms[0].c, ms[1].c).Sign() == 0 {
		x, y := ms[0].atoms[0], ms[1].atoms[0]
		if x.kind == KApp && y.kind == KApp && x.name == y.name && (x.name == "X" || x.name == "Y") {
			d, e := x.args[0], y.args[0]
			same := Eq(d, e)
			opp := Eq(Mod(Add(d, e), tN), zero)
			if x.name == "X" {
				return Or(same, opp)
			}
			if d.id > e.id {
				d, e = e, d
			}
			return Or(same, And(Not(opp), App("yeq", SBool, nil, nil, d, e)))
		}
		// two residues modulo m are equal iff their difference is 0 modulo m
		for _, w := range []*Term{x, y} {
			if w.kind == KApp && w.name == "mod" && w.args[1].isConst() {
				m := w.args[1]
				if residueOf(x, m) && residueOf(y, m) {
					return eqMod0(Sub(x, y), m)
				}
			}
		}
		if tN != nil && residueOf(x, tN) && residueOf(y, tN) && x.hi.Cmp(tN1) == 0 && y.hi.Cmp(tN1) == 0 {
			return eqMod0(Sub(x, y), tN)
		}
	}
	if len(ms) == 1 && len(ms[0].atoms) == 1 {
		x := ms[0].atoms[0]
		if x.kind == KApp && x.name == "mod" && x.args[1].isConst() {
			return eqMod0(x, x.args[1])
		}
	}
	// x == c with a residue x: canonicalise as residue of x-c too
	if len(ms) == 2 && len(ms[0].atoms) == 0 && len(ms[1].atoms) == 1 && ms[1].c.CmpAbs(big1) == 0 {
		x := ms[1].atoms[0]
		if x.kind == KApp && x.name == "mod" && x.args[1].isConst() {
			c := new(big.Int).Mul(ms[0].c, new(big.Int).Neg(ms[1].c))
			if c.Sign() >= 0 && c.Cmp(x.args[1].val) < 0 {
				return eqMod0(Sub(x, IConst(c)), x.args[1])
			}
		}
	}
	// a residue and a polynomial that is a residue by its range
	if len(ms) > 2 && tN != nil {
		for _, y := range ms {
			if len(y.atoms) == 1 && y.c.CmpAbs(big1) == 0 {
				x := y.atoms[0]
				if x.kind == KApp && x.name == "mod" && x.args[1] == tN {
					rest := Sub(p, Scale(y.c, x))
					if y.c.Sign() > 0 {
						rest = Neg(rest)
					}
					if inRange(rest, big0, bigN) {
						return eqMod0(Sub(x, rest), tN)
					}
				}
			}
		}
	}
	return eq0(p)
}

func eq0(p *Term) *Term {
	if p.isConst() {
		return Bool(p.val.Sign() == 0)
	}
	// primitive part, leading sign positive
	g := new(big.Int)
	for _, m := range p.monomials() {
		if len(m.atoms) > 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		}
	}
	if g.Cmp(big1) > 0 {
		for _, m := range p.monomials() {
			if len(m.atoms) == 0 && new(big.Int).Mod(m.c, g).Sign() != 0 {
				return tFalse
			}
		}
		q := poly{}
		for _, m := range p.monomials() {
			q.addMon(new(big.Int).Div(m.c, g), m.atoms)
		}
		p = q.term()
	}
	ms := p.monomials()
	if ms[len(ms)-1].c.Sign() < 0 {
		p = Neg(p)
	}
	return intern(&Term{kind: KEq0, sort: SBool, args: []*Term{p}})
}

// clearInverses multiplies a polynomial by the elements whose inverses it contains: it vanishes modulo the prime m iff
// the result does
func clearInverses(r, m *Term) *Term {
	for round := 0; round < 8; round++ {
		var w *Term
		for _, x := range r.monomials() {
			for _, a := range x.atoms {
				if a.kind == KApp && a.name == "inv" && a.args[1] == m && nonzeroMod[a.args[0]] && (w == nil || a.id > w.id) {
					w = a
				}
			}
		}
		if w == nil {
			return r
		}
		var coef []*Term // by power of w
		for _, x := range r.monomials() {
			k := 0
			var rest []*Term
			for _, a := range x.atoms {
				if a == w {
					k++
				} else {
					rest = append(rest, a)
				}
			}
			for len(coef) <= k {
				coef = append(coef, zero)
			}
			q := poly{}
			q.addMon(x.c, rest)
			coef[k] = Add(coef[k], q.term())
		}
		n := zero
		g := stripMod(w.args[0], m)
		for k, c := range coef {
			for i := k; i < len(coef)-1; i++ {
				c = stripMod(Mul(c, g), m)
			}
			n = Add(n, c)
		}
		n = stripMod(n, m)
		if len(n.monomials()) > 3000 {
			return r
		}
		r = n
	}
	return r
}

// eqMod0: t = 0 modulo the constant m, in canonical form
func eqMod0(t, m *Term) *Term {
	r := stripMod(t, m)
	if tN != nil && m == tN {
		r = clearInverses(r, m)
	}
	if r.isConst() {
		return Bool(new(big.Int).Mod(r.val, m.val).Sign() == 0)
	}
	n := stripMod(Neg(r), m)
	// choose the representative with the smaller leading coefficient; if m is prime (the group order), make it 1
	ms := r.monomials()
	lead := ms[len(ms)-1]
	if tN != nil && m == tN && lead.c.Cmp(big1) != 0 {
		inv := new(big.Int).ModInverse(lead.c, m.val)
		r = stripMod(Scale(inv, r), m)
	} else if nm := n.monomials(); nm[len(nm)-1].c.Cmp(lead.c) < 0 {
		r = n
	}
	// single atom: a residue is zero only if it is 0
	if ms := r.monomials(); len(ms) == 1 && len(ms[0].atoms) == 1 && ms[0].c.Cmp(big1) == 0 && inRange(ms[0].atoms[0], big0, m.val) {
		return eq0(ms[0].atoms[0])
	}
	// over a prime a monomial vanishes iff one factor does
	if ms := r.monomials(); tN != nil && m == tN && len(ms) == 1 && len(ms[0].atoms) > 1 {
		var os []*Term
		for _, a := range ms[0].atoms {
			os = append(os, eqMod0(a, m))
		}
		if len(ms[0].atoms) > 1 {
			return Or(os...)
		}
	}
	mt := App("mod", SInt, big0, new(big.Int).Sub(m.val, big1), r, m)
	if inRange(r, big0, m.val) {
		return eq0(r)
	}
	return intern(&Term{kind: KEq0, sort: SBool, args: []*Term{mt}})
}

// Cong: a = b modulo m
func Cong(a, b, m *Term) *Term {
	if m.isConst() {
		return eqMod0(Sub(a, b), m)
	}
	return Eq(Mod(a, m), Mod(b, m))
}

func Ite(c, a, b *Term) *Term {
	switch c.kind {
	case KTrue:
		return a
	case KFalse:
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		return And(Implies(c, a), Implies(Not(c), b))
	}
	var lo, hi *big.Int
	if a.lo != nil && b.lo != nil {
		lo = a.lo
		if b.lo.Cmp(lo) < 0 {
			lo = b.lo
		}
	}
	if a.hi != nil && b.hi != nil {
		hi = a.hi
		if b.hi.Cmp(hi) > 0 {
			hi = b.hi
		}
	}
	return App("ite", a.sort, lo, hi, c, a, b)
}

// ---- printing

func (t *Term) String() string { return t.show(0) }

func (t *Term) show(depth int) string {
	if depth > 12 {
		return "..."
	}
	args := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, a.show(depth+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.kind {
	case KConst:
		if tN != nil && t.val.CmpAbs(tN.val) == 0 {
			if t.val.Sign() < 0 {
				return "-N"
			}
			return "N"
		}
		if tN != nil && t.val.BitLen() > 200 {
			d := new(big.Int).Sub(tN.val, t.val)
			if d.BitLen() < 64 {
				return fmt.Sprintf("(N-%v)", d)
			}
		}
		return t.val.String()
	case KTrue:
		return "true"
	case KFalse:
		return "false"
	case KVar:
		return t.name
	case KApp:
		if t.name == "mod" {
			return "(" + t.args[0].show(depth+1) + " mod " + t.args[1].show(depth+1) + ")"
		}
		return t.name + "(" + args() + ")"
	case KPoly:
		var s []string
		for _, m := range t.mons {
			var f []string
			if m.c.Cmp(big1) != 0 || len(m.atoms) == 0 {
				f = append(f, IConst(m.c).show(depth+1))
			}
			for _, a := range m.atoms {
				f = append(f, a.show(depth+1))
			}
			s = append(s, strings.Join(f, "*"))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case KGe0:
		return t.args[0].show(depth+1) + " >= 0"
	case KEq0:
		return t.args[0].show(depth+1) + " == 0"
	case KEqA:
		return t.args[0].show(depth+1) + " == " + t.args[1].show(depth+1)
	case KNot:
		return "!(" + args() + ")"
	case KAnd:
		var s []string
		for _, a := range t.args {
			s = append(s, a.show(depth+1))
		}
		return "(" + strings.Join(s, " && ") + ")"
	case KOr:
		var s []string
		for _, a := range t.args {
			s = append(s, a.show(depth+1))
		}
		return "(" + strings.Join(s, " || ") + ")"
	}
	return "?"
}

// substAll replaces variables everywhere, rebuilding with the smart constructors
func substAll(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	switch t.kind {
	case KConst, KTrue, KFalse, KVar:
		r = t
	case KPoly:
		r = zero
		for _, x := range t.mons {
			y := IConst(x.c)
			for _, a := range x.atoms {
				y = Mul(y, substAll(a, m, memo))
			}
			r = Add(r, y)
		}
	default:
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = substAll(a, m, memo)
			if as[i] != a {
				ch = true
			}
		}
		if !ch {
			r = t
			break
		}
		switch t.kind {
		case KGe0:
			r = Ge0(as[0])
		case KEq0:
			r = Eq(as[0], zero)
		case KEqA:
			r = Eq(as[0], as[1])
		case KNot:
			r = Not(as[0])
		case KAnd:
			r = And(as...)
		case KOr:
			r = Or(as...)
		case KApp:
			switch t.name {
			case "mod":
				r = Mod(as[0], as[1])
			case "div":
				r = Div(as[0], as[1])
			case "ite":
				r = Ite(as[0], as[1], as[2])
			default:
				r = App(t.name, t.sort, t.lo, t.hi, as...)
			}
		}
	}
	memo[t] = r
	return r
}

// curve constants
var (
	bigN, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	bigP, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	tN      *Term
	tN1     *big.Int
	tP      *Term
)

func init() {
	tP = IConst(bigP)
	tN1 = new(big.Int).Sub(bigN, big1)
	tN = IConst(bigN)
}
