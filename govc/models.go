package main

// Trusted contracts of functions outside the repository. Each is a rule from arguments to result and effects.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(e *Exec, fn *ssa.Function, a []Val) Val

var models = map[string]model{}
var usedModels = map[string]bool{}

func (v *Verifier) model(fn *ssa.Function) model {
	name := fn.String()
	if fn.Pkg == nil && fn.Object() != nil && fn.Signature.Recv() != nil {
		// wrappers for promoted methods: run their body
	}
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	m := models[name]
	if m != nil {
		usedModels[name] = true
	}
	return m
}

func (e *Exec) big(v Val) *Term {
	p, ok := v.(*Ptr)
	if !ok {
		e.unsupported(fmt.Sprintf("big.Int %T", v))
	}
	if p.obj == nil {
		e.safety("nil dereference (big.Int)", tFalse)
	}
	t, ok := e.load(p).(*Term)
	if !ok {
		e.unsupported("big.Int content")
	}
	return t
}

func (e *Exec) newBig(t *Term) *Ptr {
	return &Ptr{obj: e.newObj(e.v.bigT, t, "big.Int")}
}

func bigOp(f func(e *Exec, a []*Term) *Term) model {
	return func(e *Exec, fn *ssa.Function, a []Val) Val {
		ts := make([]*Term, len(a)-1)
		for i := range ts {
			ts[i] = e.big(a[i+1])
		}
		r := f(e, ts)
		e.store(e.ptr(a[0]), r)
		return a[0]
	}
}

func (e *Exec) posMod(m *Term) *Term {
	e.safety("division by zero (big.Int)", Not(Eq(m, zero)))
	if e.branch(Lt(zero, m)) {
		return m
	}
	return Neg(m)
}

func cmpTerm(a, b *Term) *Term {
	return Ite(Eq(a, b), zero, Ite(Lt(a, b), I64(-1), one))
}

func (e *Exec) abs(t *Term) *Term {
	if t.lo != nil && t.lo.Sign() >= 0 {
		return t
	}
	if e.branch(Le(zero, t)) {
		return t
	}
	return Neg(t)
}

func (e *Exec) newErr(desc string) *IfaceV {
	return &IfaceV{typ: mkErr, v: &ErrV{id: e.newObj(nil, nil, "an error").id, desc: desc}}
}

var nilIface = &IfaceV{}
var errEOF = &IfaceV{typ: mkErr, v: &ErrV{id: -1, desc: "EOF"}}
var errUEOF = &IfaceV{typ: mkErr, v: &ErrV{id: -2, desc: "unexpected EOF"}}

func (e *Exec) inverse(g, n *Term) (*Term, bool) {
	// inverse modulo n; the boolean is false if there is none
	if g.isConst() && n.isConst() {
		r := new(big.Int).ModInverse(g.val, n.val)
		if r == nil {
			return nil, false
		}
		return IConst(r), true
	}
	if n == tN {
		if e.branch(Eq(Mod(g, n), zero)) {
			return nil, false
		}
		return invTerm(Mod(g, n)), true
	}
	if e.choose(2) == 1 {
		return nil, false
	}
	r := App("inv", SInt, big0, nil, Mod(g, n), n)
	e.assume(Le(zero, r))
	e.assume(Lt(r, n))
	e.assume(Eq(Mod(Mul(g, r), n), Mod(one, n)))
	return r, true
}

func invTerm(g *Term) *Term {
	if g.isConst() {
		r := new(big.Int).ModInverse(g.val, bigN)
		return IConst(r)
	}
	// split products
	in := g
	if g.kind == KApp && g.name == "mod" && g.args[1] == tN {
		in = g.args[0]
	}
	if ms := in.monomials(); len(ms) == 1 && (len(ms[0].atoms) > 1 || ms[0].c.Cmp(big1) != 0) {
		r := IConst(new(big.Int).ModInverse(ms[0].c, bigN))
		for _, a := range ms[0].atoms {
			r = Mul(r, invTerm(Mod(a, tN)))
		}
		return Mod(r, tN)
	}
	nonzeroMod[g] = true
	return App("inv", SInt, big0, tN1, g, tN)
}

func (e *Exec) power(x, y, m *Term) *Term {
	if y.isConst() && y.val.Sign() >= 0 && y.val.Cmp(big.NewInt(64)) <= 0 {
		r := one
		for i := int64(0); i < y.val.Int64(); i++ {
			r = Mul(r, x)
		}
		if m != nil {
			r = Mod(r, m)
		}
		return r
	}
	if x.isConst() && y.isConst() && m != nil && m.isConst() && y.val.Sign() >= 0 {
		return IConst(new(big.Int).Exp(x.val, y.val, m.val))
	}
	if m == tN && y.isConst() && y.val.Cmp(new(big.Int).Sub(bigN, big.NewInt(2))) == 0 {
		if e.branch(Eq(Mod(x, tN), zero)) {
			return zero
		}
		return invTerm(Mod(x, tN))
	}
	if m == nil {
		return App("pow", SInt, nil, nil, x, y)
	}
	if e.unbounded && e.holds(Le(zero, y)) {
		return Mod(App("pow", SInt, nil, nil, x, y), m)
	}
	return App("powmod", SInt, big0, nil, x, y, m)
}

func init() {
	B := "(*math/big.Int)."
	models["math/big.NewInt"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return e.newBig(e.term(a[0])) }
	models[B+"Set"] = bigOp(func(e *Exec, a []*Term) *Term { return a[0] })
	models[B+"Add"] = bigOp(func(e *Exec, a []*Term) *Term { return oppositeY(Add(a[0], a[1])) })
	models[B+"Sub"] = bigOp(func(e *Exec, a []*Term) *Term { return oppositeY(Sub(a[0], a[1])) })
	models[B+"Mul"] = bigOp(func(e *Exec, a []*Term) *Term { return Mul(a[0], a[1]) })
	models[B+"Neg"] = bigOp(func(e *Exec, a []*Term) *Term { return Neg(a[0]) })
	models[B+"Abs"] = bigOp(func(e *Exec, a []*Term) *Term { return e.abs(a[0]) })
	models[B+"Mod"] = bigOp(func(e *Exec, a []*Term) *Term { return oppositeY(Mod(a[0], e.posMod(a[1]))) })
	models[B+"Div"] = bigOp(func(e *Exec, a []*Term) *Term {
		m := e.posMod(a[1])
		q := Div(a[0], m)
		if m != a[1] {
			return Neg(q)
		}
		return q
	})
	trunc := func(rem bool) model {
		return bigOp(func(e *Exec, a []*Term) *Term {
			m := e.posMod(a[1])
			x := a[0]
			neg := false
			if !(x.lo != nil && x.lo.Sign() >= 0) && !e.branch(Le(zero, x)) {
				x = Neg(x)
				neg = true
			}
			if rem {
				r := Mod(x, m)
				if neg {
					return Neg(r)
				}
				return r
			}
			q := Div(x, m)
			if neg != (m != a[1]) {
				q = Neg(q)
			}
			return q
		})
	}
	models[B+"Quo"] = trunc(false)
	models[B+"Rem"] = trunc(true)
	models[B+"DivMod"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		x, y := e.big(a[1]), e.big(a[2])
		m := e.posMod(y)
		q, r := Div(x, m), Mod(x, m)
		if m != y {
			q = Neg(q)
		}
		e.store(e.ptr(a[0]), q)
		e.store(e.ptr(a[3]), r)
		return TupleV{a[0], a[3]}
	}
	setInt := func(e *Exec, fn *ssa.Function, a []Val) Val {
		e.store(e.ptr(a[0]), e.term(a[1]))
		return a[0]
	}
	models[B+"SetInt64"] = setInt
	models[B+"SetUint64"] = setInt
	models[B+"SetBytes"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		r := e.bytesOf(a[1].(*SliceV))
		e.store(e.ptr(a[0]), r.beVal())
		return a[0]
	}
	models[B+"Cmp"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return cmpTerm(e.big(a[0]), e.big(a[1])) }
	models[B+"CmpAbs"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return cmpTerm(e.abs(e.big(a[0])), e.abs(e.big(a[1])))
	}
	models[B+"Sign"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return cmpTerm(e.big(a[0]), zero) }
	models[B+"Bytes"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return e.newBytes(Rope{seg(SBig, 0, e.abs(e.big(a[0])))}, "Bytes")
	}
	models[B+"FillBytes"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		s := a[1].(*SliceV)
		x := e.abs(e.big(a[0]))
		e.safety("FillBytes fits", Le(BL(x), s.len))
		if w, ok := e.concrete(s.len); ok {
			e.writeBytes(s, zero, Rope{seg(SBE, w, x)})
		} else {
			e.writeBytes(s, zero, Rope{zseg(Sub(s.len, BL(x))), seg(SBig, 0, x)})
		}
		return s
	}
	models[B+"BitLen"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		x := e.abs(e.big(a[0]))
		if x.isConst() {
			return I64(int64(x.val.BitLen()))
		}
		return App("bitlen", SInt, big0, big.NewInt(1<<43), x)
	}
	extraAxioms["bitlen"] = func(t *Term) []*Term {
		x := t.args[0]
		r := []*Term{Eq(Eq(x, zero), Eq(t, zero))}
		for _, k := range []int64{8, 16, 32, 64, 128, 255, 256, 257, 264, 384, 512} {
			r = append(r, Eq(Le(t, I64(k)), Lt(x, IConst(new(big.Int).Lsh(big1, uint(k))))))
		}
		return r
	}
	models[B+"Int64"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return e.wrap(e.big(a[0]), types.Typ[types.Int64])
	}
	models[B+"Uint64"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return e.wrap(e.big(a[0]), types.Typ[types.Uint64])
	}
	models[B+"IsInt64"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		x := e.big(a[0])
		return And(Le(I64(-1<<63), x), Le(x, I64(1<<63-1)))
	}
	models[B+"IsUint64"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		x := e.big(a[0])
		return And(Le(zero, x), Lt(x, IConst(new(big.Int).Lsh(big1, 64))))
	}
	models[B+"Lsh"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		k, ok := e.concrete(a[2])
		if !ok {
			e.unsupported("shift by unknown amount")
		}
		e.store(e.ptr(a[0]), Scale(new(big.Int).Lsh(big1, uint(k)), e.big(a[1])))
		return a[0]
	}
	models[B+"Rsh"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		k, ok := e.concrete(a[2])
		if !ok {
			e.unsupported("shift by unknown amount")
		}
		e.store(e.ptr(a[0]), Div(e.big(a[1]), IConst(new(big.Int).Lsh(big1, uint(k)))))
		return a[0]
	}
	models[B+"ModInverse"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		n := e.posMod(e.big(a[2]))
		r, ok := e.inverse(e.big(a[1]), n)
		if !ok {
			return nilPtr
		}
		e.store(e.ptr(a[0]), r)
		return a[0]
	}
	models[B+"Exp"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		x, y := e.big(a[1]), e.big(a[2])
		var m *Term
		if p := e.ptr(a[3]); p.obj != nil {
			m = e.big(p)
			if e.branch(Eq(m, zero)) {
				m = nil
			}
		}
		if !(y.lo != nil && y.lo.Sign() >= 0) && !e.branch(Le(zero, y)) {
			if m == nil {
				e.store(e.ptr(a[0]), one)
				return a[0]
			}
			inv, ok := e.inverse(x, m)
			if !ok {
				return nilPtr
			}
			x, y = inv, Neg(y)
		}
		e.store(e.ptr(a[0]), e.power(x, y, m))
		return a[0]
	}
	models[B+"ProbablyPrime"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return e.fresh("prime", SBool, nil, nil) }
	models[B+"GCD"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		if e.ptr(a[1]).obj != nil || e.ptr(a[2]).obj != nil {
			e.unsupported("GCD with cofactors")
		}
		x, y := e.big(a[3]), e.big(a[4])
		if x.isConst() && y.isConst() {
			e.store(e.ptr(a[0]), IConst(new(big.Int).GCD(nil, nil, x.val, y.val)))
		} else {
			e.store(e.ptr(a[0]), App("gcd", SInt, big0, nil, x, y))
		}
		return a[0]
	}
	models[B+"Bit"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		i, ok := e.concrete(a[1])
		if !ok || i < 0 || i > 1<<16 {
			e.unsupported("a bit at an unknown position")
		}
		x := e.big(a[0])
		if !(x.lo != nil && x.lo.Sign() >= 0) {
			e.unsupported("a bit of a number that may be negative")
		}
		if x.isConst() {
			return I64(int64(x.val.Bit(i)))
		}
		return Mod(Div(x, IConst(new(big.Int).Lsh(big1, uint(i)))), I64(2))
	}
	for _, op := range []string{"And", "Or", "Xor", "AndNot"} {
		op, name := op, "bits"+op
		models[B+op] = bigOp(func(e *Exec, a []*Term) *Term {
			var lo *big.Int
			if a[0].lo != nil && a[0].lo.Sign() >= 0 && a[1].lo != nil && a[1].lo.Sign() >= 0 {
				lo = big0
			}
			if lo != nil {
				for _, p := range [][2]*Term{{a[0], a[1]}, {a[1], a[0]}} {
					if m := p[1]; m.isConst() && op == "And" {
						if k := new(big.Int).Add(m.val, big1); new(big.Int).And(k, m.val).Sign() == 0 {
							return Mod(p[0], IConst(k))
						}
					}
				}
				if op == "Or" || op == "Xor" {
					if r := orDisjoint(a[0], a[1]); r != nil {
						return recompose(r)
					}
				}
			}
			return App(name, SInt, lo, nil, a[0], a[1])
		})
	}
	models[B+"Not"] = bigOp(func(e *Exec, a []*Term) *Term { return Sub(Neg(a[0]), one) })
	models[B+"Sqrt"] = bigOp(func(e *Exec, a []*Term) *Term {
		e.safety("square root of a non-negative number", Le(zero, a[0]))
		if a[0].isConst() {
			return IConst(new(big.Int).Sqrt(a[0].val))
		}
		r := App("isqrt", SInt, big0, nil, a[0])
		e.assume(And(Le(Mul(r, r), a[0]), Lt(a[0], Mul(Add(r, one), Add(r, one)))))
		return r
	})
	models[B+"ModSqrt"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		x, m := e.big(a[1]), e.big(a[2])
		if !e.branch(e.fresh("quadratic residue", SBool, nil, nil)) {
			return nilPtr
		}
		r := App("modsqrt", SInt, big0, nil, x, m)
		e.assume(And(Lt(r, m), Eq(Mod(Sub(Mul(r, r), x), m), zero)))
		e.store(e.ptr(a[0]), r)
		return a[0]
	}
	models["crypto/sha256.Sum256"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return Rope{seg(SBE, 32, App("sha256", SInt, big0, new(big.Int).Sub(new(big.Int).Lsh(big1, 256), big1), e.bytesOf(a[0].(*SliceV)).term()))}
	}

	// crypto/rand
	models["crypto/rand.Int"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		m := e.big(a[1])
		e.safety("rand.Int with a positive maximum", Lt(zero, m))
		rd := "?"
		if iv, ok := a[0].(*IfaceV); ok {
			if iv.typ == nil {
				e.safety("nil dereference (reader)", tFalse)
			}
			if o, ok := iv.v.(*OpaqueV); ok {
				rd = o.name
			}
		}
		var hi *big.Int
		if m.isConst() {
			hi = new(big.Int).Sub(m.val, big1)
		} else if m.hi != nil {
			hi = new(big.Int).Sub(m.hi, big1)
		}
		t := e.fresh("draw", SInt, big0, hi)
		if !m.isConst() {
			e.assume(Lt(t, m))
		}
		e.draws = append(e.draws, &Draw{t: t, max: m, reader: rd, seq: len(e.draws)})
		return TupleV{e.newBig(t), nilIface}
	}

	// errors, fmt
	mkE := func(e *Exec, fn *ssa.Function, a []Val) Val {
		d := "error"
		if s, ok := a[0].(StrV); ok {
			if c, ok := s.r.constant(); ok {
				d = string(c)
			}
		}
		r := e.newErr(d)
		if len(a) > 1 && strings.Contains(d, "%w") {
			if sl, ok := a[1].(*SliceV); ok {
				for _, x := range e.elems(sl, "arguments") {
					if w, ok := isErrVal(x); ok {
						r.v.(*ErrV).wraps = append(r.v.(*ErrV).wraps, w)
					}
				}
				r.v.(*ErrV).many = strings.Count(d, "%w") > 1
			}
		}
		return r
	}
	models["fmt.Errorf"] = mkE
	models["errors.New"] = mkE
	models["github.com/pkg/errors.New"] = mkE
	models["fmt.Sprintf"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return e.format(a[0], a[1]) }
	models["fmt.Sprint"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return e.sprint(a[0], false) }
	models["fmt.Sprintln"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return e.sprint(a[0], true) }
	models["fmt.Println"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return TupleV{zero, nilIface} }
	models["fmt.Print"] = models["fmt.Println"]
	models["fmt.Printf"] = models["fmt.Println"]
	models["fmt.Fprintf"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return e.writeTo(a[0], e.format(a[1], a[2]).r)
	}
	models["fmt.Fprintln"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return e.writeTo(a[0], e.sprint(a[1], true).r)
	}
	models["fmt.Fprint"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return e.writeTo(a[0], e.sprint(a[1], false).r)
	}

	// encoding/binary
	for _, o := range []struct {
		name string
		le   bool
	}{{"bigEndian", false}, {"littleEndian", true}} {
		for _, w := range []int{2, 4, 8} {
			w, o := w, o
			pre := "(encoding/binary." + o.name + ")."
			models[fmt.Sprintf("%sPutUint%d", pre, 8*w)] = func(e *Exec, fn *ssa.Function, a []Val) Val {
				s := a[1].(*SliceV)
				e.safety("PutUint fits", Le(I64(int64(w)), s.len))
				k := SBE
				if o.le {
					k = SLE
					e.littleEndian = true
				}
				e.writeBytes(s, zero, Rope{seg(k, w, e.term(a[2]))})
				return nil
			}
			models[fmt.Sprintf("%sAppendUint%d", pre, 8*w)] = func(e *Exec, fn *ssa.Function, a []Val) Val {
				k := SBE
				if o.le {
					k = SLE
				}
				x := e.newBytes(Rope{seg(k, w, e.term(a[2]))}, "uint")
				return e.append(a[1].(*SliceV), x, types.NewSlice(types.Typ[types.Byte]))
			}
			models[fmt.Sprintf("%sUint%d", pre, 8*w)] = func(e *Exec, fn *ssa.Function, a []Val) Val {
				s := a[1].(*SliceV)
				e.safety("Uint fits", Le(I64(int64(w)), s.len))
				r := e.ropeSub(e.bytesOf(s), zero, I64(int64(w)))
				return e.fixedVal(r, w, o.le)
			}
		}
	}

	// bytes
	models["bytes.NewBuffer"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		s := a[0].(*SliceV)
		if len(s.path) > 0 {
			// content only; later writes to the array are not seen
			s = e.newBytes(e.bytesOf(s), "buffer")
		}
		b := &BufV{}
		if s.obj != nil {
			b = &BufV{back: s.obj, off: s.off, end: Add(s.off, s.len)}
		}
		return &Ptr{obj: e.newObj(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem(), b, "buffer")}
	}
	models["bytes.NewBufferString"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		s := e.newBytes(a[0].(StrV).r, "buffer")
		return &Ptr{obj: e.newObj(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem(), &BufV{back: s.obj, off: zero, end: s.len}, "buffer")}
	}
	models["bytes.NewReader"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		s := a[0].(*SliceV)
		b := &BufV{}
		if s.obj != nil {
			c := e.newBytes(e.bytesOf(s), "reader")
			b = &BufV{back: c.obj, off: zero, end: c.len}
		}
		return &Ptr{obj: e.newObj(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem(), b, "reader")}
	}
	for _, t := range []string{"(*bytes.Buffer).", "(*bytes.Reader).", "(*strings.Builder).", "(*strings.Reader).", "(*bufio.Reader)."} {
		models[t+"Write"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			r := e.bytesOf(a[1].(*SliceV))
			e.bufWrite(e.ptr(a[0]), r)
			return TupleV{r.Len(), nilIface}
		}
		models[t+"WriteString"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			r := a[1].(StrV).r
			e.bufWrite(e.ptr(a[0]), r)
			return TupleV{r.Len(), nilIface}
		}
		models[t+"WriteByte"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			e.bufWrite(e.ptr(a[0]), Rope{seg(SBE, 1, e.term(a[1]))})
			return nilIface
		}
		models[t+"Bytes"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			b := e.buf(a[0])
			if b.back == nil {
				return &SliceV{off: zero, len: zero, cap: zero}
			}
			n := Sub(b.end, b.off)
			return &SliceV{obj: b.back, off: b.off, len: n, cap: n}
		}
		models[t+"String"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return StrV{e.bufContent(e.buf(a[0]))} }
		models[t+"Len"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			b := e.buf(a[0])
			if b.back == nil {
				return zero
			}
			return Sub(b.end, b.off)
		}
		models[t+"Reset"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			b := e.buf(a[0])
			if b.back != nil {
				if strings.Contains(fn.String(), "Builder") {
					e.store(e.ptr(a[0]), &BufV{})
				} else {
					e.store(e.ptr(a[0]), &BufV{back: b.back, off: zero, end: zero})
				}
			}
			return nil
		}
		models[t+"Grow"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return nil }
		models[t+"Read"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			return e.readSome(&IfaceV{typ: fn.Signature.Recv().Type(), v: a[0]}, a[1].(*SliceV))
		}
		models[t+"Next"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			b := e.buf(a[0])
			if b.back == nil {
				return &SliceV{off: zero, len: zero, cap: zero}
			}
			n := e.minTerm(e.term(a[1]), Sub(b.end, b.off))
			e.store(e.ptr(a[0]), &BufV{back: b.back, off: Add(b.off, n), end: b.end})
			return &SliceV{obj: b.back, off: b.off, len: n, cap: n}
		}
		models[t+"ReadByte"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			d := e.newBytes(Rope{zseg(one)}, "byte")
			r := e.readSome(&IfaceV{typ: fn.Signature.Recv().Type(), v: a[0]}, d).(TupleV)
			return TupleV{e.byteAt(e.bytesOf(d), zero), r[1]}
		}
	}
	models["bytes.Equal"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return e.ropeEq(e.bytesOf(a[0].(*SliceV)), e.bytesOf(a[1].(*SliceV)))
	}
	models["bytes.Compare"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		eq := e.ropeEq(e.bytesOf(a[0].(*SliceV)), e.bytesOf(a[1].(*SliceV)))
		return Ite(eq, zero, Ite(e.fresh("bytescmp", SBool, nil, nil), one, I64(-1)))
	}
	models["bytes.Clone"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		s := a[0].(*SliceV)
		if s.obj == nil {
			return s
		}
		return e.newBytes(e.bytesOf(s), "clone")
	}

	// io
	models["io.ReadFull"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		if !e.modelReader(a[0]) {
			return e.body(fn, a, nil)
		}
		return e.readFull(a[0], a[1].(*SliceV))
	}
	models["io.ReadAtLeast"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		if !e.modelReader(a[0]) {
			return e.body(fn, a, nil)
		}
		s := a[1].(*SliceV)
		m := e.term(a[2])
		if b, ok := e.known(Eq(m, s.len)); ok && b {
			return e.readFull(a[0], s)
		}
		e.unsupported("io.ReadAtLeast")
		return nil
	}
	models["io.WriteString"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return e.writeTo(a[0], a[1].(StrV).r) }

	// hkdf
	models["crypto/sha256.New"] = nil
	models["golang.org/x/crypto/hkdf.New"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		h := "unknown hash"
		if f, ok := a[0].(*FuncV); ok && f.fn != nil {
			h = f.fn.String()
		}
		src := App("hkdf:"+h, SBytes, nil, nil, e.bytesOf(a[1].(*SliceV)).term(), e.bytesOf(a[2].(*SliceV)).term(), e.bytesOf(a[3].(*SliceV)).term())
		o := e.newObj(nil, &StreamV{name: "hkdf", in: Rope{rseg(src, zero, I64(255*32))}, n: -1}, "hkdf")
		return &IfaceV{typ: mkStream, v: &Ptr{obj: o}}
	}

	// sync, time
	W := "(*sync.WaitGroup)."
	models[W+"Add"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		p := e.ptr(a[0])
		t := Add(e.load(p).(*Term), e.term(a[1]))
		e.safety("WaitGroup counter is not negative", Le(zero, t))
		e.store(p, t)
		return nil
	}
	models[W+"Done"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		p := e.ptr(a[0])
		t := Sub(e.load(p).(*Term), one)
		e.safety("WaitGroup counter is not negative", Le(zero, t))
		e.store(p, t)
		return nil
	}
	models[W+"Wait"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		p := e.ptr(a[0])
		e.block("WaitGroup", func() bool { return e.load(p).(*Term) == zero })
		return nil
	}
	models[W+"Go"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		p := e.ptr(a[0])
		e.store(p, Add(e.load(p).(*Term), one))
		f := a[1].(*FuncV)
		e.spawn(func() {
			e.callFn(f, nil)
			e.store(p, Sub(e.load(p).(*Term), one))
		})
		return nil
	}
	for _, t := range []string{"(*sync.Mutex).", "(*sync.RWMutex)."} {
		models[t+"Lock"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			p := e.ptr(a[0])
			e.block("mutex", func() bool { return e.load(p).(*Term) == zero })
			e.store(p, one)
			return nil
		}
		models[t+"Unlock"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			p := e.ptr(a[0])
			e.safety("unlock of a locked mutex", Eq(e.load(p).(*Term), one))
			e.store(p, zero)
			return nil
		}
		models[t+"RLock"] = models[t+"Lock"]
		models[t+"RUnlock"] = models[t+"Unlock"]
	}
	opq := func(e *Exec, fn *ssa.Function, a []Val) Val {
		res := fn.Signature.Results()
		switch res.Len() {
		case 0:
			return nil
		case 1:
			return e.opaque(res.At(0).Type(), fn.Name())
		}
		t := TupleV{}
		for i := 0; i < res.Len(); i++ {
			t = append(t, e.opaque(res.At(i).Type(), fn.Name()))
		}
		return t
	}
	for _, n := range []string{"time.Now", "time.Until", "time.Since", "time.Sleep", "(time.Time).Add", "(time.Time).Sub", "(time.Time).Before",
		"(time.Time).After", "(time.Duration).String", "(time.Duration).Seconds", "(time.Duration).Nanoseconds", "(time.Duration).Milliseconds", "(time.Time).Format", "(time.Time).UTC", "runtime.Gosched", "runtime.GC", "runtime.NumCPU", "runtime.GOMAXPROCS", "(time.Time).UnixNano", "(time.Time).Unix"} {
		n := n
		models[n] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			if e.steady {
				switch n {
				case "time.Until":
					return I64(500e6)
				case "time.Since":
					return I64(5e6)
				case "(time.Time).Before":
					return tTrue
				case "(time.Time).After":
					return tFalse
				}
			}
			return opq(e, fn, a)
		}
	}
	gvm("SteadyClock", func(e *Exec, a []Val) Val { e.steady = true; return nil })
	models["(time.Time).IsZero"] = opq

	// the curve implementation the group is built on
	models["github.com/ethereum/go-ethereum/crypto/secp256k1.S256"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return e.s256(fn) }
	C := "(*github.com/ethereum/go-ethereum/crypto/secp256k1.BitCurve)."
	models[C+"Params"] = nil
	models[C+"Add"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		d1, ok1 := e.coordDL(e.big(a[1]), e.big(a[2]))
		d2, ok2 := e.coordDL(e.big(a[3]), e.big(a[4]))
		if !ok1 || !ok2 {
			return e.junkPoint()
		}
		if e.branch(Or(Eq(d1, d2), Eq(Mod(Add(d1, d2), tN), zero))) {
			return TupleV{e.newBig(zero), e.newBig(zero)}
		}
		return e.coords(Mod(Add(d1, d2), tN))
	}
	models[C+"Double"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		d, ok := e.coordDL(e.big(a[1]), e.big(a[2]))
		if !ok {
			return e.junkPoint()
		}
		return e.coords(Mod(Scale(big.NewInt(2), d), tN))
	}
	smul := func(e *Exec, d *Term, ok bool, s *SliceV) Val {
		r := e.bytesOf(s)
		e.safety("scalar of at most 32 bytes", Le(r.Len(), I64(32)))
		if !ok {
			return e.junkPoint()
		}
		k := r.beVal()
		if e.branch(Or(Eq(k, zero), Le(tN, k))) {
			return TupleV{nilPtr, nilPtr}
		}
		return e.coords(Mod(Mul(d, k), tN))
	}
	models[C+"ScalarMult"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		d, ok := e.coordDL(e.big(a[1]), e.big(a[2]))
		return smul(e, d, ok, a[3].(*SliceV))
	}
	models[C+"ScalarBaseMult"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return smul(e, one, true, a[1].(*SliceV))
	}
	models[C+"IsOnCurve"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		x, y := e.big(a[1]), e.big(a[2])
		if x.kind == KApp && x.name == "X" && y.kind == KApp && y.name == "Y" {
			d := x.args[0]
			if d == y.args[0] {
				return tTrue
			}
			return Or(Eq(y, yOf(d)), Eq(y, yOf(Mod(Neg(d), tN))))
		}
		return onCurve(x, y)
	}
}

func xOf(d *Term) *Term { return App("X", SInt, big1, new(big.Int).Sub(bigP, big1), d) }
func yOf(d *Term) *Term { return App("Y", SInt, big1, new(big.Int).Sub(bigP, big1), d) }

// oppositeY writes P-Y(d), the second coordinate of the opposite point, as Y(-d)
func oppositeY(t *Term) *Term {
	u := t
	if u.kind == KApp && u.name == "mod" && u.args[1] == tP {
		u = u.args[0]
	}
	y := Sub(tP, u)
	if u != t {
		y = Neg(u)
	}
	if y.kind == KApp && y.name == "Y" {
		return yOf(Mod(Neg(y.args[0]), tN))
	}
	return t
}

func onCurve(x, y *Term) *Term {
	x, y = Mod(x, tP), Mod(y, tP)
	if x.isConst() && y.isConst() {
		l := new(big.Int).Exp(y.val, big.NewInt(2), bigP)
		r := new(big.Int).Exp(x.val, big.NewInt(3), bigP)
		r.Add(r, big.NewInt(7)).Mod(r, bigP)
		return Bool(l.Cmp(r) == 0)
	}
	return App("oncurve", SBool, nil, nil, x, y)
}

// coordDL is the discrete logarithm of the point with coordinates (x,y), if they are canonical coordinates of one
func (e *Exec) coordDL(x, y *Term) (*Term, bool) {
	if x.kind == KApp && x.name == "X" && y.kind == KApp && y.name == "Y" {
		if x.args[0] == y.args[0] {
			return x.args[0], true
		}
		if e.branch(Eq(x.args[0], y.args[0])) {
			return x.args[0], true
		}
		if e.branch(Eq(Mod(Add(x.args[0], y.args[0]), tN), zero)) {
			return y.args[0], true
		}
		return nil, false
	}
	if b, ok := e.known(And(onCurve(x, y), Le(zero, x), Lt(x, tP), Le(zero, y), Lt(y, tP))); ok && b {
		return App("DL", SInt, big1, tN1, x, y), true
	}
	return nil, false
}

// coords: fresh big.Ints with the coordinates of the point with discrete logarithm d != 0
func (e *Exec) coords(d *Term) Val {
	return TupleV{e.newBig(xOf(d)), e.newBig(yOf(d))}
}

func (e *Exec) junkPoint() Val {
	return TupleV{e.newBig(e.fresh("junk", SInt, big0, nil)), e.newBig(e.fresh("junk", SInt, big0, nil))}
}

// s256 is the one BitCurve object
func (e *Exec) s256(fn *ssa.Function) Val {
	if o, ok := e.files["s256"]; ok {
		return &Ptr{obj: o}
	}
	t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
	st := t.Underlying().(*types.Struct)
	s := &StructV{f: make([]Val, st.NumFields())}
	for i := range s.f {
		mk := func(x *Term) Val {
			p := e.newBig(x)
			p.obj.name = "the curve parameter " + st.Field(i).Name()
			p.obj.frozen = true
			return p
		}
		switch st.Field(i).Name() {
		case "P":
			s.f[i] = mk(tP)
		case "N":
			s.f[i] = mk(tN)
		case "B":
			s.f[i] = mk(I64(7))
		case "Gx":
			s.f[i] = mk(xOf(one))
		case "Gy":
			s.f[i] = mk(yOf(one))
		case "BitSize":
			s.f[i] = I64(256)
		default:
			s.f[i] = e.opaque(st.Field(i).Type(), st.Field(i).Name())
		}
	}
	o := e.newObj(t, s, "the shared curve")
	o.frozen = true
	e.files["s256"] = o
	return &Ptr{obj: o}
}

// sprint is the text of Sprint or Sprintln
func (e *Exec) sprint(args Val, line bool) StrV {
	sl, ok := args.(*SliceV)
	n, known := 0, false
	if ok {
		n, known = e.concrete(sl.len)
	}
	if !known {
		return StrV{e.rawRope("formatted", "")}
	}
	f := ""
	before := false
	for i := 0; i < n; i++ {
		x := e.load(e.elemPtr(&Ptr{obj: sl.obj, path: sl.path}, Add(sl.off, I64(int64(i)))))
		it, _ := x.(*IfaceV)
		isStr := false
		if it != nil && it.typ != nil {
			b, ok := it.typ.Underlying().(*types.Basic)
			isStr = ok && b.Info()&types.IsString != 0
		}
		if i > 0 && (line || !isStr && !before) {
			f += " "
		}
		f += "%v"
		before = isStr
	}
	if line {
		f += "\n"
	}
	return e.format(StrV{Rope{cseg([]byte(f))}}, args)
}

// format is the text that fmt makes of its arguments; arbitrary where that is not known
func (e *Exec) format(f Val, args Val) StrV {
	some := func() Rope { return e.rawRope("formatted", "") }
	s, ok := f.(StrV)
	if !ok {
		return StrV{some()}
	}
	c, ok := s.r.constant()
	if !ok {
		return StrV{some()}
	}
	var vs []Val
	if sl, ok := args.(*SliceV); ok && sl.obj != nil {
		n, ok := e.concrete(sl.len)
		if !ok {
			return StrV{some()}
		}
		for i := 0; i < n; i++ {
			vs = append(vs, e.load(e.elemPtr(&Ptr{obj: sl.obj, path: sl.path}, Add(sl.off, I64(int64(i))))))
		}
	}
	// what is known of an argument
	natives := make([]interface{}, len(vs))
	text := make([]Rope, len(vs))
	all := true
	for i, v := range vs {
		if x, ok := v.(*IfaceV); ok && x.typ != nil {
			if types.NewMethodSet(x.typ).Lookup(nil, "Error") == nil && types.NewMethodSet(x.typ).Lookup(nil, "String") == nil {
				b, _ := x.typ.Underlying().(*types.Basic)
				switch y := x.v.(type) {
				case *SliceV:
					if sl, ok := x.typ.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
						if k, ok := e.bytesOf(y).constant(); ok {
							natives[i] = k
						}
					}
				case StrV:
					text[i] = y.r
					if k, ok := y.r.constant(); ok {
						natives[i] = string(k)
					}
				case *Term:
					if b != nil && b.Info()&types.IsInteger != 0 {
						text[i] = itoa(y)
						if y.isConst() && y.val.IsInt64() {
							natives[i] = y.val.Int64()
						} else if y.isConst() && y.val.IsUint64() {
							natives[i] = y.val.Uint64()
						}
						if natives[i] != nil && b.Info()&types.IsUnsigned != 0 {
							natives[i] = y.val.Uint64()
						}
						if b.Kind() == types.Int && natives[i] != nil {
							natives[i] = int(y.val.Int64())
						}
					}
				}
			}
		}
		all = all && natives[i] != nil
	}
	if all {
		return StrV{norm(Rope{cseg([]byte(fmt.Sprintf(string(c), natives...)))})}
	}
	var r Rope
	k := 0
	for i := 0; i < len(c); i++ {
		if c[i] != '%' {
			r = append(r, cseg(c[i:i+1]))
			continue
		}
		i++
		if i == len(c) {
			return StrV{some()}
		}
		switch {
		case c[i] == '%':
			r = append(r, cseg([]byte("%")))
		case k < len(vs) && (c[i] == 's' || c[i] == 'd' || c[i] == 'v'):
			x := vs[k]
			k++
			it, _ := x.(*IfaceV)
			_, isStr := Val(nil), false
			if it != nil {
				_, isStr = it.v.(StrV)
			}
			if text[k-1] != nil && (c[i] == 'v' || isStr == (c[i] == 's')) || isStr && c[i] != 'd' {
				r = append(r, text[k-1]...)
			} else {
				r = append(r, some()...)
			}
		case k < len(vs) && (c[i] >= 'a' && c[i] <= 'z' || c[i] >= 'A' && c[i] <= 'Z'):
			k++
			r = append(r, some()...)
		default: // flags
			for i < len(c) && strings.IndexByte("+-# 0123456789.*[]", c[i]) >= 0 {
				if c[i] == '*' || c[i] == '[' {
					return StrV{some()}
				}
				i++
			}
			k++
			r = append(r, some()...)
		}
	}
	if k < len(vs) {
		return StrV{some()}
	}
	return StrV{norm(r)}
}

func (e *Exec) fixedVal(r Rope, w int, le bool) *Term {
	var t *Term
	r = e.fixLen(r, int64(w))
	if le {
		e.littleEndian = true
		t = r.leVal(w)
	} else {
		t = r.beVal()
	}
	m := pow256(int64(w))
	if !inRange(t, big0, m.val) {
		e.assume(Le(zero, t))
		e.assume(Lt(t, m))
	}
	return t
}

// ---- buffers, readers, writers

func (e *Exec) buf(v Val) *BufV {
	e.fill(e.ptr(v))
	b, ok := e.load(e.ptr(v)).(*BufV)
	if !ok {
		e.unsupported(fmt.Sprintf("buffer content %T", e.load(e.ptr(v))))
	}
	return b
}

// fill lets a buffered reader read its source, all of it
func (e *Exec) fill(p *Ptr) {
	l, ok := e.load(p).(*lazyV)
	if !ok {
		return
	}
	in, take, ok := e.content(l.src)
	if !ok {
		e.unsupported("buffered reading from a reader")
	}
	take()
	s := e.newBytes(in, "buffered")
	e.store(p, &BufV{back: s.obj, off: zero, end: s.len})
}

func (e *Exec) bufContent(b *BufV) Rope {
	if b.back == nil {
		return nil
	}
	return e.ropeSub(b.back.val.(Rope), b.off, Sub(b.end, b.off))
}

func (e *Exec) bufWrite(p *Ptr, x Rope) {
	b := e.buf(p)
	x = norm(x)
	if b.back == nil {
		if len(x) == 0 {
			return
		}
		o := e.newObj(types.Typ[types.Byte], x, "buffer array")
		e.store(p, &BufV{back: o, off: zero, end: x.Len()})
		return
	}
	if len(x) == 0 {
		return
	}
	r := b.back.val.(Rope)
	n := Add(b.end, x.Len())
	if b.end == r.Len() {
		e.touch(b.back)
		b.back.val = cat(r, x)
		e.store(p, &BufV{back: b.back, off: b.off, end: n})
		return
	}
	// The array continues behind the end of the buffer. Whether the write goes there or into a new array depends on its
	// capacity: from here on, whoever else holds the old array finds anything there, and must not write to it
	a, _ := e.cutAt(r, b.end)
	e.touch(b.back)
	old := b.back
	o := e.newObj(old.typ, cat(a, x), "buffer array")
	old.val = cat(a, Rope{rseg(e.fresh("overwritten", SBytes, nil, nil), zero, Sub(r.Len(), b.end))})
	old.stale = true
	e.store(p, &BufV{back: o, off: b.off, end: n})
}

func (e *Exec) writeTo(w Val, x Rope) Val {
	iv, ok := w.(*IfaceV)
	if !ok {
		e.unsupported("writer")
	}
	if iv.typ == nil {
		e.safety("nil dereference (writer)", tFalse)
	}
	if iv.typ == mkWriter {
		return e.writerWrite(e.ptr(iv.v), x)
	}
	if p, ok := iv.v.(*Ptr); ok && p.obj == nil && iv.typ.String() == "*os.File" {
		return TupleV{zero, e.newErr("invalid file")}
	}
	if p, ok := iv.v.(*Ptr); ok && p.obj != nil {
		if _, ok := e.load(p).(*BufV); ok {
			e.bufWrite(p, x)
			return TupleV{norm(x).Len(), nilIface}
		}
		if f, ok := e.load(p).(*FileV); ok {
			return e.fileWrite(p, f, x)
		}
		if b, ok := e.load(p).(*BWriterV); ok {
			if b.err != nil {
				return TupleV{zero, b.err}
			}
			e.store(p, &BWriterV{w: b.w, buf: cat(b.buf, x)})
			return TupleV{norm(x).Len(), nilIface}
		}
	}
	if iv.typ == mkOpaque {
		return TupleV{norm(x).Len(), nilIface}
	}
	if _, ok := iv.v.(*OpaqueV); ok {
		return TupleV{norm(x).Len(), nilIface}
	}
	// a writer written in Go
	fn := e.v.prog.LookupMethod(iv.typ, nil, "Write")
	if fn == nil {
		e.unsupported("writer " + iv.typ.String())
	}
	return e.call(fn, []Val{iv.v, e.newBytes(x, "written")}, nil)
}

func (e *Exec) writerWrite(p *Ptr, x Rope) Val {
	w := e.load(p).(*WriterV)
	n := *w
	n.n++
	if w.canFail {
		if e.choose(2) == 1 {
			n.failed = tTrue
			e.store(p, &n)
			return TupleV{e.fresh("nwritten", SInt, big0, nil), e.newErr("write failed")}
		}
	}
	n.out = cat(w.out, x)
	e.store(p, &n)
	return TupleV{norm(x).Len(), nilIface}
}

// source gives the unread content of a reader and a function to consume a prefix of it
func (e *Exec) source(r Val) (in Rope, take func(n *Term), stream bool) {
	iv, ok := r.(*IfaceV)
	if !ok {
		e.unsupported("reader")
	}
	if iv.typ == nil {
		e.safety("nil dereference (reader)", tFalse)
	}
	p, ok := iv.v.(*Ptr)
	if !ok {
		e.unsupported(fmt.Sprintf("reader %v", iv.typ))
	}
	if p.obj == nil {
		e.safety("nil dereference (reader)", tFalse)
	}
	e.fill(p)
	switch b := e.load(p).(type) {
	case *StructV:
		if iv.typ.String() == "*io.LimitedReader" {
			in, take, stream := e.source(b.f[0])
			n := e.term(b.f[1])
			if !e.branch(Lt(zero, n)) {
				n = zero
			}
			n = e.minTerm(n, norm(in).Len())
			return e.ropeSub(in, zero, n), func(k *Term) {
				take(k)
				e.store(sub(p, sel{i: 1}), Sub(e.term(b.f[1]), k))
			}, stream
		}
	case *BufV:
		if b.back == nil {
			return nil, func(*Term) {}, false
		}
		return e.bufContent(b), func(n *Term) { e.store(p, &BufV{back: b.back, off: Add(b.off, n), end: b.end}) }, false
	case *StreamV:
		return b.in, func(n *Term) {
			_, rest := e.cutAt(b.in, n)
			c := *b
			c.in = norm(rest)
			c.n++
			e.store(p, &c)
		}, b.n >= 0
	case *FileV:
		if b.data == nil {
			e.unsupported("reading a file")
		}
		r := b.data.val.(Rope)
		return e.ropeSub(r, b.pos, Sub(r.Len(), b.pos)), func(n *Term) { e.store(p, &FileV{b.name, b.data, Add(b.pos, n)}) }, false
	}
	e.unsupported(fmt.Sprintf("reader content %T", e.load(p)))
	return
}

// modelReader tells whether a reader is one of the verifier's own, not a type with a Read method in Go
func (e *Exec) modelReader(r Val) bool {
	iv, ok := r.(*IfaceV)
	if !ok || iv.typ == nil {
		return true
	}
	switch iv.typ.(type) {
	case *marker:
		return true
	}
	if iv.typ == mkOpaque {
		return true
	}
	if p, ok := iv.v.(*Ptr); ok && p.obj != nil {
		switch e.load(p).(type) {
		case *BufV, *StreamV, *FileV, *lazyV:
			return true
		case *StructV:
			if iv.typ.String() == "*io.LimitedReader" {
				return e.modelReader(e.load(sub(p, sel{i: 0})))
			}
		}
		return false
	}
	return true
}

func (e *Exec) readFull(r Val, dst *SliceV) Val {
	if iv, ok := r.(*IfaceV); ok && iv.typ != nil {
		if m, ok := iv.typ.(*marker); ok && m.name == "connection" {
			return e.connReadFull(iv, dst)
		}
		if iv.typ == mkOpaque {
			if o, ok := iv.v.(*OpaqueV); ok && o.name == "crypto/rand.Reader" {
				src := e.fresh("entropy", SBytes, nil, nil)
				e.writeBytes(dst, zero, Rope{rseg(src, zero, dst.len)})
				return TupleV{dst.len, nilIface}
			}
		}
	}
	in, take, _ := e.source(r)
	n := dst.len
	avail := norm(in).Len()
	if e.branch(Le(n, avail)) {
		e.writeBytes(dst, zero, e.ropeSub(in, zero, n))
		take(n)
		return TupleV{n, nilIface}
	}
	if e.branch(Eq(avail, zero)) {
		return TupleV{zero, errEOF}
	}
	e.writeBytes(dst, zero, in)
	take(avail)
	return TupleV{avail, errUEOF}
}

func (e *Exec) readSome(r Val, dst *SliceV) Val {
	if iv, ok := r.(*IfaceV); ok && iv.typ == mkOpaque {
		if o, ok := iv.v.(*OpaqueV); ok && o.name == "crypto/rand.Reader" {
			return e.readFull(r, dst)
		}
	}
	in, take, stream := e.source(r)
	n := dst.len
	if e.branch(Eq(n, zero)) {
		take(n)
		return TupleV{zero, nilIface}
	}
	avail := norm(in).Len()
	if e.branch(Eq(avail, zero)) {
		return TupleV{zero, errEOF}
	}
	k := e.minTerm(n, avail)
	var err Val = nilIface
	if stream {
		// any non-empty prefix
		if e.choose(2) == 1 {
			c := e.fresh("chunk", SInt, big1, nil)
			if !e.feasible(Lt(c, k)) {
				panic(pathEnd{"infeasible"})
			}
			e.assume(Lt(c, k))
			k = c
		} else if k == avail && e.choose(2) == 1 {
			err = errEOF
		}
	}
	e.writeBytes(dst, zero, e.ropeSub(in, zero, k))
	take(k)
	return TupleV{k, err}
}

// markerCall dispatches methods of model values
func (e *Exec) markerCall(iv *IfaceV, m *types.Func, a []Val) Val {
	switch iv.typ {
	case mkErr:
		if m.Name() == "Error" {
			return StrV{e.rawRope("errtext", "")}
		}
	case mkWriter:
		switch m.Name() {
		case "Write":
			return e.writerWrite(e.ptr(iv.v), e.bytesOf(a[0].(*SliceV)))
		case "WriteString":
			return e.writerWrite(e.ptr(iv.v), a[0].(StrV).r)
		}
	case mkStream:
		if m.Name() == "Read" {
			return e.readSome(iv, a[0].(*SliceV))
		}
	}
	if h := markerMethods[iv.typ.String()]; h != nil {
		return h(e, iv, m, a)
	}
	if iv.typ == mkOpaque {
		if o, ok := iv.v.(*OpaqueV); ok && o.name == "crypto/rand.Reader" && m.Name() == "Read" {
			return e.readFull(iv, a[0].(*SliceV))
		}
	}
	e.unsupported("method " + m.FullName() + " of " + iv.typ.String())
	return nil
}

var markerMethods = map[string]func(e *Exec, iv *IfaceV, m *types.Func, a []Val) Val{}
