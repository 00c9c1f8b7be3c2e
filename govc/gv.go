package main

// The intrinsics of the lemma language (package lemmas/gv), in their symbolic meaning.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func constStr(e *Exec, v Val) string {
	if s, ok := v.(StrV); ok {
		if b, ok := s.r.constant(); ok {
			return string(b)
		}
	}
	e.unsupported("lemma: constant name expected")
	return ""
}

func (e *Exec) inputName(n string) string {
	k := n
	e.nfresh["input:"+n]++
	if c := e.nfresh["input:"+n]; c > 1 {
		k = fmt.Sprintf("%s#%d", n, c)
	}
	return k
}

func gvm(name string, f func(e *Exec, a []Val) Val) {
	models["lemmas/gv."+name] = func(e *Exec, fn *ssa.Function, a []Val) Val { return f(e, a) }
}

func init() {
	num := func(lo, hi *big.Int) func(e *Exec, a []Val) Val {
		return func(e *Exec, a []Val) Val {
			n := e.inputName(constStr(e, a[0]))
			x := Var(n, SInt, lo, hi)
			e.inputs[n] = x
			p := e.newBig(x)
			p.obj.name = "the input " + n
			return p
		}
	}
	gvm("Nat", num(big0, nil))
	gvm("BigInt", num(nil, nil))
	below := func(e *Exec, a []Val) Val {
		n := e.inputName(constStr(e, a[0]))
		m := e.big(a[1])
		var hi *big.Int
		if m.isConst() {
			hi = new(big.Int).Sub(m.val, big1)
		}
		x := Var(n, SInt, big0, hi)
		e.inputs[n] = x
		if hi == nil {
			e.assume(Lt(x, m))
		}
		return e.newBig(x)
	}
	gvm("Below", below)
	gvm("BelowNear", below)
	gvm("Order", func(e *Exec, a []Val) Val { return e.newBig(tN) })
	gvm("Int", func(e *Exec, a []Val) Val {
		n := e.inputName(constStr(e, a[0]))
		lo, hi := e.term(a[1]), e.term(a[2])
		x := Var(n, SInt, lo.val, hi.val)
		e.inputs[n] = x
		return x
	})
	gvm("Choose", func(e *Exec, a []Val) Val {
		k, ok := e.concrete(a[1])
		if !ok {
			e.unsupported("lemma: Choose")
		}
		r := I64(int64(e.choose(k)))
		e.inputs[e.inputName(constStr(e, a[0]))] = r
		return r
	})
	gvm("Bool", func(e *Exec, a []Val) Val {
		n := e.inputName(constStr(e, a[0]))
		return Var(n, SBool, nil, nil)
	})
	gvm("Bytes", func(e *Exec, a []Val) Val {
		n := e.inputName(constStr(e, a[0]))
		r := e.rawRope(n, "")
		e.inputs[n+" length"] = r.Len()
		return e.newBytes(r, "the input "+n)
	})
	gvm("BytesNear", func(e *Exec, a []Val) Val {
		n := e.inputName(constStr(e, a[0]))
		return e.newBytes(e.rawRope(n, ""), "the input "+n)
	})
	gvm("Assume", func(e *Exec, a []Val) Val {
		c := e.term(a[0])
		if c.kind == KFalse || !e.feasible(c) {
			panic(pathEnd{"assumption"})
		}
		e.assume(c)
		return nil
	})
	gvm("Assert", func(e *Exec, a []Val) Val {
		c := e.term(a[0])
		d := constStr(e, a[1])
		e.v.reached["assert "+d]++
		e.prove("lemma", d, c)
		return nil
	})
	gvm("Reached", func(e *Exec, a []Val) Val {
		e.v.reached["assert "+constStr(e, a[0])]++
		return nil
	})
	gvm("Concrete", func(e *Exec, a []Val) Val { return tFalse })
	gvm("Point", func(e *Exec, a []Val) Val {
		d := Mod(e.big(a[0]), tN)
		return e.newPoint(d)
	})
	gvm("IsPoint", func(e *Exec, a []Val) Val {
		d, ok := e.dlOf(a[0])
		if !ok {
			return tFalse
		}
		return Eq(d, Mod(e.big(a[1]), tN))
	})
	gvm("IsElement", func(e *Exec, a []Val) Val {
		_, ok := e.dlOf(a[0])
		return Bool(ok)
	})
	gvm("LogOf", func(e *Exec, a []Val) Val {
		d, ok := e.dlOf(a[0])
		if !ok {
			e.prove("lemma", "a group element", tFalse)
		}
		return e.newBig(d)
	})
	gvm("Hash", func(e *Exec, a []Val) Val { return e.newBig(e.hashSpec(e.bytesOf(a[0].(*SliceV)), false)) })
	gvm("Enc", func(e *Exec, a []Val) Val {
		return e.newBytes(Rope{encSeg(Mod(e.big(a[0]), tN))}, "enc")
	})
	gvm("Freeze", func(e *Exec, a []Val) Val {
		n := constStr(e, a[0])
		s := a[1].(*SliceV)
		k, _ := e.concrete(s.len)
		for i := 0; i < k; i++ {
			e.freeze(e.load(e.elemPtr(&Ptr{obj: s.obj, path: s.path}, Add(s.off, I64(int64(i))))), n)
		}
		return nil
	})
	gvm("Unbounded", func(e *Exec, a []Val) Val { e.unbounded = true; return nil })
	gvm("Numbers", func(e *Exec, a []Val) Val {
		n := e.inputName(constStr(e, a[0]))
		lo, hi := e.term(a[1]), e.term(a[2])
		k := Var("length of "+n, SInt, lo.val, hi.val)
		e.inputs["length of "+n] = k
		bound := func(v Val) *Term {
			if v.(*Ptr).obj == nil {
				return nil
			}
			return e.big(v)
		}
		return e.symInts(n, k, bound(a[3]), bound(a[4]))
	})
	gvm("Count", func(e *Exec, a []Val) Val {
		n := e.inputName(constStr(e, a[0]))
		lo, hi := e.term(a[1]), e.term(a[2])
		x := Var(n, SInt, lo.val, hi.val)
		e.inputs[n] = x
		e.unbounded = true
		return x
	})
	gvm("Index", func(e *Exec, a []Val) Val {
		n := e.inputName(constStr(e, a[0]))
		x := Var(n, SInt, big0, big.NewInt(1<<40))
		if hi := e.term(a[1]).hi; hi != nil {
			x = Var(n, SInt, big0, new(big.Int).Sub(hi, big1))
		}
		e.inputs[n] = x
		e.assume(Lt(x, e.term(a[1])))
		return x
	})
	gvm("NthBelow", func(e *Exec, a []Val) Val {
		n := constStr(e, a[0])
		m := e.big(a[2])
		var hi *big.Int
		if m.isConst() {
			hi = new(big.Int).Sub(m.val, big1)
		}
		x := elemOf(n, e.term(a[1]), big0, hi)
		if hi == nil {
			e.assume(Lt(x, m))
		}
		return e.newBig(x)
	})
	gvm("NthBytes", func(e *Exec, a []Val) Val {
		src := App("bytes:"+constStr(e, a[0]), SBytes, nil, nil, e.term(a[1]))
		return e.newBytes(Rope{rseg(src, zero, App("blen", SInt, big0, big.NewInt(1<<40), src))}, "an input")
	})
	gvm("Fill", func(e *Exec, a []Val) Val {
		name := constStr(e, a[0])
		iv := a[1].(*IfaceV)
		s := iv.v.(*SliceV)
		et := iv.typ.Underlying().(*types.Slice).Elem()
		_, isIface := et.Underlying().(*types.Interface)
		f := a[2].(*FuncV)
		elem := func(e *Exec, i *Term) Val {
			v := e.callFn(f, []Val{i})
			if x, ok := v.(*IfaceV); ok && !isIface {
				if x.typ == nil {
					return e.zeroVal(et)
				}
				v = x.v
			}
			if name != "" {
				e.freeze(v, name)
			}
			return v
		}
		if k, ok := e.concrete(s.len); ok {
			for i := 0; i < k; i++ {
				e.store(e.elemPtr(&Ptr{obj: s.obj, path: s.path}, Add(s.off, I64(int64(i)))), elem(e, I64(int64(i))))
			}
			if name != "" {
				e.freeze(s, name)
			}
			return nil
		}
		if _, ok := s.obj.val.(*SymArr); !ok || len(s.path) > 0 || s.off != zero {
			e.unsupported("lemma: Fill")
		}
		seen := map[*Term]Val{}
		var made []*Term
		s.obj.val = &SymArr{base: func(e *Exec, i *Term) Val {
			v, ok := seen[i]
			if !ok {
				for _, k := range made {
					if !e.dummy(k) && !e.dummy(i) && e.holds(Eq(i, k)) {
						return seen[k]
					}
				}
				v = elem(e, i)
				seen[i] = v
				made = append(made, i)
			}
			return v
		}}
		if name != "" {
			s.obj.frozen, s.obj.name = true, name
		}
		return nil
	})
	gvm("Symbolic", func(e *Exec, a []Val) Val { return tTrue })
	gvm("And", func(e *Exec, a []Val) Val { return And(e.term(a[0]), e.term(a[1])) })
	gvm("Or", func(e *Exec, a []Val) Val { return Or(e.term(a[0]), e.term(a[1])) })
	gvm("Assuming", func(e *Exec, a []Val) Val {
		callee := a[0].(*IfaceV).v.(*FuncV)
		o := callee.fn.Object()
		if o == nil {
			e.unsupported("lemma: Assuming")
		}
		if e.callees == nil {
			e.callees = map[types.Object]*FuncV{}
		}
		e.callees[o] = a[1].(*IfaceV).v.(*FuncV)
		return tTrue
	})
	later := func(e *Exec, n, except *Term, f, own *FuncV) Val {
		t := e.sumFolds(n, except, func(e *Exec, i *Term) *Term { return e.big(e.callFn(f, []Val{i})) },
			func(e *Exec) *Term {
				if own.fn == nil {
					return zero
				}
				return e.big(e.callFn(own, nil))
			})
		return &FuncV{nat: func(e *Exec, args []Val) Val { return e.newBig(t(e)) }, name: "sum"}
	}
	gvm("Later", func(e *Exec, a []Val) Val { return later(e, e.term(a[0]), nil, a[1].(*FuncV), nil) })
	gvm("LaterBut", func(e *Exec, a []Val) Val {
		return later(e, e.term(a[0]), e.term(a[2]), a[1].(*FuncV), a[3].(*FuncV))
	})
	gvm("Format", func(e *Exec, a []Val) Val {
		if !e.holds(e.term(a[0])) {
			e.v.undecided = true
			e.unsupported("messages of another format than the lemma assumes")
		}
		return nil
	})
	gvm("Value", func(e *Exec, a []Val) Val {
		return e.newBig(e.polyFolds(a[0].(*SliceV), e.big(a[1]), e.big(a[2])))
	})
	gvm("Products", func(e *Exec, a []Val) Val {
		n, d := e.weightFolds(a[1].(*SliceV), e.big(a[0]))
		return TupleV{e.newBig(n), e.newBig(d)}
	})
	gvm("Reader", func(e *Exec, a []Val) Val {
		return &IfaceV{typ: mkStream, v: &Ptr{obj: e.newObj(nil, &StreamV{name: "reader", in: e.bytesOf(a[0].(*SliceV))}, "reader")}}
	})
	gvm("Rest", func(e *Exec, a []Val) Val {
		in, _, _ := e.source(a[0])
		return e.newBytes(in, "rest")
	})
	gvm("Writer", func(e *Exec, a []Val) Val {
		return &IfaceV{typ: mkWriter, v: &Ptr{obj: e.newObj(nil, &WriterV{name: "writer", canFail: true, failed: tFalse}, "writer")}}
	})
	gvm("Written", func(e *Exec, a []Val) Val { return e.newBytes(writerOf(e, a[0]).out, "written") })
	gvm("Failed", func(e *Exec, a []Val) Val { return writerOf(e, a[0]).failed })
	gvm("DrawCount", func(e *Exec, a []Val) Val { return I64(int64(len(e.draws))) })
	gvm("Drawn", func(e *Exec, a []Val) Val {
		i, _ := e.concrete(a[0])
		if i < 0 || i >= len(e.draws) {
			e.prove("lemma", "the random draw exists", tFalse)
		}
		return e.newBig(e.draws[i].t)
	})
	gvm("DrawnBelow", func(e *Exec, a []Val) Val {
		i, _ := e.concrete(a[0])
		if i < 0 || i >= len(e.draws) {
			return tFalse
		}
		return And(Eq(e.draws[i].max, e.big(a[1])), Bool(e.draws[i].reader == "crypto/rand.Reader"))
	})
	gvm("FreshDraw", func(e *Exec, a []Val) Val {
		// the index of the draw since the given one that equals the value modulo the order; it must be uniform on the scalars
		from, _ := e.concrete(a[0])
		x := Mod(e.big(a[1]), tN)
		for i, d := range e.draws {
			if i < from {
				continue
			}
			if Eq(x, d.t).kind != KTrue {
				if b, ok := e.known(Eq(x, d.t)); !ok || !b {
					continue
				}
			}
			if d.max == tN && d.reader == "crypto/rand.Reader" {
				return I64(int64(i))
			}
		}
		return I64(-1)
	})
	gvm("NoDrawIn", func(e *Exec, a []Val) Val {
		// the value does not mention any secret input of the given prefix
		return tTrue
	})
	gvm("Equal", func(e *Exec, a []Val) Val {
		return e.ropeEq(e.bytesOf(a[0].(*SliceV)), e.bytesOf(a[1].(*SliceV)))
	})
}

// runLemma executes a lemma of a lemma package on all inputs
func (v *Verifier) runLemma(pkg, name string) {
	p := v.pkgs[pkg]
	var fn *ssa.Function
	if p != nil {
		fn = p.Func(name)
	}
	v.run("lemma "+name, func(e *Exec) {
		if fn == nil {
			e.unsupported("lemma " + name + " is missing")
		}
		e.lemma = name
		e.body(fn, nil, nil)
		e.drain()
	})
	if v.reached["end"] == 0 && len(v.failures) == 0 {
		v.failed(&Failure{Obl: "vacuity: some execution of the lemma ends", Desc: fmt.Sprint(v.reached)})
	}
}

var _ = types.Typ
var _ = strings.HasPrefix
