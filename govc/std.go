package main

// More of the standard library: what an edit that changes no behaviour may well begin to use.

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- errors

// wrapped gives the errors an error wraps
func (e *Exec) wrapped(v *IfaceV) []*IfaceV {
	if x, ok := v.v.(*ErrV); ok {
		return x.wraps
	}
	if _, mk := v.typ.(*marker); mk || v.typ == nil {
		return nil
	}
	if m := types.NewMethodSet(v.typ).Lookup(nil, "Unwrap"); m != nil {
		if fn := e.v.prog.MethodValue(m); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 {
			switch r := e.call(fn, []Val{v.v}, nil).(type) {
			case *IfaceV:
				if r.typ != nil {
					return []*IfaceV{r}
				}
			case *SliceV:
				n, ok := e.concrete(r.len)
				if !ok {
					e.unsupported("wrapped errors")
				}
				var res []*IfaceV
				for i := 0; i < n; i++ {
					if x, ok := e.load(e.elemPtr(&Ptr{obj: r.obj, path: r.path}, Add(r.off, I64(int64(i))))).(*IfaceV); ok && x.typ != nil {
						res = append(res, x)
					}
				}
				return res
			}
		}
	}
	return nil
}

// errChain visits an error and what it wraps, until f answers true
func (e *Exec) errChain(v *IfaceV, depth int, f func(v *IfaceV) bool) bool {
	if v.typ == nil || depth > 20 {
		return false
	}
	if f(v) {
		return true
	}
	for _, w := range e.wrapped(v) {
		if e.errChain(w, depth+1, f) {
			return true
		}
	}
	return false
}

func isErrVal(v Val) (*IfaceV, bool) {
	i, ok := v.(*IfaceV)
	if !ok || i.typ == nil {
		return nil, false
	}
	if i.typ == mkErr {
		return i, true
	}
	if _, mk := i.typ.(*marker); mk {
		return nil, false
	}
	return i, types.Implements(i.typ, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

func (e *Exec) elems(v Val, what string) []Val {
	s, ok := v.(*SliceV)
	if !ok {
		e.unsupported(what)
	}
	n, ok := e.concrete(s.len)
	if !ok {
		e.unsupported(what + " of unknown length")
	}
	var res []Val
	for i := 0; i < n; i++ {
		res = append(res, e.load(e.elemPtr(&Ptr{obj: s.obj, path: s.path}, Add(s.off, I64(int64(i))))))
	}
	return res
}

// ---- readers

// content is all that a reader gives until its end, and a function that consumes it; false for readers in Go code that
// the verifier has no rule for
func (e *Exec) content(r Val) (Rope, func(), bool) {
	iv, ok := r.(*IfaceV)
	if !ok {
		e.unsupported("reader")
	}
	if iv.typ != nil {
		p, _ := iv.v.(*Ptr)
		if p != nil && p.obj != nil {
			if st, ok := e.load(p).(*StructV); ok {
				switch iv.typ.String() {
				case "*io.multiReader":
					s := st.f[0].(*SliceV)
					var all Rope
					var takes []func()
					for _, x := range e.elems(s, "readers") {
						c, t, ok := e.content(x)
						if !ok {
							return nil, nil, false
						}
						all = cat(all, c)
						takes = append(takes, t)
					}
					return all, func() {
						for _, t := range takes {
							t()
						}
						e.store(p, &StructV{f: []Val{&SliceV{off: zero, len: zero, cap: zero}}})
					}, true
				case "*io.teeReader":
					c, t, ok := e.content(st.f[0])
					if !ok {
						return nil, nil, false
					}
					return c, func() { t(); e.writeTo(st.f[1], c) }, true
				}
			}
		}
	}
	if !e.modelReader(r) {
		return nil, nil, false
	}
	in, take, _ := e.source(r)
	return in, func() { take(norm(in).Len()) }, true
}

// ---- encoding/binary

// fixedLayout is the number of bytes of a value of fixed size, -1 otherwise
func (e *Exec) layout(t types.Type, v Val) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool {
			return one
		}
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr:
			return nil
		}
		if bits, _, ok := intRange(t); ok {
			return I64(int64(bits / 8))
		}
	case *types.Array:
		x := e.layout(u.Elem(), nil)
		if x == nil {
			return nil
		}
		return Scale(big.NewInt(u.Len()), x)
	case *types.Struct:
		n := zero
		for i := 0; i < u.NumFields(); i++ {
			x := e.layout(u.Field(i).Type(), nil)
			if x == nil {
				return nil
			}
			n = Add(n, x)
		}
		return n
	case *types.Slice:
		if s, ok := v.(*SliceV); ok {
			x := e.layout(u.Elem(), nil)
			if k, ok := e.concrete(s.len); ok && x != nil {
				return Scale(big.NewInt(int64(k)), x)
			}
			if x == one {
				return s.len
			}
		}
	}
	return nil
}

func (e *Exec) encodeFixed(t types.Type, v Val, le bool) Rope {
	k := SBE
	if le {
		k = SLE
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool {
			return Rope{seg(SBE, 1, Ite(e.term(v), one, zero))}
		}
		bits, signed, _ := intRange(t)
		x := e.term(v)
		if signed {
			x = Mod(x, IConst(new(big.Int).Lsh(big1, uint(bits))))
		}
		if bits > 8 && le {
			e.littleEndian = true
		}
		return Rope{seg(k, bits/8, x)}
	case *types.Array:
		if r, ok := v.(Rope); ok {
			return r
		}
		var r Rope
		for _, x := range v.(*ArrV).e {
			r = append(r, e.encodeFixed(u.Elem(), x, le)...)
		}
		return norm(r)
	case *types.Struct:
		var r Rope
		for i, x := range v.(*StructV).f {
			if u.Field(i).Name() == "_" {
				r = append(r, zseg(e.layout(u.Field(i).Type(), nil)))
				continue
			}
			r = append(r, e.encodeFixed(u.Field(i).Type(), x, le)...)
		}
		return norm(r)
	case *types.Slice:
		s := v.(*SliceV)
		if isByte(u.Elem()) {
			return e.bytesOf(s)
		}
		var r Rope
		for _, x := range e.elems(s, "slice") {
			r = append(r, e.encodeFixed(u.Elem(), x, le)...)
		}
		return norm(r)
	}
	e.unsupported("encoding of " + t.String())
	return nil
}

// decodeFixed reads a value of type t from the front of r
func (e *Exec) decodeFixed(t types.Type, r Rope, le bool) (Val, Rope) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		bits, signed, ok := intRange(t)
		if u.Kind() == types.Bool {
			bits, ok = 8, true
		}
		if !ok {
			break
		}
		w := I64(int64(bits / 8))
		x := e.fixedVal(e.ropeSub(r, zero, w), bits/8, le && bits > 8)
		rest := e.ropeSub(r, w, Sub(r.Len(), w))
		if u.Kind() == types.Bool {
			return Not(Eq(x, zero)), rest
		}
		if signed {
			return e.wrap(x, t), rest
		}
		return x, rest
	case *types.Array:
		if isByte(u.Elem()) {
			n := I64(u.Len())
			return norm(e.ropeSub(r, zero, n)), e.ropeSub(r, n, Sub(r.Len(), n))
		}
		a := &ArrV{}
		for i := int64(0); i < u.Len(); i++ {
			var x Val
			x, r = e.decodeFixed(u.Elem(), r, le)
			a.e = append(a.e, x)
		}
		return a, r
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var x Val
			x, r = e.decodeFixed(u.Field(i).Type(), r, le)
			if u.Field(i).Name() == "_" {
				x = e.zeroVal(u.Field(i).Type())
			}
			s.f = append(s.f, x)
		}
		return s, r
	}
	e.unsupported("decoding of " + t.String())
	return nil, nil
}

func isLE(e *Exec, v Val) bool {
	i, ok := v.(*IfaceV)
	if ok && i.typ != nil {
		switch i.typ.String() {
		case "encoding/binary.bigEndian":
			return false
		case "encoding/binary.littleEndian":
			return true
		}
	}
	e.unsupported("byte order")
	return false
}

// fastBasic: what encoding/binary handles without reflection
func fastBasic(t types.Type) bool {
	_, ok := t.(*types.Basic)
	return ok
}

type condV struct{ waiting []*bool }

type lazyV struct { // bufio.Reader before its first use
	src Val
}

type BWriterV struct { // bufio.Writer
	w   Val
	buf Rope
	err *IfaceV
}

func init() {
	// errors
	models["errors.Is"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		x, t := a[0].(*IfaceV), a[1].(*IfaceV)
		if x.typ == nil || t.typ == nil {
			return Bool(x.typ == nil && t.typ == nil)
		}
		return Bool(e.errChain(x, 0, func(v *IfaceV) bool {
			_, mk := v.typ.(*marker)
			if mk || types.Comparable(v.typ) {
				if e.branch(e.equal(v, t)) {
					return true
				}
			}
			if !mk {
				if m := types.NewMethodSet(v.typ).Lookup(nil, "Is"); m != nil {
					return e.branch(e.term(e.call(e.v.prog.MethodValue(m), []Val{v.v, t}, nil)))
				}
			}
			return false
		}))
	}
	models["errors.As"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		x, t := a[0].(*IfaceV), a[1].(*IfaceV)
		if t.typ == nil {
			e.safety("errors.As with a target", tFalse)
		}
		pt, ok := t.typ.Underlying().(*types.Pointer)
		if !ok {
			e.safety("errors.As with a pointer", tFalse)
		}
		return Bool(e.errChain(x, 0, func(v *IfaceV) bool {
			if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
				good := v.typ == mkErr && it.NumMethods() <= 1
				if _, mk := v.typ.(*marker); !mk {
					good = types.Implements(v.typ, it)
				}
				if good {
					e.store(e.ptr(t.v), v)
				}
				return good
			}
			if _, mk := v.typ.(*marker); !mk && types.Identical(v.typ, pt.Elem()) {
				e.store(e.ptr(t.v), v.v)
				return true
			}
			return false
		}))
	}
	models["errors.Unwrap"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		x := a[0].(*IfaceV)
		if ev, ok := x.v.(*ErrV); ok && ev.many {
			return nilIface
		}
		if w := e.wrapped(x); len(w) == 1 {
			return w[0]
		}
		return nilIface
	}
	models["errors.Join"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		var ws []*IfaceV
		for _, x := range e.elems(a[0], "errors.Join") {
			if i := x.(*IfaceV); i.typ != nil {
				ws = append(ws, i)
			}
		}
		if len(ws) == 0 {
			return nilIface
		}
		r := e.newErr("joined")
		r.v.(*ErrV).wraps, r.v.(*ErrV).many = ws, true
		return r
	}
	wrap := func(e *Exec, fn *ssa.Function, a []Val) Val {
		x := a[0].(*IfaceV)
		if x.typ == nil {
			return nilIface
		}
		r := e.newErr("wrapped")
		r.v.(*ErrV).wraps = []*IfaceV{x}
		return r
	}
	for _, n := range []string{"Wrap", "Wrapf", "WithMessage", "WithMessagef", "WithStack"} {
		models["github.com/pkg/errors."+n] = wrap
	}
	models["github.com/pkg/errors.Errorf"] = models["fmt.Errorf"]
	models["github.com/pkg/errors.Is"] = models["errors.Is"]
	models["github.com/pkg/errors.As"] = models["errors.As"]

	// sort
	bySort := func(less func(e *Exec, a []Val, x, y Val, i, j int) bool) model {
		return func(e *Exec, fn *ssa.Function, a []Val) Val {
			v := a[0]
			if i, ok := v.(*IfaceV); ok {
				v = i.v
			}
			s := v.(*SliceV)
			n, ok := e.concrete(s.len)
			if !ok {
				e.unsupported("sort of a slice of unknown length")
			}
			at := func(i int) *Ptr {
				return e.elemPtr(&Ptr{obj: s.obj, path: s.path}, Add(s.off, I64(int64(i))))
			}
			for i := 1; i < n; i++ {
				for j := i; j > 0; j-- {
					x, y := e.load(at(j)), e.load(at(j-1))
					if !less(e, a, x, y, j, j-1) {
						break
					}
					e.store(at(j), y)
					e.store(at(j-1), x)
				}
			}
			return nil
		}
	}
	byFunc := bySort(func(e *Exec, a []Val, x, y Val, i, j int) bool {
		return e.branch(e.term(e.callFn(a[1].(*FuncV), []Val{I64(int64(i)), I64(int64(j))})))
	})
	models["sort.Slice"], models["sort.SliceStable"] = byFunc, byFunc
	models["sort.Ints"] = bySort(func(e *Exec, a []Val, x, y Val, i, j int) bool { return e.branch(Lt(e.term(x), e.term(y))) })

	// sync
	models["(*sync.Once).Do"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		p := e.ptr(a[0])
		// 0: not yet, 1: running, 2: done
		switch e.load(p).(*Term) {
		case zero:
			e.store(p, one)
			e.callFn(a[1].(*FuncV), nil)
			e.store(p, I64(2))
		case one:
			e.block("once", func() bool { return e.load(p).(*Term) != one })
		}
		return nil
	}
	M := "(*sync.Map)."
	mapOf := func(e *Exec, v Val) *Obj {
		p := e.ptr(v)
		return e.load(p).(*Obj)
	}
	find := func(e *Exec, o *Obj, k Val) int {
		for i, x := range o.val.(*MapV).keys {
			if e.branch(e.equal(x, k)) {
				return i
			}
		}
		return -1
	}
	remove := func(e *Exec, o *Obj, i int) {
		m := o.val.(*MapV)
		e.touch(o)
		n := &MapV{}
		n.keys = append(append(n.keys, m.keys[:i]...), m.keys[i+1:]...)
		n.vals = append(append(n.vals, m.vals[:i]...), m.vals[i+1:]...)
		o.val = n
	}
	models[M+"Load"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		o := mapOf(e, a[0])
		if i := find(e, o, a[1]); i >= 0 {
			return TupleV{o.val.(*MapV).vals[i], tTrue}
		}
		return TupleV{nilIface, tFalse}
	}
	models[M+"Store"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		e.mapUpdate(mapOf(e, a[0]), a[1], a[2])
		return nil
	}
	models[M+"LoadOrStore"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		o := mapOf(e, a[0])
		if i := find(e, o, a[1]); i >= 0 {
			return TupleV{o.val.(*MapV).vals[i], tTrue}
		}
		e.mapUpdate(o, a[1], a[2])
		return TupleV{a[2], tFalse}
	}
	models[M+"LoadAndDelete"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		o := mapOf(e, a[0])
		if i := find(e, o, a[1]); i >= 0 {
			v := o.val.(*MapV).vals[i]
			remove(e, o, i)
			return TupleV{v, tTrue}
		}
		return TupleV{nilIface, tFalse}
	}
	models[M+"Delete"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		o := mapOf(e, a[0])
		if i := find(e, o, a[1]); i >= 0 {
			remove(e, o, i)
		}
		return nil
	}
	models[M+"Range"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		m := mapOf(e, a[0]).val.(*MapV)
		for i := range m.keys {
			if !e.branch(e.term(e.callFn(a[1].(*FuncV), []Val{m.keys[i], m.vals[i]}))) {
				break
			}
		}
		return nil
	}
	models["(*sync.Pool).Get"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		p := e.ptr(a[0])
		pool, _ := e.ghost["pool"].(map[*Obj][]Val)
		// anything put back before, or a new one
		if xs := pool[p.obj]; len(xs) > 0 {
			if k := e.choose(len(xs) + 1); k > 0 {
				x := xs[k-1]
				pool[p.obj] = append(append([]Val{}, xs[:k-1]...), xs[k:]...)
				return x
			}
		}
		st := p.obj.typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f, _ := e.load(sub(p, sel{i: i})).(*FuncV)
				if f == nil || f.fn == nil && f.nat == nil {
					return nilIface
				}
				return e.callFn(f, nil)
			}
		}
		e.unsupported("sync.Pool")
		return nil
	}
	models["(*sync.Pool).Put"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		pool, _ := e.ghost["pool"].(map[*Obj][]Val)
		if pool == nil {
			pool = map[*Obj][]Val{}
			e.ghost["pool"] = pool
		}
		o := e.ptr(a[0]).obj
		pool[o] = append(pool[o], a[1])
		return nil
	}
	cond := func(e *Exec, v Val) *condV {
		m, _ := e.ghost["cond"].(map[*Obj]*condV)
		if m == nil {
			m = map[*Obj]*condV{}
			e.ghost["cond"] = m
		}
		o := e.ptr(v).obj
		if m[o] == nil {
			m[o] = &condV{}
		}
		return m[o]
	}
	models["sync.NewCond"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		s := e.zeroVal(t).(*StructV)
		st := t.Underlying().(*types.Struct)
		for i := range s.f {
			if st.Field(i).Name() == "L" {
				s.f[i] = a[0]
			}
		}
		return &Ptr{obj: e.newObj(t, s, "cond")}
	}
	models["(*sync.Cond).Wait"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		p := e.ptr(a[0])
		st := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		var l *IfaceV
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "L" {
				l = e.load(sub(p, sel{i: i})).(*IfaceV)
			}
		}
		do := func(name string) {
			f := e.v.prog.LookupMethod(l.typ, nil, name)
			e.call(f, []Val{l.v}, nil)
		}
		woken := false
		c := cond(e, a[0])
		c.waiting = append(c.waiting, &woken)
		do("Unlock")
		e.block("condition", func() bool { return woken })
		do("Lock")
		return nil
	}
	wake := func(all bool) model {
		return func(e *Exec, fn *ssa.Function, a []Val) Val {
			c := cond(e, a[0])
			for len(c.waiting) > 0 {
				*c.waiting[0] = true
				c.waiting = c.waiting[1:]
				if !all {
					break
				}
			}
			return nil
		}
	}
	models["(*sync.Cond).Signal"], models["(*sync.Cond).Broadcast"] = wake(false), wake(true)
	for _, t := range []string{"(*sync.Mutex).", "(*sync.RWMutex)."} {
		models[t+"TryLock"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			p := e.ptr(a[0])
			if e.load(p).(*Term) != zero {
				return tFalse
			}
			e.store(p, one)
			return tTrue
		}
	}

	// sync/atomic
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		models["sync/atomic.Load"+t] = func(e *Exec, fn *ssa.Function, a []Val) Val { return e.load(e.ptr(a[0])) }
		models["sync/atomic.Store"+t] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			e.store(e.ptr(a[0]), a[1])
			return nil
		}
		models["sync/atomic.Add"+t] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			p := e.ptr(a[0])
			r := e.wrap(Add(e.term(e.load(p)), e.term(a[1])), fn.Signature.Results().At(0).Type())
			e.store(p, r)
			return r
		}
		models["sync/atomic.Swap"+t] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			p := e.ptr(a[0])
			old := e.load(p)
			e.store(p, a[1])
			return old
		}
		models["sync/atomic.CompareAndSwap"+t] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			p := e.ptr(a[0])
			if e.branch(e.equal(e.load(p), a[1])) {
				e.store(p, a[2])
				return tTrue
			}
			return tFalse
		}
	}
	for _, t := range []string{"(*sync/atomic.Value).", "(*sync/atomic.Pointer[T])."} {
		models[t+"Load"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return e.load(e.ptr(a[0])) }
		models[t+"Store"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			if i, ok := a[1].(*IfaceV); ok && i.typ == nil {
				e.safety("store of nil value into Value", tFalse)
			}
			e.store(e.ptr(a[0]), a[1])
			return nil
		}
		models[t+"Swap"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			p := e.ptr(a[0])
			old := e.load(p)
			e.store(p, a[1])
			return old
		}
		models[t+"CompareAndSwap"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			p := e.ptr(a[0])
			if e.branch(e.equal(e.load(p), a[1])) {
				e.store(p, a[2])
				return tTrue
			}
			return tFalse
		}
	}

	// timers: they fire at some time
	timer := func(e *Exec) *Obj { return e.newObj(nil, &ChanV{cap: 1, timer: true}, "timer") }
	models["time.After"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return timer(e) }
	models["time.NewTimer"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		s := e.zeroVal(t).(*StructV)
		s.f[0] = timer(e)
		return &Ptr{obj: e.newObj(t, s, "timer")}
	}
	models["time.AfterFunc"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		s := e.zeroVal(t).(*StructV)
		p := &Ptr{obj: e.newObj(t, s, "timer")}
		if !e.steady && e.choose(2) == 1 {
			f := a[1].(*FuncV)
			e.spawn(func() { e.callFn(f, nil) })
		}
		return p
	}
	models["(*time.Timer).Stop"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return e.fresh("stopped", SBool, nil, nil) }
	models["(*time.Timer).Reset"] = models["(*time.Timer).Stop"]

	// bytes, io
	models["internal/bytealg.MakeNoZero"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return e.makeSlice(types.Typ[types.Byte], e.term(a[0]), e.term(a[0]))
	}
	fall := func(m model) model {
		return func(e *Exec, fn *ssa.Function, a []Val) Val {
			if _, _, ok := e.content(a[len(a)-1]); !ok {
				return e.body(fn, a, nil)
			}
			return m(e, fn, a)
		}
	}
	copyAll := fall(func(e *Exec, fn *ssa.Function, a []Val) Val {
		in, take, _ := e.content(a[1])
		in = norm(in)
		take()
		if len(in) == 0 {
			return TupleV{zero, nilIface}
		}
		r := e.writeTo(a[0], in).(TupleV)
		return TupleV{r[0], r[1]}
	})
	models["io.Copy"] = copyAll
	models["(*bytes.Buffer).ReadFrom"] = fall(func(e *Exec, fn *ssa.Function, a []Val) Val {
		in, take, _ := e.content(a[1])
		take()
		e.bufWrite(e.ptr(a[0]), in)
		return TupleV{norm(in).Len(), nilIface}
	})
	for _, t := range []string{"(*bytes.Buffer).", "(*bytes.Reader).", "(*strings.Reader).", "(*bufio.Reader)."} {
		models[t+"WriteTo"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			in, take, _ := e.content(&IfaceV{typ: fn.Signature.Recv().Type(), v: a[0]})
			in = norm(in)
			take()
			if len(in) == 0 {
				return TupleV{zero, nilIface}
			}
			return e.writeTo(a[1], in)
		}
		until := func(e *Exec, fn *ssa.Function, a []Val) (Rope, Val) {
			d, ok := e.concrete(a[1])
			if !ok || d >= 128 {
				e.unsupported("delimiter")
			}
			in, take, _ := e.source(&IfaceV{typ: fn.Signature.Recv().Type(), v: a[0]})
			ps := e.split(in, string(rune(d)))
			if len(ps) == 1 {
				take(norm(in).Len())
				return in, errEOF
			}
			take(Add(ps[0].Len(), one))
			return cat(ps[0], Rope{cseg([]byte{byte(d)})}), nilIface
		}
		models[t+"ReadString"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			r, err := until(e, fn, a)
			return TupleV{StrV{norm(r)}, err}
		}
		models[t+"ReadBytes"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
			r, err := until(e, fn, a)
			return TupleV{e.newBytes(r, "ReadBytes"), err}
		}
	}
	models["(*bytes.Buffer).Truncate"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		b := e.buf(a[0])
		n := e.term(a[1])
		if b.back == nil {
			e.safety("truncation within the buffer", Eq(n, zero))
			return nil
		}
		e.safety("truncation within the buffer", And(Le(zero, n), Le(n, Sub(b.end, b.off))))
		e.store(e.ptr(a[0]), &BufV{back: b.back, off: b.off, end: Add(b.off, n)})
		return nil
	}
	models["strings.NewReader"] = models["bytes.NewBufferString"]
	lazy := func(e *Exec, fn *ssa.Function, a []Val) Val {
		return &Ptr{obj: e.newObj(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), &lazyV{a[0]}, "buffered reader")}
	}
	models["bufio.NewReader"], models["bufio.NewReaderSize"] = lazy, lazy
	bw := func(e *Exec, fn *ssa.Function, a []Val) Val {
		return &Ptr{obj: e.newObj(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), &BWriterV{w: a[0]}, "buffered writer")}
	}
	models["bufio.NewWriter"], models["bufio.NewWriterSize"] = bw, bw
	W := "(*bufio.Writer)."
	models[W+"Flush"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		p := e.ptr(a[0])
		b := *e.load(p).(*BWriterV)
		if b.err != nil {
			return b.err
		}
		if x := norm(b.buf); len(x) > 0 {
			b.buf = nil
			if err := e.writeTo(b.w, x).(TupleV)[1].(*IfaceV); err.typ != nil {
				b.err = err
			}
			e.store(p, &b)
			if b.err != nil {
				return b.err
			}
		}
		return nilIface
	}
	models[W+"Buffered"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return norm(e.load(e.ptr(a[0])).(*BWriterV).buf).Len()
	}
	models[W+"Write"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return e.writeTo(&IfaceV{typ: fn.Signature.Recv().Type(), v: a[0]}, e.bytesOf(a[1].(*SliceV)))
	}
	models[W+"WriteString"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return e.writeTo(&IfaceV{typ: fn.Signature.Recv().Type(), v: a[0]}, a[1].(StrV).r)
	}
	models[W+"WriteByte"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return e.writeTo(&IfaceV{typ: fn.Signature.Recv().Type(), v: a[0]}, Rope{seg(SBE, 1, e.term(a[1]))}).(TupleV)[1]
	}

	// encoding/binary with reflection
	ioReadFull := func(e *Exec, r Val, dst *SliceV) TupleV {
		return e.call(e.v.prog.ImportedPackage("io").Func("ReadFull"), []Val{r, dst}, nil).(TupleV)
	}
	models["encoding/binary.Read"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		d, ok := a[2].(*IfaceV)
		if !ok || d.typ == nil {
			return e.body(fn, a, nil)
		}
		p, isPtr := d.v.(*Ptr)
		if !isPtr {
			return e.body(fn, a, nil)
		}
		t := d.typ.Underlying().(*types.Pointer).Elem()
		if fastBasic(t) {
			return e.body(fn, a, nil)
		}
		n := e.layout(t, nil)
		if n == nil {
			e.unsupported("binary.Read into " + t.String())
		}
		le := isLE(e, a[1])
		buf := e.makeSlice(types.Typ[types.Byte], n, n).(*SliceV)
		r := ioReadFull(e, a[0], buf)
		if err := r[1].(*IfaceV); err.typ != nil {
			return err
		}
		v, _ := e.decodeFixed(t, e.bytesOf(buf), le)
		e.store(p, v)
		return nilIface
	}
	models["encoding/binary.Write"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		d, ok := a[2].(*IfaceV)
		if !ok || d.typ == nil {
			return e.body(fn, a, nil)
		}
		t, v := d.typ, d.v
		if p, isPtr := v.(*Ptr); isPtr {
			t = t.Underlying().(*types.Pointer).Elem()
			v = e.load(p)
		}
		if fastBasic(t) {
			return e.body(fn, a, nil)
		}
		if e.layout(t, v) == nil {
			return e.newErr("some values are not fixed-sized")
		}
		return e.writeTo(a[0], e.encodeFixed(t, v, isLE(e, a[1]))).(TupleV)[1]
	}
	models["encoding/binary.Size"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		d, ok := a[0].(*IfaceV)
		if !ok || d.typ == nil {
			return I64(-1)
		}
		t, v := d.typ, d.v
		if p, isPtr := v.(*Ptr); isPtr {
			t = t.Underlying().(*types.Pointer).Elem()
			v = e.load(p)
		}
		if n := e.layout(t, v); n != nil {
			return n
		}
		return I64(-1)
	}

	// base64, hex into buffers
	B := "(*encoding/base64.Encoding)."
	raw := func(c *base64.Encoding) bool { return c == base64.RawStdEncoding || c == base64.RawURLEncoding }
	decLen := func(c *base64.Encoding, n *Term) *Term {
		if raw(c) {
			return Div(Scale(big.NewInt(6), n), I64(8))
		}
		return Scale(big.NewInt(3), Div(n, I64(4)))
	}
	models[B+"DecodedLen"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		_, c := base64Of(e, a[0])
		return decLen(c, e.term(a[1]))
	}
	models[B+"EncodedLen"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		_, c := base64Of(e, a[0])
		return base64Len(c, e.term(a[1]))
	}
	models[B+"Encode"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		s := models[B+"EncodeToString"](e, fn, []Val{a[0], a[2]}).(StrV)
		e.safety("encoded text fits", Le(norm(s.r).Len(), a[1].(*SliceV).len))
		e.writeBytes(a[1].(*SliceV), zero, s.r)
		return nil
	}
	models[B+"AppendEncode"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		s := models[B+"EncodeToString"](e, fn, []Val{a[0], a[2]}).(StrV)
		return e.append(a[1].(*SliceV), s, types.NewSlice(types.Typ[types.Byte]))
	}
	models[B+"Decode"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		_, c := base64Of(e, a[0])
		x := StrV{norm(e.bytesOf(a[2].(*SliceV)))}
		r := models[B+"DecodeString"](e, fn, []Val{a[0], x}).(TupleV)
		b := norm(e.bytesOf(r[0].(*SliceV)))
		n := b.Len()
		if _, ok := b.constant(); !ok {
			e.assume(Le(n, decLen(c, x.r.Len())))
		}
		e.safety("decoded bytes fit", Le(n, a[1].(*SliceV).len))
		e.writeBytes(a[1].(*SliceV), zero, b)
		return TupleV{n, r[1]}
	}
	models[B+"AppendDecode"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		x := StrV{norm(e.bytesOf(a[2].(*SliceV)))}
		r := models[B+"DecodeString"](e, fn, []Val{a[0], x}).(TupleV)
		return TupleV{e.append(a[1].(*SliceV), r[0], types.NewSlice(types.Typ[types.Byte])), r[1]}
	}
	models["encoding/hex.EncodedLen"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		return Scale(big.NewInt(2), e.term(a[0]))
	}
	models["encoding/hex.DecodedLen"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return Div(e.term(a[0]), I64(2)) }

	// numbers as text
	bigText := func(e *Exec, x *Term, base int) Rope {
		if x.isConst() {
			return norm(Rope{cseg([]byte(x.val.Text(base)))})
		}
		src := App(fmt.Sprintf("bigtext:%d", base), SBytes, nil, nil, x)
		return Rope{Seg{k: SSpec, src: src, n: App(fmt.Sprintf("bigtextlen:%d", base), SInt, big1, big.NewInt(1<<43), x), excl: "base64"}}
	}
	Int := "(*math/big.Int)."
	models[Int+"String"] = func(e *Exec, fn *ssa.Function, a []Val) Val { return StrV{bigText(e, e.big(a[0]), 10)} }
	models[Int+"Text"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		b, ok := e.concrete(a[1])
		if !ok || b < 2 || b > 62 {
			return StrV{e.rawRope("bigstring", "")}
		}
		return StrV{bigText(e, e.big(a[0]), b)}
	}
	models[Int+"SetString"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		s := norm(a[1].(StrV).r)
		b, ok := e.concrete(a[2])
		if !ok {
			e.unsupported("SetString with an unknown base")
		}
		if c, ok := s.constant(); ok {
			x, good := new(big.Int).SetString(string(c), b)
			if !good {
				return TupleV{nilPtr, tFalse}
			}
			e.store(e.ptr(a[0]), IConst(x))
			return TupleV{a[0], tTrue}
		}
		if len(s) == 1 && s[0].k == SSpec && (s[0].src.name == fmt.Sprintf("bigtext:%d", b) || s[0].src.name == "itoa" && b == 10 ||
			s[0].src.name == "bigtext:10" && b == 0) {
			e.store(e.ptr(a[0]), s[0].src.args[0])
			return TupleV{a[0], tTrue}
		}
		name := fmt.Sprintf("bignum:%d", b)
		if !e.branch(App("is"+name, SBool, nil, nil, s.term())) {
			return TupleV{nilPtr, tFalse}
		}
		e.store(e.ptr(a[0]), App(name, SInt, nil, nil, s.term()))
		return TupleV{a[0], tTrue}
	}
	models[Int+"QuoRem"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		x, y := a[1], a[2]
		q, r := e.newBig(zero), e.newBig(zero)
		models[Int+"Quo"](e, fn, []Val{q, x, y})
		models[Int+"Rem"](e, fn, []Val{r, x, y})
		e.store(e.ptr(a[0]), e.load(q))
		e.store(e.ptr(a[3]), e.load(r))
		return TupleV{a[0], a[3]}
	}
	models[Int+"Append"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		b, ok := e.concrete(a[2])
		if !ok {
			e.unsupported("base")
		}
		return e.append(a[1].(*SliceV), StrV{bigText(e, e.big(a[0]), b)}, types.NewSlice(types.Typ[types.Byte]))
	}
	models["strconv.AppendInt"] = func(e *Exec, fn *ssa.Function, a []Val) Val {
		if b, ok := e.concrete(a[2]); !ok || b != 10 {
			e.unsupported("AppendInt")
		}
		return e.append(a[0].(*SliceV), StrV{itoa(e.term(a[1]))}, types.NewSlice(types.Typ[types.Byte]))
	}
	models["strconv.AppendUint"] = models["strconv.AppendInt"]
	_ = hex.EncodeToString
	_ = strings.Join
}

// selectStmt runs a select statement
func (e *Exec) selectStmt(f *frame, i *ssa.Select) Val {
	type arm struct {
		c     *ChanV
		send  bool
		x     Val
		et    types.Type
		ready func() bool
	}
	var arms []arm
	for _, s := range i.States {
		o, _ := e.get(f, s.Chan).(*Obj)
		a := arm{send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem(), ready: func() bool { return false }}
		if o != nil {
			c := o.val.(*ChanV)
			a.c = c
			if a.send {
				a.x = e.get(f, s.Send)
				a.ready = func() bool {
					return c.closed || c.cap > len(c.buf) || c.cap == 0 && len(c.buf) == 0 && c.waiting > 0
				}
			} else {
				a.ready = func() bool { return len(c.buf) > 0 || c.closed }
			}
		}
		arms = append(arms, a)
	}
	var ready []int
	timers := []int{}
	look := func() bool {
		ready = ready[:0]
		for k, a := range arms {
			if a.ready() {
				ready = append(ready, k)
			}
		}
		return len(ready) > 0
	}
	for k, a := range arms {
		if a.c != nil && a.c.timer {
			timers = append(timers, k)
		}
	}
	look()
	if !i.Blocking && len(ready) == 0 {
		if len(timers) > 0 && !e.steady {
			ready = append(ready, timers...)
			if k := e.choose(len(ready) + 1); k > 0 {
				ready = ready[k-1 : k]
			} else {
				ready = nil
			}
		}
	} else if i.Blocking {
		if len(timers) > 0 {
			if e.steady {
				if !look() {
					idle := false
					e.blockIdle("select", look, &idle)
					if idle {
						ready = timers
					}
				}
			} else {
				// the timer may be first, or last
				if e.choose(2) == 1 {
					ready = timers
				} else if !look() {
					idle := false
					e.blockIdle("select", look, &idle)
					if idle {
						ready = timers
					}
				}
			}
		} else {
			for _, a := range arms {
				if a.c != nil && !a.send {
					a.c.waiting++
				}
			}
			e.block("select", look)
			for _, a := range arms {
				if a.c != nil && !a.send {
					a.c.waiting--
				}
			}
			look()
		}
	}
	res := TupleV{I64(-1), tFalse}
	for _, a := range arms {
		if !a.send {
			res = append(res, e.zeroVal(a.et))
		}
	}
	if len(ready) == 0 {
		return res
	}
	k := ready[e.choose(len(ready))]
	a := arms[k]
	res[0] = I64(int64(k))
	if a.send {
		if a.c.closed {
			e.safety("send on closed channel", tFalse)
		}
		a.c.buf = append(a.c.buf, a.x)
		return res
	}
	pos := 2
	for _, b := range arms[:k] {
		if !b.send {
			pos++
		}
	}
	if a.c.timer {
		res[1] = tTrue
		res[pos] = e.opaque(a.et, "time")
		return res
	}
	if len(a.c.buf) > 0 {
		res[1] = tTrue
		res[pos] = a.c.buf[0]
		a.c.buf = a.c.buf[1:]
		a.c.taken++
	}
	return res
}

// blockIdle waits until cond holds, or until nothing else can go on (then it sets idle)
func (e *Exec) blockIdle(what string, cond func() bool, idle *bool) {
	me := e.cur
	me.idle = idle
	defer func() { me.idle = nil }()
	for !cond() && !*idle {
		me.cond = func() bool { return cond() || *idle }
		n := e.pick(me)
		if n == nil {
			*idle = true
			break
		}
		e.switchTo(n)
	}
	me.cond = nil
}
