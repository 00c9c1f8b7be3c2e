package main

import (
	"fmt"
	"go/types"
)

// SymArr is an array of unknown length: a base function of the index and the writes since.
type SymArr struct {
	base   func(e *Exec, i *Term) Val
	writes []symWrite
}

type symWrite struct {
	i *Term
	v Val
}

func (a *SymArr) get(e *Exec, i *Term) Val {
	for k := len(a.writes) - 1; k >= 0; k-- {
		if e.branch(Eq(a.writes[k].i, i)) {
			return a.writes[k].v
		}
	}
	return a.base(e, i)
}

func (a *SymArr) set(i *Term, v Val) *SymArr {
	return &SymArr{base: a.base, writes: append(append([]symWrite{}, a.writes...), symWrite{i, v})}
}

// symAppend appends to a slice of unknown length. The result has an array of its own; whether Go shares the old one is
// left open: what lies beyond the length of the old slice may not be used any more.
func (e *Exec) symAppend(s *SliceV, v Val, elem types.Type) Val {
	var more []Val
	switch y := v.(type) {
	case *SliceV:
		k, ok := e.concrete(y.len)
		if !ok {
			e.unsupported("append a slice of unknown length")
		}
		for i := 0; i < k; i++ {
			more = append(more, e.load(e.elemPtr(&Ptr{obj: y.obj, path: y.path}, Add(y.off, I64(int64(i))))))
		}
	default:
		e.unsupported("append to a slice of unknown length")
	}
	old, ok := e.getPath(s.obj.val, s.path).(*SymArr)
	if !ok || len(s.path) > 0 {
		e.unsupported("append to a slice of unknown length")
	}
	a := &SymArr{base: old.base, writes: old.writes}
	if s.off != zero {
		off := s.off
		a = &SymArr{base: func(e *Exec, i *Term) Val { return old.get(e, Add(i, off)) }}
	}
	n := s.len
	for _, x := range more {
		a = a.set(n, x)
		n = Add(n, one)
	}
	o := e.newObj(s.obj.typ, a, "append")
	o.appended = s.obj
	return &SliceV{obj: o, off: zero, len: n, cap: n}
}

// symInts is a slice of unknown length whose elements are arbitrary numbers
func (e *Exec) symInts(name string, n *Term, lo, hi *Term) *SliceV {
	bound := func(t *Term) *bigT {
		if t == nil || !t.isConst() {
			return nil
		}
		return t.val
	}
	seen := map[*Term]*Ptr{}
	base := func(e *Exec, i *Term) Val {
		if p, ok := seen[i]; ok {
			return p
		}
		p := e.newBig(elemOf(name, i, bound(lo), bound(hi)))
		p.obj.frozen = true
		p.obj.name = fmt.Sprintf("an element of %s", name)
		seen[i] = p
		return p
	}
	e.unbounded = true
	return &SliceV{obj: e.newObj(nil, &SymArr{base: base}, name), off: zero, len: n, cap: n}
}

func elemOf(name string, i *Term, lo, hi *bigT) *Term { return App("elem:"+name, SInt, lo, hi, i) }
