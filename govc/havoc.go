package main

// Calls of functions under a weak contract: the function returns (no panic), changes its receiver only when it decodes
// it, reads any amount from its reader, writes anything to its writer, and may report an error. The contract is implied
// by what the lemmas of C02, C07, C09, C10 and C12 establish for these functions.

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	gvm("Havoc", func(e *Exec, a []Val) Val {
		e.havoc[constStr(e, a[0])] = true
		return nil
	})
}

// anyVal is an arbitrary value of a type, without nil pointers
func (e *Exec) anyVal(t types.Type, name string) Val {
	if isBigInt(t) {
		return e.fresh(name, SInt, nil, nil)
	}
	if isNamed(t, "gitlab.com/alephledger/threshold-ecdsa/pkg/curve.Point") {
		return e.newPoint(e.fresh(name, SInt, big0, new(big.Int).Sub(bigN, big1)))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return &Ptr{obj: e.newObj(u.Elem(), e.anyVal(u.Elem(), name), name)}
	case *types.Struct:
		s := &StructV{f: make([]Val, u.NumFields())}
		for i := range s.f {
			f := u.Field(i)
			s.f[i] = e.anyVal(f.Type(), name+"."+f.Name())
		}
		return s
	case *types.Interface:
		if isNamed(t, "gitlab.com/alephledger/threshold-ecdsa/pkg/curve.Group") {
			return e.call(e.v.pkgs["gitlab.com/alephledger/threshold-ecdsa/pkg/curve"].Func("NewSecp256k1Group"), nil, nil)
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return e.newBytes(e.rawRope(name, ""), name)
		}
	}
	if bits, signed, ok := intRange(t); ok {
		return e.intVar(name, bits, signed)
	}
	e.unsupported("any value of " + t.String())
	return nil
}

func (e *Exec) havocCall(fn *ssa.Function, args []Val) Val {
	key := fn.RelString(nil)
	e.v.havocked[key] = true
	fails := e.choose(2) == 1
	var recv *Ptr
	for i, p := range fn.Params {
		switch {
		case isNamed(p.Type(), "io.Reader"):
			e.anyRest(args[i])
			if r, ok := args[0].(*Ptr); ok {
				if r.obj == nil {
					e.safety("nil dereference (receiver)", tFalse)
				}
				recv = r
			}
		case isNamed(p.Type(), "io.Writer"):
			e.writeTo(args[i], e.rawRope("written", ""))
		}
	}
	if recv != nil {
		t := recv.obj.typ
		if pt, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if fails {
			e.store(recv, &OpaqueV{t, "partly decoded"})
		} else {
			e.store(recv, e.anyVal(t, "decoded"))
		}
	}
	var err Val = nilIface
	if fails {
		err = e.newErr("error of " + fn.Name())
	}
	return err
}

// anyRest consumes something from a reader
func (e *Exec) anyRest(r Val) {
	e.source(r)
	p := r.(*IfaceV).v.(*Ptr)
	rest := e.rawRope("rest", "")
	switch b := e.load(p).(type) {
	case *BufV:
		e.store(p, &BufV{back: e.newObj(types.Typ[types.Byte], rest, "rest"), off: zero, end: rest.Len()})
	case *StreamV:
		c := *b
		c.in = rest
		e.store(p, &c)
	default:
		e.unsupported("an unknown amount read from this reader")
	}
}
