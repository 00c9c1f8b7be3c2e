package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// Obj is a memory cell or block. val holds a *Term (integers, booleans, the value of a big.Int), a *StructV, an *ArrV,
// a Rope (byte arrays), or a model value.
type Obj struct {
	id     int
	typ    types.Type
	val    Val
	frozen bool
	stale  bool // another array may or may not share the storage
	name   string
	global bool
	key    objKey
	elem   bool // made when an iteration was looked into afterwards

	appended *Obj // the array this one continues
}

type sel struct {
	i int
	t *Term // index in a byte array or symbolic array
}

type Ptr struct {
	obj  *Obj
	path []sel
}

type SliceV struct {
	obj           *Obj
	path          []sel // where the array is inside the object
	off, len, cap *Term
}

type StrV struct{ r Rope }

type IfaceV struct {
	typ types.Type // nil: nil interface
	v   Val
}

type FuncV struct {
	fn   *ssa.Function
	bind []Val
	nat  func(e *Exec, args []Val) Val
	name string
}

type StructV struct{ f []Val }
type ArrV struct{ e []Val }
type TupleV []Val

type OpaqueV struct {
	typ  types.Type
	name string
}

// PointV is a group element known by its discrete logarithm only
type PointV struct{ dl *Term }

type ErrV struct {
	id    int
	desc  string
	wraps []*IfaceV
	many  bool
}

type BufV struct { // bytes.Buffer
	back     *Obj // Rope
	off, end *Term
}

type WriterV struct { // an io.Writer of unknown kind
	name    string
	out     Rope
	canFail bool
	failed  *Term
	n       int
}

type StreamV struct { // an io.Reader of unknown kind
	name string
	in   Rope
	n    int
}

type MapV struct {
	keys []Val
	vals []Val
}

type ChanV struct {
	buf    []Val
	cap    int
	closed bool

	timer   bool
	waiting int // receivers
	taken   int // values received
}

// marker types for model values held in interfaces
type marker struct{ name string }

func (m *marker) Underlying() types.Type { return m }
func (m *marker) String() string         { return m.name }

var (
	mkPoint  = &marker{"point"}
	mkErr    = &marker{"error value"}
	mkWriter = &marker{"writer"}
	mkStream = &marker{"reader"}
	mkOpaque = &marker{"opaque"}
	mkServer = &marker{"server"}
)

var nilPtr = &Ptr{}

func isNilVal(v Val) (bool, bool) {
	switch x := v.(type) {
	case *Ptr:
		return x.obj == nil, true
	case *SliceV:
		return x.obj == nil, true
	case *IfaceV:
		return x.typ == nil, true
	case *FuncV:
		return x.fn == nil && x.nat == nil, true
	case *Obj:
		return x == nil, true
	}
	return false, false
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func isNamed(t types.Type, full string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == full
}

func isBigInt(t types.Type) bool { return isNamed(t, "math/big.Int") }

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// objKey identifies an object on all paths: where it is made, and how many were made there before
type objKey struct {
	where token.Pos
	name  string
	n     int
}

func (k objKey) less(l objKey) bool {
	if k.where != l.where {
		return k.where < l.where
	}
	if k.name != l.name {
		return k.name < l.name
	}
	return k.n < l.n
}

const iterIDs = 1 << 40

func (e *Exec) newObj(t types.Type, v Val, name string) *Obj {
	if len(e.iter) > 0 {
		// numbers of other objects must not depend on what is looked into
		o := &Obj{id: iterIDs + len(e.made), typ: t, val: v, name: name}
		e.made = append(e.made, o)
		return o
	}
	e.nobj++
	o := &Obj{id: e.nobj, typ: t, val: v, name: name}
	o.key = objKey{where: e.where, name: name}
	if !e.unbounded {
		o.key.n = e.nobj
	} else {
		if e.objCount == nil {
			e.objCount, e.objs = map[objKey]int{}, map[objKey]*Obj{}
		}
		e.objCount[o.key]++
		o.key.n = e.objCount[o.key]
		e.objs[o.key] = o
	}
	e.heap = append(e.heap, o)
	return o
}

// zeroVal is the zero value of a type
func (e *Exec) zeroVal(t types.Type) Val {
	if isBigInt(t) {
		return zero
	}
	if isNamed(t, "bytes.Buffer") {
		return &BufV{}
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "sync.WaitGroup", "sync.Once":
			return I64(0)
		case "sync.Map":
			return e.newObj(t, &MapV{}, "sync.Map")
		case "sync/atomic.Value":
			return &IfaceV{}
		case "sync/atomic.Pointer":
			return nilPtr
		case "sync.Mutex", "sync.RWMutex":
			return I64(0)
		case "strings.Builder":
			return &BufV{}
		case "time.Time":
			return &OpaqueV{t, "zero time"}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return zero
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return StrV{}
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		case u.Kind() == types.UntypedNil:
			return nilPtr
		}
		return &OpaqueV{t, "zero"}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return &SliceV{off: zero, len: zero, cap: zero}
	case *types.Interface:
		return &IfaceV{}
	case *types.Signature:
		return &FuncV{}
	case *types.Map, *types.Chan:
		return (*Obj)(nil)
	case *types.Struct:
		s := &StructV{f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = e.zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			return norm(Rope{zseg(I64(u.Len()))})
		}
		a := &ArrV{e: make([]Val, u.Len())}
		for i := range a.e {
			a.e[i] = e.zeroVal(u.Elem())
		}
		return a
	case *types.Tuple:
		if u.Len() == 0 {
			return TupleV{}
		}
	}
	return &OpaqueV{t, "zero"}
}

func intRange(t types.Type) (bits int, signed bool, ok bool) {
	b, o := t.Underlying().(*types.Basic)
	if !o {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return
}

func showVal(v Val) string {
	switch x := v.(type) {
	case *Term:
		return x.String()
	case *Ptr:
		if x.obj == nil {
			return "nil"
		}
		return fmt.Sprintf("&%s#%d%v", x.obj.name, x.obj.id, x.path)
	case StrV:
		return x.r.String()
	case *IfaceV:
		if x.typ == nil {
			return "nil"
		}
		return fmt.Sprintf("%v(%s)", x.typ, showVal(x.v))
	case *PointV:
		return "point(" + x.dl.String() + ")"
	case *StructV:
		s := "{"
		for i, f := range x.f {
			if i > 0 {
				s += ", "
			}
			s += showVal(f)
		}
		return s + "}"
	case TupleV:
		s := "("
		for i, f := range x {
			if i > 0 {
				s += ", "
			}
			s += showVal(f)
		}
		return s + ")"
	case *ErrV:
		return "error: " + x.desc
	}
	return fmt.Sprintf("%T", v)
}
