package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "gitlab.com/alephledger/threshold-ecdsa"

// Verifier holds the loaded program and the results of one unit (a function verified against its contract, or a lemma).
type Verifier struct {
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	order     []*ssa.Package // repository and lemma packages, dependencies first
	bigT      types.Type
	solver    *Solver
	contracts map[string]*Contract
	loops     map[string]*LoopSpec
	globals   map[string]func(e *Exec) Val
	inlined   map[string]bool
	applied   map[string]bool
	modelled  map[string]bool
	havocked  map[string]bool
	drop      map[string]bool // contracts that do not hold: bodies are inlined instead
	maxUnroll int
	maxSteps  int
	deadline  time.Time

	unit     string
	obls     map[string]*Obl
	failures []*Failure
	failSeen map[string]bool
	nfail    int
	counts   func(obl string) bool
	paths    int
	reached  map[string]int
	stopAll  bool

	natural   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	undecided bool // a loop over a slice of unknown length has no known invariant
	again     bool
	againAt   int
	summands  map[string]*Term
}

type Obl struct {
	Name    string
	N       int
	Backend map[string]int
	Failed  bool
}

func (v *Verifier) failed(f *Failure) {
	o := v.obl(f.Obl)
	o.Failed = true
	if v.failSeen[f.Obl+f.Pos] {
		return
	}
	v.failSeen[f.Obl+f.Pos] = true
	v.failures = append(v.failures, f)
	if v.counts != nil && !v.counts(f.Obl) {
		return
	}
	// one failure decides; look for a few more, but not for long
	v.nfail++
	if v.nfail == 1 {
		if d := time.Now().Add(20 * time.Second); v.deadline.IsZero() || d.Before(v.deadline) {
			v.deadline = d
		}
		v.solver.hurry()
	}
	if v.nfail > 8 {
		v.stopAll = true
	}
}

// tick ends the run when its time is up
func (v *Verifier) tick() {
	if v.deadline.IsZero() || time.Now().Before(v.deadline) {
		return
	}
	v.stopAll = true
	if v.nfail == 0 {
		v.failed(&Failure{Obl: "supported: time limit of the check", Desc: "not finished"})
	}
	panic(pathEnd{"time"})
}

func (v *Verifier) obl(name string) *Obl {
	o := v.obls[name]
	if o == nil {
		o = &Obl{Name: name, Backend: map[string]int{}}
		v.obls[name] = o
	}
	return o
}

func (v *Verifier) discharged(name, backend string) {
	o := v.obl(name)
	o.N++
	o.Backend[backend]++
}

func (v *Verifier) isRepo(path string) bool {
	return path == repoPath || strings.HasPrefix(path, repoPath+"/") || strings.HasPrefix(path, "lemmas/") && path != "lemmas/gv"
}

var inlineStd = map[string]bool{"sort": true, "slices": true, "math/bits": true, "bytes": true, "strings": true, "errors": true, "io": true,
	"strconv": true, "unicode/utf8": true, "encoding/binary": true, "container/list": true, "maps": true, "cmp": true, "internal/stringslite": true, "internal/bytealg": true, "iter": true, "sync/atomic": true}

func (v *Verifier) inlinable(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == "" {
		return true // wrappers
	}
	return v.isRepo(p) || inlineStd[p]
}

func fnPkg(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	return ""
}

func (v *Verifier) distinctOpaque(a, b string) bool {
	known := map[string]bool{"crypto/rand.Reader": true}
	return known[a] != known[b] || known[a] && known[b] && a != b
}

// load type-checks the given lemma packages with everything they depend on and builds SSA
func load(dir, modfile string, overlay map[string][]byte, patterns ...string) (*Verifier, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        dir,
		BuildFlags: []string{"-modfile=" + modfile},
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod"),
		Overlay:    overlay,
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 12 {
			errs = errs[:12]
		}
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	v := &Verifier{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, maxUnroll: 400, maxSteps: 20000000,
		contracts: map[string]*Contract{}, loops: map[string]*LoopSpec{}, globals: map[string]func(e *Exec) Val{}}
	v.reset("")
	packages.Visit(ps, nil, func(p *packages.Package) {
		sp := prog.Package(p.Types)
		if sp == nil {
			return
		}
		v.pkgs[p.PkgPath] = sp
		if v.isRepo(p.PkgPath) {
			v.order = append(v.order, sp)
		}
	})
	for _, sp := range prog.AllPackages() {
		p := sp.Pkg.Path()
		if v.isRepo(p) || inlineStd[p] {
			sp.Build()
		}
	}
	if bp := prog.ImportedPackage("math/big"); bp != nil {
		v.bigT = bp.Type("Int").Type()
	}
	v.solver = NewSolver()
	initGlobals(v)
	return v, nil
}

func (v *Verifier) reset(unit string) {
	v.unit = unit
	v.obls = map[string]*Obl{}
	v.failures = nil
	v.failSeen = map[string]bool{}
	v.inlined = map[string]bool{}
	v.applied = map[string]bool{}
	v.modelled = map[string]bool{}
	v.havocked = map[string]bool{}
	v.paths = 0
	v.reached = map[string]int{}
	v.stopAll = false
	v.nfail = 0
	if v.solver != nil {
		v.solver.relax()
	}
}

func initGlobals(v *Verifier) {
	v.globals["crypto/rand.Reader"] = func(e *Exec) Val {
		return &IfaceV{typ: mkOpaque, v: &OpaqueV{nil, "crypto/rand.Reader"}}
	}
	v.globals["io.EOF"] = func(e *Exec) Val { return errEOF }
	v.globals["io.ErrUnexpectedEOF"] = func(e *Exec) Val { return errUEOF }
	for _, n := range []string{"bigEndian", "littleEndian"} {
		_ = n
	}
	str := func(pkg, name string) {}
	_ = str
	empty := func(e *Exec) Val { return &StructV{} }
	v.globals["encoding/binary.BigEndian"] = empty
	v.globals["encoding/binary.LittleEndian"] = empty
}

func (v *Verifier) newExec(dec, alt []int) *Exec {
	e := &Exec{v: v, pcSet: map[*Term]bool{}, dec: dec, alt: alt, nfresh: map[string]int{}, havoc: map[string]bool{}, glob: map[*ssa.Global]*Obj{},
		files: map[string]*Obj{}, inputs: map[string]*Term{}, notes: map[string]bool{}, ghost: map[string]interface{}{},
		rep: map[*PointV]Val{}, ropes: map[*Term][2]Rope{}, known0: map[*Term]int8{}, noContract: v.drop}
	main := &Co{ch: make(chan bool)}
	e.cos = []*Co{main}
	e.cur = main
	return e
}

// run explores every path of f
func (v *Verifier) run(unit string, f func(e *Exec)) {
	v.reset(unit)
	v.loops = map[string]*LoopSpec{}
	v.undecided, v.summands = false, nil
	deadline := v.deadline
	var dec, alt []int
	search := false // for invariants: what is found out on the way does not count
	again := func() bool {
		if !search {
			return false
		}
		search = false
		v.reset(unit)
		v.undecided, v.summands = false, nil
		if time.Now().Before(deadline) {
			v.deadline = deadline
		}
		dec, alt = nil, nil
		return true
	}
	for {
		e := v.newExec(dec, alt)
		v.again = false
		v.runPath(e, f)
		v.paths++
		if v.again {
			// the paths through the loop start again
			search = true
			v.summands = nil
			v.stopAll, v.nfail = false, 0
			if time.Now().Before(deadline) {
				v.deadline = deadline
			}
			dec, alt = append([]int{}, e.dec[:v.againAt]...), append([]int{}, e.alt[:v.againAt]...)
			continue
		}
		if v.stopAll {
			if again() {
				continue
			}
			return
		}
		dec, alt = e.dec, e.alt
		for len(dec) > 0 && dec[len(dec)-1]+1 >= alt[len(dec)-1] {
			dec, alt = dec[:len(dec)-1], alt[:len(alt)-1]
		}
		if len(dec) == 0 {
			if again() {
				continue
			}
			return
		}
		dec = append([]int{}, dec...)
		alt = append([]int{}, alt...)
		dec[len(dec)-1]++
	}
}

func (v *Verifier) runPath(e *Exec, f func(e *Exec)) {
	defer func() {
		r := recover()
		e.killAll()
		if r == nil {
			v.reached["end"]++
			return
		}
		switch x := r.(type) {
		case restart:
			v.again, v.againAt = true, e.entryPos[x.loop]
			return
		case pathEnd:
			if debug {
				fmt.Fprintf(os.Stderr, "path %v ends: %s\n", e.dec, x.why)
			}
			v.reached[x.why]++
			return
		}
		if debug {
			panic(r)
		}
		v.failed(&Failure{Obl: "supported: internal", Pos: v.fset.Position(e.where).String(), Desc: fmt.Sprint(r)})
	}()
	v.initPackages(e)
	e.dirty = nil
	f(e)
	e.checkFrames()
}

// initPackages runs the package initialisers of the repository and of the lemmas, then freezes the numbers they hold
func (v *Verifier) initPackages(e *Exec) {
	for _, p := range v.order {
		if f := p.Func("init"); f != nil && len(f.Blocks) > 0 {
			e.quiet++
			e.body(f, nil, nil)
			e.quiet--
		}
	}
	for g, o := range e.glob {
		if g.Pkg != nil && v.isRepo(g.Pkg.Pkg.Path()) {
			e.freezeNumbers(o.val, "the package variable "+g.Name(), map[*Obj]bool{})
		}
	}
}

// freezeNumbers freezes the big.Ints reachable from a value
func (e *Exec) freezeNumbers(v Val, name string, seen map[*Obj]bool) {
	e.walk(v, func(o *Obj) {
		if _, ok := o.val.(*Term); ok && o.typ != nil && isBigInt(o.typ) {
			if !o.frozen {
				o.frozen = true
				o.name = name
			}
		}
	}, seen)
}

// walk visits every object reachable from a value
func (e *Exec) walk(v Val, f func(o *Obj), seen map[*Obj]bool) {
	obj := func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		f(o)
		e.walk(o.val, f, seen)
	}
	switch x := v.(type) {
	case *Ptr:
		obj(x.obj)
	case *SliceV:
		obj(x.obj)
	case *Obj:
		obj(x)
	case *IfaceV:
		e.walk(x.v, f, seen)
	case *StructV:
		for _, y := range x.f {
			e.walk(y, f, seen)
		}
	case *ArrV:
		for _, y := range x.e {
			e.walk(y, f, seen)
		}
	case TupleV:
		for _, y := range x {
			e.walk(y, f, seen)
		}
	case *MapV:
		for i := range x.keys {
			e.walk(x.keys[i], f, seen)
			e.walk(x.vals[i], f, seen)
		}
	case *BufV:
		obj(x.back)
	case *PointV:
		if s, ok := e.rep[x]; ok {
			e.walk(s, f, seen)
		}
	}
}

func (e *Exec) freeze(v Val, name string) {
	e.walk(v, func(o *Obj) {
		if !o.frozen {
			o.frozen = true
			if o.name == "" || !strings.HasPrefix(o.name, "the ") {
				o.name = name
			}
		}
	}, map[*Obj]bool{})
}

// ---- group elements

// expandPoint gives an abstract point its concrete representation
func (e *Exec) expandPoint(p *PointV, at types.Type) Val {
	if r, ok := e.rep[p]; ok {
		return r
	}
	t := at
	ptr := false
	if pt, ok := at.Underlying().(*types.Pointer); ok {
		t, ptr = pt.Elem(), true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var idx []int
	for i := 0; i < st.NumFields(); i++ {
		if q, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok && isBigInt(q.Elem()) {
			idx = append(idx, i)
		}
	}
	if len(idx) != 2 || st.NumFields() != 2 {
		return nil
	}
	s := &StructV{f: make([]Val, 2)}
	if e.branch(Eq(p.dl, zero)) {
		s.f[0], s.f[1] = nilPtr, nilPtr
	} else {
		for i, c := range []*Term{xOf(p.dl), yOf(p.dl)} {
			q := e.newBig(c)
			q.obj.frozen = true
			q.obj.name = "the point's coordinate " + st.Field(i).Name()
			s.f[i] = q
		}
	}
	var r Val = s
	if ptr {
		o := e.newObj(t, s, "the point")
		o.frozen = true
		r = &Ptr{obj: o}
	}
	e.rep[p] = r
	return r
}

// dlOf is the discrete logarithm of a value that represents a point
func (e *Exec) dlOf(v Val) (*Term, bool) {
	switch x := v.(type) {
	case *IfaceV:
		if x.typ == nil {
			return nil, false
		}
		return e.dlOf(x.v)
	case *PointV:
		return x.dl, true
	case *Ptr:
		if x.obj == nil {
			return nil, false
		}
		return e.dlOf(e.load(x))
	case *StructV:
		if len(x.f) != 2 {
			return nil, false
		}
		p, ok1 := x.f[0].(*Ptr)
		q, ok2 := x.f[1].(*Ptr)
		if !ok1 || !ok2 {
			return nil, false
		}
		if p.obj == nil && q.obj == nil {
			return zero, true
		}
		if p.obj == nil || q.obj == nil {
			return nil, false
		}
		a, ok1 := e.load(p).(*Term)
		b, ok2 := e.load(q).(*Term)
		if !ok1 || !ok2 {
			return nil, false
		}
		return e.coordDL(a, b)
	}
	return nil, false
}

func (e *Exec) newPoint(d *Term) *IfaceV { return &IfaceV{typ: mkPoint, v: &PointV{dl: d}} }

// encTerm is the encoding of the group element with logarithm d
func encSeg(d *Term) Seg {
	if d == zero {
		return cseg(make([]byte, 4))
	}
	t := App("enc", SBytes, nil, nil, d)
	return Seg{k: SSpec, src: t, n: App("enclen", SInt, bigI(4), bigI(72), d)}
}

func init() {
	injective["enc"] = true
	unfoldSpec["enc"] = func(e *Exec, s Seg) (Rope, bool) {
		d := s.src.args[0]
		if e.branch(Eq(d, zero)) {
			e.assume(Eq(s.n, I64(4)))
			return Rope{cseg(make([]byte, 4))}, true
		}
		x, y := xOf(d), yOf(d)
		r := Rope{seg(SBE, 4, BL(x)), seg(SBE, 4, BL(y)), seg(SBig, 0, x), seg(SBig, 0, y)}
		e.assume(Eq(s.n, r.Len()))
		return r, true
	}
}

// ---- report

func (v *Verifier) oblNames() []string {
	var ns []string
	for n := range v.obls {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}
