package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pathEnd ends the current path: infeasible, violated in a way that makes going on pointless, or cut off.
type pathEnd struct{ why string }

type killed struct{}

type Failure struct {
	Obl   string // name of the obligation
	Pos   string
	Desc  string
	Path  string
	Model map[string]string
}

type Co struct {
	ch        chan bool // true: run, false: end
	cond      func() bool
	done      bool
	id        int
	catch     int // deferred calls that may recover
	panicking *goPanic
	idle      *bool // waiting for a timer: set when nothing else can go on
}

// Exec runs a function symbolically, one path at a time.
type Exec struct {
	callees      map[types.Object]*FuncV // functions of the repository for which the lemma gives a contract
	v            *Verifier
	pc           []*Term
	pcSet        map[*Term]bool
	dec          []int // decisions of this path
	alt          []int // number of alternatives at each decision
	pos          int
	nobj         int
	nfresh       map[string]int
	havoc        map[string]bool
	steady       bool
	littleEndian bool
	glob         map[*ssa.Global]*Obj
	depth        int
	steps        int
	cos          []*Co
	cur          *Co
	abort        interface{}
	curFn        []*ssa.Function
	// ghost state
	draws  []*Draw
	files  map[string]*Obj
	inputs map[string]*Term
	notes  map[string]bool
	where  token.Pos
	ghost  map[string]interface{}
	// repeated objects
	rep        map[*PointV]Val
	unwind     map[*ssa.BasicBlock]int
	concl      int // obligations reached on this path
	quiet      int
	target     string
	entered    bool
	noContract map[string]bool
	known0     map[*Term]int8
	lemma      string
	dirty      []dirty
	ropes      map[*Term][2]Rope // equations between byte strings
	parses     []parse
	// loops over slices of unknown length
	elemDepth int
	nsums     int
	objs      map[objKey]*Obj
	objCount  map[objKey]int
	made      []*Obj
	dummies   map[*Term]bool // indices of summands
	iter      []*iteration   // iterations being looked into
	unbounded bool
	inLoop    *ssa.BasicBlock
	entries   map[*ssa.BasicBlock]int
	entryPos  map[string]int
	watches   []*watch
	heap      []*Obj
	stored    map[*Obj]bool
	folds     []*fold
	foldFacts map[string]func(j *Term) *Term
	loopStart map[*ssa.Phi]Val
}

type Draw struct {
	t      *Term
	max    *Term
	reader string
	seq    int
}

func (e *Exec) fail(name, desc string, goal *Term) {
	f := &Failure{Obl: name, Pos: e.v.fset.Position(e.where).String(), Desc: desc}
	var sb strings.Builder
	fmt.Fprintf(&sb, "goal: %v\n", goal)
	for _, p := range e.pc {
		fmt.Fprintf(&sb, "  %v\n", p)
	}
	f.Path = sb.String()
	if goal != nil {
		var want []*Term
		for _, t := range e.inputs {
			want = append(want, t)
		}
		sort.Slice(want, func(i, j int) bool { return want[i].id < want[j].id })
		m := e.v.solver.model(append(append([]*Term{}, e.pc...), Not(goal)), want)
		f.Model = map[string]string{}
		for n, t := range e.inputs {
			if x, ok := m[t]; ok {
				f.Model[n] = x.String()
			}
		}
	}
	e.v.failed(f)
}

// prove discharges an obligation, or records its failure; either way it may be assumed afterwards
func (e *Exec) prove(kind, name string, goal *Term) bool {
	full := kind + ": " + name
	e.concl++
	ok := goal.kind == KTrue
	if ok {
		e.v.discharged(full, "normaliser")
		return true
	}
	if e.pcSet[goal] {
		e.v.discharged(full, "path condition")
		return true
	}
	e.v.tick()
	r := e.v.solver.check(append(sliceFor(goal, e.pc), Not(goal)), 1)
	if r != Unsat {
		// the whole path condition, with equalities used as rewriting
		r = e.v.solver.check(append(append([]*Term{}, e.pc...), Not(goal)), 1)
	}
	if r != Unsat {
		if e.proveByRewriting(goal) {
			r = Unsat
			e.v.solver.last += ", solved equalities substituted"
		}
	}
	if r == Unsat {
		e.v.discharged(full, e.v.solver.last)
		e.assume(goal)
		return true
	}
	what := "not provable"
	if r == Unknown {
		what = "solver gave up"
	}
	e.fail(full, what, goal)
	if goal.kind == KFalse {
		panic(pathEnd{"obligation failed"})
	}
	e.assume(goal)
	return false
}

// proveByRewriting substitutes solved equalities of the path condition into the goal
func (e *Exec) proveByRewriting(goal *Term) bool {
	sub := map[*Term]*Term{}
	for _, p := range e.pc {
		if p.kind == KEq0 && (p.args[0].kind == KPoly || p.args[0].kind == KVar || p.args[0].kind == KApp) {
			t := p.args[0]
			inner := t
			m := (*Term)(nil)
			if t.kind == KApp && t.name == "mod" {
				inner, m = t.args[0], t.args[1]
			}
			// choose an atom that appears linearly with coefficient 1 or -1, alone
			ms := inner.monomials()
			for i := len(ms) - 1; i >= 0; i-- {
				x := ms[i]
				if len(x.atoms) == 1 && x.c.CmpAbs(big1) == 0 {
					a := x.atoms[0]
					n := 0
					for _, y := range ms {
						for _, b := range y.atoms {
							if b == a {
								n++
							}
						}
					}
					if n != 1 || sub[a] != nil {
						continue
					}
					rest := Sub(inner, Scale(x.c, a))
					val := Scale(new(big.Int).Neg(x.c), rest)
					if m != nil {
						if !inRange(a, big0, m.val) {
							continue
						}
						val = Mod(val, m)
					}
					sub[a] = val
					break
				}
			}
		}
	}
	if len(sub) == 0 {
		return false
	}
	g := goal
	for i := 0; i < 6; i++ {
		n := substAll(g, sub, map[*Term]*Term{})
		if n == g {
			break
		}
		g = n
	}
	if g.kind == KTrue {
		e.v.solver.last = "normaliser"
		return true
	}
	pc := []*Term{}
	for _, p := range e.pc {
		q := p
		pc = append(pc, q)
	}
	return g != goal && e.v.solver.check(append(pc, Not(g)), 1) == Unsat
}

func (e *Exec) assume(c *Term) {
	if c.kind == KTrue || e.pcSet[c] {
		return
	}
	if c.kind == KFalse {
		panic(pathEnd{"infeasible"})
	}
	if c.kind == KAnd {
		for _, a := range c.args {
			e.assume(a)
		}
		return
	}
	e.pc = append(e.pc, c)
	e.pcSet[c] = true
	e.sameBytes(c)
}

// parse is an element decoded from bytes that are not known to be an encoding
type parse struct {
	in Rope
	d  *Term // nil: rejected
}

// sameBytes draws the consequences of an equation between byte strings: equal lengths, and equal decoded elements
func (e *Exec) sameBytes(c *Term) {
	q, ok := e.ropes[c]
	if !ok {
		return
	}
	e.assume(Eq(q[0].Len(), q[1].Len()))
	for k := range q {
		x, y := norm(q[k]), norm(q[1-k])
		if len(y) == 0 || y[0].k != SSpec || y[0].src.name != "enc" {
			continue
		}
		t := x.term()
		for _, p := range e.parses {
			if p.in.term() != t {
				continue
			}
			if p.d == nil {
				panic(pathEnd{"infeasible"})
			}
			e.assume(Eq(p.d, y[0].src.args[0]))
		}
	}
}

func (e *Exec) feasible(c *Term) bool {
	if c.kind == KFalse {
		return false
	}
	if c.kind == KTrue || e.pcSet[c] {
		return true
	}
	if e.pcSet[Not(c)] {
		return false
	}
	return e.v.solver.check(append(sliceFor(c, e.pc), c), 0) != Unsat
}

// known tells whether a condition is decided by the path condition
func (e *Exec) known(c *Term) (bool, bool) {
	switch c.kind {
	case KTrue:
		return true, true
	case KFalse:
		return false, true
	}
	if !e.feasible(Not(c)) {
		return true, true
	}
	if !e.feasible(c) {
		return false, true
	}
	return false, false
}

var branchProf map[string]int

func (e *Exec) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if e.pos < len(e.dec) {
		d := e.dec[e.pos]
		e.pos++
		return d
	}
	if branchProf != nil {
		branchProf[e.v.fset.Position(e.where).String()+" in "+e.fnName()]++
	}
	e.dec = append(e.dec, 0)
	e.alt = append(e.alt, n)
	e.pos++
	return 0
}

func (e *Exec) branch(c *Term) bool {
	e.v.tick()
	if b, ok := e.known(c); ok {
		return b
	}
	if e.choose(2) == 0 {
		e.assume(c)
		return true
	}
	e.assume(Not(c))
	return false
}

func (e *Exec) fresh(name string, s Sort, lo, hi *big.Int) *Term {
	if len(e.iter) > 0 {
		// a value chosen in an iteration is a function of its number
		it := e.iter[len(e.iter)-1]
		it.n[name]++
		return App(fmt.Sprintf("%s'%d@%s[%v,%v]", name, it.n[name], it.id, lo, hi), s, lo, hi, it.j)
	}
	e.nfresh[name]++
	return Var(fmt.Sprintf("%s'%d", name, e.nfresh[name]), s, lo, hi)
}

func (e *Exec) unsupported(what string) {
	e.fail("supported: "+what, "the verifier has no rule for this", nil)
	panic(pathEnd{"unsupported " + what})
}

func (e *Exec) safety(what string, goal *Term) {
	e.prove("safety", what+" in "+e.fnName(), goal)
}

func (e *Exec) fnName() string {
	if len(e.curFn) == 0 {
		return "?"
	}
	f := e.curFn[len(e.curFn)-1]
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.RelString(nil)
}

// ---- coroutines

func (e *Exec) spawn(f func()) *Co {
	co := &Co{ch: make(chan bool), id: len(e.cos)}
	e.cos = append(e.cos, co)
	fnStack := append([]*ssa.Function{}, e.curFn...)
	go func() {
		if !<-co.ch {
			co.done = true
			co.ch <- true
			return
		}
		defer func() {
			r := recover()
			co.done = true
			if _, k := r.(killed); k {
				co.ch <- true // acknowledge
				return
			}
			if r != nil {
				e.abort = r
				e.cur = e.cos[0]
				e.cos[0].ch <- true
				return
			}
			// hand over
			n := e.pick(co)
			if n == nil {
				n = e.timeout()
			}
			if n != nil {
				e.cur = n
				n.ch <- true
			} else {
				e.abort = pathEnd{"deadlock"}
				e.cur = e.cos[0]
				e.cos[0].ch <- true
			}
		}()
		save := e.curFn
		e.curFn = fnStack
		f()
		e.curFn = save
	}()
	return co
}

func (e *Exec) pick(not *Co) *Co {
	n := len(e.cos)
	st := 0
	if not != nil {
		st = not.id
	}
	for i := 1; i <= n; i++ {
		c := e.cos[(st+i)%n]
		if c == not || c.done {
			continue
		}
		if c.cond == nil || c.cond() {
			return c
		}
	}
	return nil
}

// block waits until cond holds, running others meanwhile
func (e *Exec) block(what string, cond func() bool) {
	me := e.cur
	for !cond() {
		me.cond = cond
		n := e.pick(me)
		if n == nil {
			n = e.timeout()
		}
		if n == nil {
			e.fail("progress: no deadlock ("+what+")", "every goroutine is blocked", nil)
			panic(pathEnd{"deadlock"})
		}
		e.switchTo(n)
	}
	me.cond = nil
}

// timeout lets a timer fire when nothing else can go on
func (e *Exec) timeout() *Co {
	for _, c := range e.cos {
		if !c.done && c.idle != nil {
			*c.idle = true
			return c
		}
	}
	return nil
}

func (e *Exec) switchTo(n *Co) {
	me := e.cur
	save := e.curFn
	depth := e.depth
	e.cur = n
	n.ch <- true
	ok := <-me.ch
	e.curFn = save
	e.depth = depth
	if !ok {
		panic(killed{})
	}
	if me == e.cos[0] && e.abort != nil {
		panic(e.abort)
	}
}

// drain lets all other goroutines run until they end or block
func (e *Exec) drain() {
	me := e.cur
	for {
		me.cond = func() bool { return true }
		n := e.pick(me)
		if n == nil {
			break
		}
		e.switchTo(n)
	}
	me.cond = nil
}

func (e *Exec) killAll() {
	for _, c := range e.cos[1:] {
		if !c.done {
			c.ch <- false
			<-c.ch
			c.done = true
		}
	}
}

// ---- memory

func (e *Exec) getPath(v Val, path []sel) Val {
	for _, s := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[s.i]
		case *ArrV:
			if s.t != nil {
				e.unsupported("symbolic index")
			}
			v = x.e[s.i]
		case Rope:
			return e.byteAt(x, s.t)
		case *SymArr:
			v = x.get(e, s.t)
		default:
			e.unsupported(fmt.Sprintf("access into %T", v))
		}
	}
	return v
}

func (e *Exec) byteAt(r Rope, i *Term) *Term {
	p := e.ropeSub(r, i, one)
	if len(p) == 1 {
		if v := segVal(p[0]); v != nil {
			return v
		}
	}
	return App("byteof", SInt, big0, big.NewInt(255), p.term())
}

func (e *Exec) setPath(v Val, path []sel, x Val) Val {
	if len(path) == 0 {
		return x
	}
	s := path[0]
	switch c := v.(type) {
	case *StructV:
		n := &StructV{f: append([]Val{}, c.f...)}
		n.f[s.i] = e.setPath(c.f[s.i], path[1:], x)
		return n
	case *ArrV:
		if s.t != nil {
			e.unsupported("symbolic index")
		}
		n := &ArrV{e: append([]Val{}, c.e...)}
		n.e[s.i] = e.setPath(c.e[s.i], path[1:], x)
		return n
	case Rope:
		t := x.(*Term)
		return e.splice(c, s.t, Rope{seg(SBE, 1, t)})
	case *SymArr:
		if len(path) > 1 {
			return c.set(s.t, e.setPath(c.get(e, s.t), path[1:], x))
		}
		return c.set(s.t, x)
	}
	e.unsupported(fmt.Sprintf("store into %T", v))
	return nil
}

func (e *Exec) load(p *Ptr) Val {
	if p.obj == nil {
		e.safety("nil dereference", tFalse)
	}
	return e.getPath(p.obj.val, p.path)
}

func (e *Exec) store(p *Ptr, v Val) {
	if p.obj == nil {
		e.safety("nil dereference", tFalse)
	}
	e.touch(p.obj)
	p.obj.val = e.setPath(p.obj.val, p.path, v)
}

// touch is called before every write. A write to a frozen object must be undone by the end
func (e *Exec) touch(o *Obj) {
	for _, w := range e.watches {
		if o.elem && o.id > w.mark {
			// later iterations would not see it
			e.v.undecided = true
			e.unsupported("a loop that changes an element of " + o.name)
		}
		if _, ok := w.old[o]; !ok {
			w.old[o] = o.val
		}
	}
	if o.stale {
		e.unsupported("write to the former array of a buffer")
	}
	if o.frozen {
		o.frozen = false
		e.dirty = append(e.dirty, dirty{o, o.val, e.fnName(), e.where})
	} else if e.quiet == 0 && len(e.curFn) > 0 && e.v.isRepo(fnPkg(e.curFn[len(e.curFn)-1])) {
		e.v.discharged("frame: what "+e.fnName()+" writes to is no operand", "the object is not reachable from an operand")
	}
}

type dirty struct {
	o   *Obj
	old Val
	fn  string
	pos token.Pos
}

// checkFrames proves that frozen objects that were written to hold what they held before
func (e *Exec) checkFrames() {
	for _, d := range e.dirty {
		e.where = d.pos
		e.prove("frame", d.o.name+" is not modified, in "+d.fn, e.sameVal(d.old, d.o.val, 0))
	}
	e.dirty = nil
}

func (e *Exec) sameVal(a, b Val, depth int) *Term {
	if depth > 8 {
		return tFalse
	}
	switch x := a.(type) {
	case nil:
		return Bool(b == nil)
	case *Term:
		if y, ok := b.(*Term); ok && x.sort == y.sort {
			return Eq(x, y)
		}
	case Rope:
		if y, ok := b.(Rope); ok {
			return e.ropeEq(x, y)
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			return e.ropeEq(x.r, y.r)
		}
	case *Ptr:
		if y, ok := b.(*Ptr); ok && x.obj == y.obj && len(x.path) == len(y.path) {
			r := tTrue
			for i := range x.path {
				if x.path[i] != y.path[i] {
					r = tFalse
				}
			}
			return r
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok && (x.typ == nil) == (y.typ == nil) {
			if x.typ == nil {
				return tTrue
			}
			if p, ok := e.dlOf(x); ok {
				if q, ok := e.dlOf(y); ok {
					return Eq(p, q)
				}
				return tFalse
			}
			return e.sameVal(x.v, y.v, depth+1)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			r := tTrue
			for i := range x.f {
				r = And(r, e.sameVal(x.f[i], y.f[i], depth+1))
			}
			return r
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok && len(x.e) == len(y.e) {
			r := tTrue
			for i := range x.e {
				r = And(r, e.sameVal(x.e[i], y.e[i], depth+1))
			}
			return r
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok && x.obj == y.obj {
			return And(Eq(x.off, y.off), Eq(x.len, y.len))
		}
	}
	return Bool(a == b)
}

func (e *Exec) ptr(v Val) *Ptr {
	p, ok := v.(*Ptr)
	if !ok {
		e.unsupported(fmt.Sprintf("pointer %T", v))
	}
	return p
}

func sub(p *Ptr, s sel) *Ptr {
	return &Ptr{obj: p.obj, path: append(append([]sel{}, p.path...), s)}
}

// bytesOf reads the content of a byte slice
func (e *Exec) bytesOf(s *SliceV) Rope {
	if s.obj == nil {
		return nil
	}
	r, ok := e.getPath(s.obj.val, s.path).(Rope)
	if !ok {
		e.unsupported("byte slice content")
	}
	return e.ropeSub(r, s.off, s.len)
}

func (e *Exec) newBytes(r Rope, name string) *SliceV {
	r = norm(r)
	n := r.Len()
	return &SliceV{obj: e.newObj(types.Typ[types.Byte], r, name), off: zero, len: n, cap: n}
}

// writeBytes overwrites part of a byte slice
func (e *Exec) writeBytes(s *SliceV, off *Term, x Rope) {
	x = norm(x)
	if len(x) == 0 {
		return
	}
	e.touch(s.obj)
	r := e.getPath(s.obj.val, s.path).(Rope)
	s.obj.val = e.setPath(s.obj.val, s.path, e.splice(r, Add(s.off, off), x))
}

// ---- integers

func (e *Exec) wrap(t *Term, typ types.Type) *Term {
	bits, signed, ok := intRange(typ)
	if !ok {
		return t
	}
	m := new(big.Int).Lsh(big1, uint(bits))
	if !signed {
		if inRange(t, big0, m) {
			return t
		}
		if t.isConst() {
			return Mod(t, IConst(m))
		}
		if b, ok := e.known(And(Le(zero, t), Lt(t, IConst(m)))); ok && b {
			return t
		}
		return Mod(t, IConst(m))
	}
	h := new(big.Int).Lsh(big1, uint(bits-1))
	nh := new(big.Int).Neg(h)
	if inRange(t, nh, h) {
		return t
	}
	if !t.isConst() {
		if b, ok := e.known(And(Le(IConst(nh), t), Lt(t, IConst(h)))); ok && b {
			return t
		}
	}
	return Sub(Mod(Add(t, IConst(h)), IConst(m)), IConst(h))
}

func (e *Exec) term(v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		if o, isO := v.(*OpaqueV); isO {
			if o.typ != nil {
				if b, ok := o.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
					return e.fresh("opaque", SBool, nil, nil)
				}
			}
			return e.fresh("opaque", SInt, nil, nil)
		}
		e.unsupported(fmt.Sprintf("number %T", v))
	}
	return t
}

func (e *Exec) concrete(v Val) (int, bool) {
	t, ok := v.(*Term)
	if !ok || !t.isConst() || !t.val.IsInt64() {
		return 0, false
	}
	return int(t.val.Int64()), true
}

// ---- functions

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []func()
	catch  int      // deferred functions that call recover
	up     *goPanic // what a deferred function may recover
}

// goPanic is an explicit panic below a function that may recover
type goPanic struct {
	val  Val
	done bool
}

func mayRecover(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (e *Exec) callFn(fv *FuncV, args []Val) Val {
	if fv.nat != nil {
		return fv.nat(e, args)
	}
	if fv.fn == nil {
		e.safety("call of a nil function", tFalse)
	}
	return e.call(fv.fn, args, fv.bind)
}

func (e *Exec) call(fn *ssa.Function, args, bind []Val) Val {
	if fn.Synthetic == "package initializer" && !e.v.isRepo(fnPkg(fn)) {
		return nil
	}
	if len(e.havoc) > 0 && e.havoc[fn.RelString(nil)] {
		return e.havocCall(fn, args)
	}
	if len(e.callees) > 0 && fn.Synthetic == "" && fn.Object() != nil {
		if f := e.callees[fn.Object()]; f != nil {
			e.v.modelled[fn.RelString(nil)+" (by the contract that the lemma gives)"] = true
			return e.callFn(f, args)
		}
	}
	if m := e.v.model(fn); m != nil {
		if e.quiet == 0 {
			e.v.modelled[fn.RelString(nil)] = true
		}
		return m(e, fn, args)
	}
	if c := e.v.contractAt(e, fn, args); c != nil {
		return e.applyContract(c, fn, args)
	}
	if len(fn.Blocks) == 0 {
		e.unsupported("call of " + fn.String())
	}
	if !e.v.inlinable(fn) {
		e.unsupported("call of " + fn.String())
	}
	return e.body(fn, args, bind)
}

func (e *Exec) body(fn *ssa.Function, args, bind []Val) Val {
	if e.depth > 2000 {
		e.unsupported("recursion depth in " + fn.String())
	}
	e.v.inlined[fn.RelString(nil)] = true
	e.depth++
	e.curFn = append(e.curFn, fn)
	defer func() { e.depth--; e.curFn = e.curFn[:len(e.curFn)-1] }()
	f := &frame{fn: fn, env: make(map[ssa.Value]Val)}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		f.env[v] = bind[i]
	}
	for _, l := range fn.Locals {
		f.env[l] = &Ptr{obj: e.newObj(l.Type().Underlying().(*types.Pointer).Elem(), nil, l.Comment)}
	}
	if fn.Recover == nil {
		return e.blocks(f, fn.Blocks[0], nil, nil)
	}
	return e.catching(f)
}

// catching runs a function that defers calls; one of them may recover from a panic
func (e *Exec) catching(f *frame) (res Val) {
	depth, fns := e.depth, e.curFn
	run := func(g func()) (p *goPanic) {
		defer func() {
			if r := recover(); r != nil {
				if p, _ = r.(*goPanic); p == nil {
					panic(r)
				}
				e.depth, e.curFn = depth, fns
			}
		}()
		g()
		return nil
	}
	p := run(func() { res = e.blocks(f, f.fn.Blocks[0], nil, nil) })
	e.cur.catch -= f.catch
	f.catch = 0
	if p == nil {
		return res
	}
	for len(f.defers) > 0 {
		save := e.cur.panicking
		e.cur.panicking = p
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		q := run(d)
		e.cur.panicking = save
		if q != nil {
			p = q
		}
	}
	if !p.done {
		if e.cur.catch == 0 {
			e.safety("explicit panic", tFalse)
		}
		panic(p)
	}
	return e.blocks(f, f.fn.Recover, nil, nil)
}

// blocks runs from block b (entered from prev) to a return. With stop set, it returns stop's result before entering a
// block for which stop answers true.
func (e *Exec) blocks(f *frame, b, prev *ssa.BasicBlock, stop func(b, prev *ssa.BasicBlock) bool) Val {
	count := map[*ssa.BasicBlock]int{}
	type entry struct{ count, pos int }
	entries := map[*ssa.BasicBlock]*entry{} // since the loop with this header was entered
	for {
		if stop != nil && stop(b, prev) {
			return nil
		}
		if lc := e.v.loopContract(e, f, b, prev); lc != nil {
			nb, np := e.runLoop(f, lc, b, prev)
			b, prev = nb, np
			continue
		}
		count[b]++
		x := entries[b]
		if x == nil || prev == nil || !e.loopBlocks(b)[prev] {
			x = &entry{pos: e.pos}
			entries[b] = x
		}
		if x.count++; x.count > 4 && e.unbounded {
			e.tooLong(b, x.pos)
		}
		if x.count > e.v.maxUnroll || count[b] > 1000*e.v.maxUnroll {
			e.unsupported("unbounded loop in " + f.fn.String())
		}
		// phis at once
		var phis []*ssa.Phi
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				phis = append(phis, p)
			} else {
				break
			}
		}
		if len(phis) > 0 && prev != nil {
			k := 0
			for i, p := range b.Preds {
				if p == prev {
					k = i
				}
			}
			vs := make([]Val, len(phis))
			for i, p := range phis {
				vs[i] = e.get(f, p.Edges[k])
			}
			for i, p := range phis {
				f.env[p] = vs[i]
			}
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[len(phis):] {
			e.steps++
			if e.steps%512 == 0 {
				e.v.tick()
			}
			if e.steps > e.v.maxSteps {
				e.unsupported("too many steps")
			}
			if in.Pos().IsValid() {
				e.where = in.Pos()
			}
			switch i := in.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c := e.term(e.get(f, i.Cond))
				if e.branch(c) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Return:
				return e.result(f, i)
			case *ssa.Panic:
				if e.cur != nil && e.cur.catch > 0 {
					panic(&goPanic{val: e.get(f, i.X)})
				}
				e.safety("explicit panic", tFalse)
			case *ssa.RunDefers:
				e.runDefers(f)
			default:
				e.instr(f, in)
			}
		}
		prev, b = b, next
		if b == nil {
			e.unsupported("fell off block in " + f.fn.String())
		}
	}
}

func (e *Exec) runDefers(f *frame) {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		d()
	}
}

func (e *Exec) result(f *frame, r *ssa.Return) Val {
	switch len(r.Results) {
	case 0:
		return nil
	case 1:
		return e.get(f, r.Results[0])
	}
	t := make(TupleV, len(r.Results))
	for i, x := range r.Results {
		t[i] = e.get(f, x)
	}
	return t
}

func (e *Exec) get(f *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		return &Ptr{obj: e.global(x)}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{name: x.Name()}
	}
	r, ok := f.env[v]
	if !ok {
		e.unsupported("value " + v.Name() + " in " + f.fn.String())
	}
	return r
}

func (e *Exec) global(g *ssa.Global) *Obj {
	if o, ok := e.glob[g]; ok {
		return o
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	var v Val
	full := g.String()
	if m, ok := e.v.globals[full]; ok {
		v = m(e)
	} else if g.Pkg != nil && e.v.isRepo(g.Pkg.Pkg.Path()) {
		v = e.zeroVal(t)
	} else {
		v = e.opaque(t, full)
	}
	o := e.newObj(t, v, full)
	o.global = true
	e.glob[g] = o
	return o
}

func (e *Exec) opaque(t types.Type, name string) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return &IfaceV{typ: mkOpaque, v: &OpaqueV{t, name}}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return StrV{e.rawRope(name, "")}
	}
	if bits, signed, ok := intRange(t); ok {
		return e.intVar(name, bits, signed)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return e.fresh(name, SBool, nil, nil)
	}
	return &OpaqueV{t, name}
}

func (e *Exec) intVar(name string, bits int, signed bool) *Term {
	if signed {
		h := new(big.Int).Lsh(big1, uint(bits-1))
		return e.fresh(name, SInt, new(big.Int).Neg(h), new(big.Int).Sub(h, big1))
	}
	return e.fresh(name, SInt, big0, new(big.Int).Sub(new(big.Int).Lsh(big1, uint(bits)), big1))
}

func (e *Exec) rawRope(name, excl string) Rope {
	src := e.fresh(name, SBytes, nil, nil)
	l := App("blen", SInt, big0, big.NewInt(1<<40), src)
	s := rseg(src, zero, l)
	s.excl = excl
	return Rope{s}
}

func (e *Exec) constant(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return StrV{norm(Rope{cseg([]byte(constant.StringVal(c.Value)))})}
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return &OpaqueV{t, "float"}
		}
		v, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return IConst(v)
	}
	return &OpaqueV{t, "const"}
}

func (e *Exec) instr(f *frame, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		if i.Heap {
			f.env[i] = &Ptr{obj: e.newObj(t, e.zeroVal(t), i.Comment)}
		} else {
			p := f.env[i].(*Ptr)
			p.obj.val = e.zeroVal(t)
		}
	case *ssa.Store:
		e.store(e.ptr(e.get(f, i.Addr)), e.get(f, i.Val))
	case *ssa.UnOp:
		f.env[i] = e.unop(f, i)
	case *ssa.BinOp:
		f.env[i] = e.binop(i.Op, e.get(f, i.X), e.get(f, i.Y), i.X.Type(), i.Type())
	case *ssa.FieldAddr:
		p := e.ptr(e.get(f, i.X))
		if p.obj == nil {
			e.safety("nil dereference", tFalse)
		}
		f.env[i] = sub(p, sel{i: i.Field})
	case *ssa.Field:
		s, ok := e.get(f, i.X).(*StructV)
		if !ok {
			e.unsupported(fmt.Sprintf("field of %T", e.get(f, i.X)))
		}
		f.env[i] = s.f[i.Field]
	case *ssa.IndexAddr:
		f.env[i] = e.indexAddr(e.get(f, i.X), e.term(e.get(f, i.Index)))
	case *ssa.Index:
		x := e.get(f, i.X)
		idx := e.term(e.get(f, i.Index))
		switch a := x.(type) {
		case StrV:
			e.safety("index in range", And(Le(zero, idx), Lt(idx, a.r.Len())))
			f.env[i] = e.byteAt(a.r, idx)
		case Rope:
			e.safety("index in range", And(Le(zero, idx), Lt(idx, a.Len())))
			f.env[i] = e.byteAt(a, idx)
		case *ArrV:
			k := e.pickIndex(idx, len(a.e))
			f.env[i] = a.e[k]
		default:
			e.unsupported(fmt.Sprintf("index of %T", x))
		}
	case *ssa.Slice:
		f.env[i] = e.slice(f, i)
	case *ssa.MakeSlice:
		f.env[i] = e.makeSlice(i.Type().Underlying().(*types.Slice).Elem(), e.term(e.get(f, i.Len)), e.term(e.get(f, i.Cap)))
	case *ssa.MakeInterface:
		f.env[i] = &IfaceV{typ: i.X.Type(), v: e.get(f, i.X)}
	case *ssa.ChangeInterface:
		f.env[i] = e.get(f, i.X)
	case *ssa.ChangeType:
		f.env[i] = e.get(f, i.X)
	case *ssa.Convert:
		f.env[i] = e.convert(e.get(f, i.X), i.X.Type(), i.Type())
	case *ssa.MakeClosure:
		fv := &FuncV{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			fv.bind = append(fv.bind, e.get(f, b))
		}
		f.env[i] = fv
	case *ssa.Extract:
		t, ok := e.get(f, i.Tuple).(TupleV)
		if !ok {
			e.unsupported(fmt.Sprintf("extract from %T", e.get(f, i.Tuple)))
		}
		f.env[i] = t[i.Index]
	case *ssa.TypeAssert:
		f.env[i] = e.typeAssert(i, e.get(f, i.X))
	case *ssa.Call:
		f.env[i] = e.doCall(f, &i.Call)
	case *ssa.Defer:
		fn, args := e.resolve(f, &i.Call)
		if fv, ok := e.callee(f, &i.Call); ok && mayRecover(fv.fn) && f.fn.Recover != nil {
			f.catch++
			e.cur.catch++
		}
		f.defers = append(f.defers, func() { fn(args) })
	case *ssa.Go:
		fn, args := e.resolve(f, &i.Call)
		e.spawn(func() { fn(args) })
	case *ssa.MakeMap:
		f.env[i] = e.newObj(i.Type(), &MapV{}, "map")
	case *ssa.MapUpdate:
		e.mapUpdate(e.get(f, i.Map), e.get(f, i.Key), e.get(f, i.Value))
	case *ssa.Lookup:
		f.env[i] = e.lookup(f, i)
	case *ssa.MakeChan:
		n, ok := e.concrete(e.get(f, i.Size))
		if !ok {
			n = 1 << 30
		}
		f.env[i] = e.newObj(i.Type(), &ChanV{cap: n}, "chan")
	case *ssa.Send:
		o := e.get(f, i.Chan).(*Obj)
		c := o.val.(*ChanV)
		x := e.get(f, i.X)
		if c.closed {
			e.safety("send on closed channel", tFalse)
		}
		unbuf := c.cap == 0
		e.block("send", func() bool { return c.closed || len(c.buf) < c.cap || unbuf && len(c.buf) < 1 })
		if c.closed {
			e.safety("send on closed channel", tFalse)
		}
		c.buf = append(c.buf, x)
		if unbuf {
			n := c.taken
			e.block("send", func() bool { return c.taken > n })
		}
	case *ssa.Range:
		f.env[i] = e.rangeIter(e.get(f, i.X))
	case *ssa.Next:
		it := e.get(f, i.Iter).(*iter)
		f.env[i] = it.next(e, i)
	case *ssa.Select:
		f.env[i] = e.selectStmt(f, i)
	case *ssa.SliceToArrayPointer:
		s := e.get(f, i.X).(*SliceV)
		n := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		e.safety("slice long enough for array", Le(I64(n), s.len))
		e.unsupported("slice to array pointer")
	default:
		e.unsupported(fmt.Sprintf("instruction %T", in))
	}
}

// pickIndex turns an index into a concrete one, after the bounds check
func (e *Exec) pickIndex(idx *Term, n int) int {
	e.safety("index in range", And(Le(zero, idx), Lt(idx, I64(int64(n)))))
	if k, ok := e.concrete(idx); ok {
		return k
	}
	for k := 0; k < n-1; k++ {
		if e.branch(Eq(idx, I64(int64(k)))) {
			return k
		}
	}
	if n == 0 {
		panic(pathEnd{"no index"})
	}
	e.assume(Eq(idx, I64(int64(n-1))))
	return n - 1
}

func (e *Exec) indexAddr(x Val, idx *Term) Val {
	switch a := x.(type) {
	case *SliceV:
		e.safety("index in range", And(Le(zero, idx), Lt(idx, a.len)))
		if a.obj == nil {
			panic(pathEnd{"index of nil slice"})
		}
		return e.elemPtr(&Ptr{obj: a.obj, path: a.path}, Add(a.off, idx))
	case *Ptr:
		if a.obj == nil {
			e.safety("nil dereference", tFalse)
		}
		switch c := e.getPath(a.obj.val, a.path).(type) {
		case *ArrV:
			k := e.pickIndex(idx, len(c.e))
			return sub(a, sel{i: k})
		case Rope:
			e.safety("index in range", And(Le(zero, idx), Lt(idx, c.Len())))
			return sub(a, sel{t: idx})
		}
	}
	e.unsupported(fmt.Sprintf("address of element of %T", x))
	return nil
}

func (e *Exec) elemPtr(p *Ptr, idx *Term) *Ptr {
	switch c := e.getPath(p.obj.val, p.path).(type) {
	case *ArrV:
		if k, ok := e.concrete(idx); ok {
			return sub(p, sel{i: k})
		}
		for k := 0; k < len(c.e); k++ {
			if e.branch(Eq(idx, I64(int64(k)))) {
				return sub(p, sel{i: k})
			}
		}
		panic(pathEnd{"index"})
	case Rope, *SymArr:
		return sub(p, sel{t: idx})
	}
	e.unsupported("element of array")
	return nil
}

func (e *Exec) makeSlice(elem types.Type, n, c *Term) Val {
	e.safety("make with valid size", And(Le(zero, n), Le(n, c), Le(c, IConst(new(big.Int).Lsh(big1, 47)))))
	if isByte(elem) {
		return &SliceV{obj: e.newObj(elem, norm(Rope{zseg(c)}), "make"), off: zero, len: n, cap: c}
	}
	k, ok := e.concrete(c)
	if !ok || k > 100000 {
		if ok {
			e.unsupported("huge slice")
		}
		z := e.zeroVal(elem)
		return &SliceV{obj: e.newObj(elem, &SymArr{base: func(e *Exec, i *Term) Val { return z }}, "make"), off: zero, len: n, cap: c}
	}
	a := &ArrV{e: make([]Val, k)}
	for i := range a.e {
		a.e[i] = e.zeroVal(elem)
	}
	return &SliceV{obj: e.newObj(elem, a, "make"), off: zero, len: n, cap: c}
}

func (e *Exec) slice(f *frame, i *ssa.Slice) Val {
	x := e.get(f, i.X)
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return e.term(e.get(f, v))
	}
	switch a := x.(type) {
	case StrV:
		n := a.r.Len()
		lo, hi := opt(i.Low, zero), opt(i.High, n)
		e.safety("slice bounds", And(Le(zero, lo), Le(lo, hi), Le(hi, n)))
		return StrV{e.ropeSub(a.r, lo, Sub(hi, lo))}
	case *SliceV:
		lo := opt(i.Low, zero)
		hi := opt(i.High, a.len)
		mx := opt(i.Max, a.cap)
		e.safety("slice bounds", And(Le(zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, a.cap)))
		if a.obj == nil {
			return a
		}
		return &SliceV{obj: a.obj, path: a.path, off: Add(a.off, lo), len: Sub(hi, lo), cap: Sub(mx, lo)}
	case *Ptr:
		if a.obj == nil {
			e.safety("nil dereference", tFalse)
		}
		var n *Term
		switch c := e.getPath(a.obj.val, a.path).(type) {
		case Rope:
			n = c.Len()
		case *ArrV:
			n = I64(int64(len(c.e)))
		default:
			e.unsupported("slice of array")
		}
		lo, hi := opt(i.Low, zero), opt(i.High, n)
		mx := opt(i.Max, n)
		e.safety("slice bounds", And(Le(zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		return &SliceV{obj: a.obj, path: a.path, off: lo, len: Sub(hi, lo), cap: Sub(mx, lo)}
	}
	e.unsupported(fmt.Sprintf("slice of %T", x))
	return nil
}

func (e *Exec) unop(f *frame, i *ssa.UnOp) Val {
	x := e.get(f, i.X)
	switch i.Op {
	case token.MUL:
		v := e.load(e.ptr(x))
		if v == nil {
			e.unsupported("load of uninitialised value")
		}
		return v
	case token.NOT:
		return Not(e.term(x))
	case token.SUB:
		return e.wrap(Neg(e.term(x)), i.Type())
	case token.XOR:
		t := e.term(x)
		_, signed, _ := intRange(i.Type())
		if signed {
			return e.wrap(Sub(Neg(t), one), i.Type())
		}
		bits, _, _ := intRange(i.Type())
		return Sub(IConst(new(big.Int).Sub(new(big.Int).Lsh(big1, uint(bits)), big1)), t)
	case token.ARROW:
		o, _ := x.(*Obj)
		if o == nil {
			e.unsupported("receive from nil or opaque channel")
		}
		c := o.val.(*ChanV)
		if c.timer {
			v := e.opaque(i.X.Type().Underlying().(*types.Chan).Elem(), "time")
			if i.CommaOk {
				return TupleV{v, tTrue}
			}
			return v
		}
		c.waiting++
		e.block("receive", func() bool { return len(c.buf) > 0 || c.closed })
		c.waiting--
		var v Val
		ok := tFalse
		if len(c.buf) > 0 {
			v = c.buf[0]
			c.buf = c.buf[1:]
			c.taken++
			ok = tTrue
		} else {
			et := i.X.Type().Underlying().(*types.Chan).Elem()
			v = e.zeroVal(et)
		}
		if i.CommaOk {
			return TupleV{v, ok}
		}
		return v
	}
	e.unsupported("operator " + i.Op.String())
	return nil
}

func (e *Exec) binop(op token.Token, x, y Val, xt, rt types.Type) Val {
	switch op {
	case token.EQL, token.NEQ:
		c := e.equal(x, y)
		if op == token.NEQ {
			c = Not(c)
		}
		return c
	}
	if s, ok := x.(StrV); ok {
		t := y.(StrV)
		switch op {
		case token.ADD:
			return StrV{cat(s.r, t.r)}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			a, ok1 := s.r.constant()
			b, ok2 := t.r.constant()
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return Bool(string(a) < string(b))
				case token.LEQ:
					return Bool(string(a) <= string(b))
				case token.GTR:
					return Bool(string(a) > string(b))
				default:
					return Bool(string(a) >= string(b))
				}
			}
			return e.fresh("strcmp", SBool, nil, nil)
		}
	}
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		if rb, ok := rt.Underlying().(*types.Basic); ok && rb.Info()&types.IsBoolean != 0 {
			return e.fresh("floatcmp", SBool, nil, nil)
		}
		return &OpaqueV{rt, "float"}
	}
	a, b := e.term(x), e.term(y)
	if a.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return And(a, b)
		case token.OR, token.LOR:
			return Or(a, b)
		}
	}
	switch op {
	case token.ADD:
		return e.wrap(recompose(Add(a, b)), rt)
	case token.SUB:
		return e.wrap(Sub(a, b), rt)
	case token.MUL:
		return e.wrap(Mul(a, b), rt)
	case token.QUO, token.REM:
		e.safety("division by zero", Not(Eq(b, zero)))
		_, signed, _ := intRange(xt)
		pos := !signed
		if signed {
			if k, ok := e.known(And(Le(zero, a), Lt(zero, b))); ok && k {
				pos = true
			} else if e.branch(And(Le(zero, a), Lt(zero, b))) {
				pos = true
			}
		}
		if pos {
			if op == token.QUO {
				return Div(a, b)
			}
			return Mod(a, b)
		}
		if a.isConst() && b.isConst() {
			q, r := new(big.Int).QuoRem(a.val, b.val, new(big.Int))
			if op == token.QUO {
				return e.wrap(IConst(q), rt)
			}
			return IConst(r)
		}
		return e.wrap(e.fresh("quo", SInt, nil, nil), rt)
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	case token.SHL:
		if b.isConst() && b.val.IsInt64() && b.val.Int64() < 4096 && b.val.Sign() >= 0 {
			return e.wrap(Scale(new(big.Int).Lsh(big1, uint(b.val.Int64())), a), rt)
		}
	case token.SHR:
		if b.isConst() && b.val.IsInt64() && b.val.Int64() < 4096 && b.val.Sign() >= 0 {
			return Div(a, IConst(new(big.Int).Lsh(big1, uint(b.val.Int64()))))
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if a.isConst() && b.isConst() {
			z := new(big.Int)
			switch op {
			case token.AND:
				z.And(a.val, b.val)
			case token.OR:
				z.Or(a.val, b.val)
			case token.XOR:
				z.Xor(a.val, b.val)
			default:
				z.AndNot(a.val, b.val)
			}
			return e.wrap(IConst(z), rt)
		}
		if op == token.AND {
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if p[1].isConst() && p[0].lo != nil && p[0].lo.Sign() >= 0 {
					m := new(big.Int).Add(p[1].val, big1)
					if m.Sign() > 0 && new(big.Int).And(m, p[1].val).Sign() == 0 {
						return Mod(p[0], IConst(m))
					}
				}
			}
		}
		if op == token.OR || op == token.XOR {
			// disjoint bits: addition
			if r := orDisjoint(a, b); r != nil {
				return e.wrap(recompose(r), rt)
			}
		}
	}
	bits, signed, ok := intRange(rt)
	if !ok {
		e.unsupported("operator " + op.String())
	}
	return e.intVar("bits", bits, signed)
}

// orDisjoint: a multiple of 2^k and a number below 2^k
func orDisjoint(a, b *Term) *Term {
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		hi, lo := p[0], p[1]
		if lo.lo == nil || lo.lo.Sign() < 0 || lo.hi == nil {
			continue
		}
		k := uint(lo.hi.BitLen())
		m := new(big.Int).Lsh(big1, k)
		all := true
		for _, x := range hi.monomials() {
			if new(big.Int).Mod(x.c, m).Sign() != 0 {
				all = false
			}
		}
		if all {
			return Add(a, b)
		}
	}
	return nil
}

func (e *Exec) equal(x, y Val) *Term {
	switch a := x.(type) {
	case *Term:
		return Eq(a, e.term(y))
	case StrV:
		if b, ok := y.(StrV); ok {
			return e.ropeEq(a.r, b.r)
		}
	case *Ptr:
		switch b := y.(type) {
		case *Ptr:
			if a.obj != b.obj || len(a.path) != len(b.path) {
				return tFalse
			}
			for i := range a.path {
				if a.path[i] != b.path[i] {
					return tFalse
				}
			}
			return tTrue
		}
	case *SliceV:
		if b, ok := y.(*SliceV); ok && (a.obj == nil || b.obj == nil) {
			return Bool(a.obj == nil && b.obj == nil)
		}
	case *FuncV:
		n1, _ := isNilVal(x)
		n2, _ := isNilVal(y)
		return Bool(n1 && n2)
	case *Obj:
		if b, ok := y.(*Obj); ok {
			return Bool(a == b)
		}
	case *IfaceV:
		b, ok := y.(*IfaceV)
		if !ok {
			b = &IfaceV{typ: mkOpaque, v: y}
		}
		if a.typ == nil || b.typ == nil {
			return Bool(a.typ == nil && b.typ == nil)
		}
		if ao, ok := a.v.(*ErrV); ok {
			if bo, ok := b.v.(*ErrV); ok {
				return Bool(ao == bo)
			}
			return tFalse
		}
		if a.typ == mkOpaque || b.typ == mkOpaque {
			if a == b {
				return tTrue
			}
			ao, ok1 := a.v.(*OpaqueV)
			bo, ok2 := b.v.(*OpaqueV)
			if ok1 && ok2 && ao.name == bo.name {
				return tTrue
			}
			if ok1 && ok2 && e.v.distinctOpaque(ao.name, bo.name) {
				return tFalse
			}
			return e.fresh("ifaceeq", SBool, nil, nil)
		}
		if _, mk := a.typ.(*marker); mk {
			if a.typ != b.typ {
				return tFalse
			}
			return e.equal(a.v, b.v)
		}
		if _, mk := b.typ.(*marker); mk {
			return tFalse
		}
		if types.Identical(a.typ, b.typ) {
			return e.equal(a.v, b.v)
		}
		return tFalse
	case *StructV:
		if b, ok := y.(*StructV); ok {
			c := tTrue
			for i := range a.f {
				c = And(c, e.equal(a.f[i], b.f[i]))
			}
			return c
		}
	case Rope:
		if b, ok := y.(Rope); ok {
			return e.ropeEq(a, b)
		}
	case *ArrV:
		if b, ok := y.(*ArrV); ok {
			c := tTrue
			for i := range a.e {
				c = And(c, e.equal(a.e[i], b.e[i]))
			}
			return c
		}
	case *PointV:
		if b, ok := y.(*PointV); ok && a == b {
			return tTrue
		}
	case *OpaqueV:
		if n, known := isNilVal(y); known && n {
			return tFalse
		}
		return e.fresh("opaqueeq", SBool, nil, nil)
	}
	if _, ok := y.(*OpaqueV); ok {
		return e.fresh("opaqueeq", SBool, nil, nil)
	}
	e.unsupported(fmt.Sprintf("comparison of %T and %T", x, y))
	return nil
}

func (e *Exec) convert(x Val, from, to types.Type) Val {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case tb != nil && tb.Info()&types.IsInteger != 0 && fb != nil && fb.Info()&types.IsInteger != 0:
		return e.wrap(e.term(x), to)
	case tb != nil && tb.Info()&types.IsString != 0:
		switch a := x.(type) {
		case *SliceV:
			return StrV{e.bytesOf(a)}
		case StrV:
			return a
		case *Term:
			if a.isConst() {
				return StrV{norm(Rope{cseg([]byte(string(rune(a.val.Int64()))))})}
			}
		}
	case fb != nil && fb.Info()&types.IsString != 0:
		if s, ok := to.Underlying().(*types.Slice); ok && isByte(s.Elem()) {
			return e.newBytes(x.(StrV).r, "[]byte(string)")
		}
	case tb != nil && (tb.Info()&types.IsFloat != 0 || fb != nil && fb.Info()&types.IsFloat != 0):
		return e.opaque(to, "float")
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	e.unsupported(fmt.Sprintf("conversion %v -> %v", from, to))
	return nil
}

func (e *Exec) typeAssert(i *ssa.TypeAssert, x Val) Val {
	v, ok := x.(*IfaceV)
	if !ok {
		if _, op := x.(*OpaqueV); op {
			v = &IfaceV{typ: mkOpaque, v: x}
		} else {
			e.unsupported(fmt.Sprintf("type assertion on %T", x))
		}
	}
	at := i.AssertedType
	var res Val
	good := false
	if v.typ != nil {
		if _, isI := at.Underlying().(*types.Interface); isI {
			switch v.typ {
			case mkOpaque:
				good, res = true, v
			case mkErr:
				good = types.AssertableTo(at.Underlying().(*types.Interface), types.Universe.Lookup("error").Type()) && at.Underlying().(*types.Interface).NumMethods() <= 1
				res = v
			case mkPoint:
				good, res = at.Underlying().(*types.Interface).NumMethods() == 0, v
			default:
				good = types.Implements(v.typ, at.Underlying().(*types.Interface))
				res = v
			}
		} else if v.typ == mkPoint {
			res = e.expandPoint(v.v.(*PointV), at)
			good = res != nil
		} else if _, mk := v.typ.(*marker); mk {
			if v.typ == mkOpaque {
				e.unsupported("type assertion on an unknown value")
			}
		} else if types.Identical(v.typ, at) {
			good, res = true, v.v
		}
	}
	if i.CommaOk {
		if !good {
			res = e.zeroVal(at)
		}
		return TupleV{res, Bool(good)}
	}
	if !good {
		e.safety("type assertion", tFalse)
	}
	return res
}

// resolve finds the function a call invokes and evaluates its arguments
func (e *Exec) resolve(f *frame, c *ssa.CallCommon) (func(args []Val) Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv := e.get(f, c.Value)
		for _, a := range c.Args {
			args = append(args, e.get(f, a))
		}
		return func(args []Val) Val { return e.invoke(recv, c.Method, args) }, args
	}
	for _, a := range c.Args {
		args = append(args, e.get(f, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return func(args []Val) Val { return e.builtin(b.Name(), args, c) }, args
	}
	fv, ok := e.get(f, c.Value).(*FuncV)
	if !ok {
		o := e.get(f, c.Value)
		return func(args []Val) Val { e.unsupported(fmt.Sprintf("call of %T", o)); return nil }, args
	}
	return func(args []Val) Val { return e.callFn(fv, args) }, args
}

func (e *Exec) callee(f *frame, c *ssa.CallCommon) (*FuncV, bool) {
	if c.IsInvoke() {
		return nil, false
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	fv, ok := e.get(f, c.Value).(*FuncV)
	return fv, ok
}

func (e *Exec) doCall(f *frame, c *ssa.CallCommon) Val {
	fn, args := e.resolve(f, c)
	pos := e.where
	r := fn(args)
	e.where = pos
	return r
}

func (e *Exec) invoke(recv Val, m *types.Func, args []Val) Val {
	iv, ok := recv.(*IfaceV)
	if !ok {
		e.unsupported(fmt.Sprintf("method %s of %T", m.Name(), recv))
	}
	if iv.typ == nil {
		e.safety("nil dereference (method "+m.Name()+" of nil interface)", tFalse)
	}
	if _, ok := iv.typ.(*marker); ok {
		return e.markerCall(iv, m, args)
	}
	fn := e.v.prog.LookupMethod(iv.typ, m.Pkg(), m.Name())
	if fn == nil {
		e.unsupported("method " + m.Name() + " of " + iv.typ.String())
	}
	return e.call(fn, append([]Val{iv.v}, args...), nil)
}

func (e *Exec) builtin(name string, args []Val, c *ssa.CallCommon) Val {
	switch name {
	case "len", "cap":
		switch a := args[0].(type) {
		case *SliceV:
			if name == "cap" {
				return a.cap
			}
			return a.len
		case StrV:
			return a.r.Len()
		case *Obj:
			if a == nil {
				return zero
			}
			switch x := a.val.(type) {
			case *MapV:
				return I64(int64(len(x.keys)))
			case *ChanV:
				if name == "cap" {
					return I64(int64(x.cap))
				}
				return I64(int64(len(x.buf)))
			}
		case Rope:
			return a.Len()
		case *ArrV:
			return I64(int64(len(a.e)))
		case *Ptr:
			switch x := e.load(a).(type) {
			case Rope:
				return x.Len()
			case *ArrV:
				return I64(int64(len(x.e)))
			}
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		return e.append(args[0].(*SliceV), args[1], c.Args[0].Type())
	case "copy":
		return e.copy(args[0].(*SliceV), args[1])
	case "delete":
		o := args[0].(*Obj)
		if o == nil {
			return nil
		}
		mv := o.val.(*MapV)
		for i, k := range mv.keys {
			if e.branch(e.equal(k, args[1])) {
				e.touch(o)
				n := &MapV{}
				n.keys = append(append(n.keys, mv.keys[:i]...), mv.keys[i+1:]...)
				n.vals = append(append(n.vals, mv.vals[:i]...), mv.vals[i+1:]...)
				o.val = n
				break
			}
		}
		return nil
	case "close":
		o := args[0].(*Obj)
		o.val.(*ChanV).closed = true
		return nil
	case "print", "println":
		return nil
	case "panic":
		e.safety("explicit panic", tFalse)
	case "recover":
		if p := e.cur.panicking; p != nil && !p.done {
			p.done = true
			return p.val
		}
		return &IfaceV{}
	case "min", "max":
		r := e.term(args[0])
		for _, a := range args[1:] {
			t := e.term(a)
			if e.branch(Le(t, r)) == (name == "min") {
				r = t
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Ptr); ok && p.obj == nil {
			e.safety("nil dereference", tFalse)
		}
		return args[0]
	case "clear":
		e.unsupported("clear")
	}
	e.unsupported(fmt.Sprintf("builtin %s(%T)", name, args[0]))
	return nil
}

func (e *Exec) append(s *SliceV, y Val, st types.Type) Val {
	elem := st.Underlying().(*types.Slice).Elem()
	if isByte(elem) {
		var x Rope
		switch v := y.(type) {
		case *SliceV:
			x = e.bytesOf(v)
		case StrV:
			x = v.r
		}
		n := norm(x).Len()
		if n == zero {
			return s
		}
		if s.obj != nil && s.cap != s.len && e.branch(Le(Add(s.len, n), s.cap)) {
			e.writeBytes(s, s.len, x)
			return &SliceV{obj: s.obj, path: s.path, off: s.off, len: Add(s.len, n), cap: s.cap}
		}
		return e.newBytes(cat(e.bytesOf(s), x), "append")
	}
	v := y.(*SliceV)
	n, ok1 := e.concrete(v.len)
	l, ok2 := e.concrete(s.len)
	cp, ok3 := e.concrete(s.cap)
	if !ok1 || !ok2 || !ok3 {
		return e.symAppend(s, v, elem)
	}
	if n == 0 {
		return s
	}
	var xs []Val
	for i := 0; i < n; i++ {
		xs = append(xs, e.load(e.elemPtr(&Ptr{obj: v.obj, path: v.path}, Add(v.off, I64(int64(i))))))
	}
	if s.obj != nil && l+n <= cp {
		for i, x := range xs {
			e.store(e.elemPtr(&Ptr{obj: s.obj, path: s.path}, Add(s.off, I64(int64(l+i)))), x)
		}
		return &SliceV{obj: s.obj, path: s.path, off: s.off, len: I64(int64(l + n)), cap: s.cap}
	}
	a := &ArrV{}
	for i := 0; i < l; i++ {
		a.e = append(a.e, e.load(e.elemPtr(&Ptr{obj: s.obj, path: s.path}, Add(s.off, I64(int64(i))))))
	}
	a.e = append(a.e, xs...)
	t := I64(int64(l + n))
	return &SliceV{obj: e.newObj(elem, a, "append"), off: zero, len: t, cap: t}
}

func (e *Exec) copy(dst *SliceV, src Val) Val {
	var n *Term
	if s, ok := src.(StrV); ok {
		n = e.minTerm(dst.len, s.r.Len())
		if n != zero {
			e.writeBytes(dst, zero, e.ropeSub(s.r, zero, n))
		}
		return n
	}
	s := src.(*SliceV)
	n = e.minTerm(dst.len, s.len)
	if n == zero || dst.obj == nil || s.obj == nil {
		return zero
	}
	if _, ok := e.getPath(dst.obj.val, dst.path).(Rope); ok {
		e.writeBytes(dst, zero, e.ropeSub(e.bytesOf(s), zero, n))
		return n
	}
	k, ok := e.concrete(n)
	if !ok {
		e.unsupported("copy of symbolic length")
	}
	var xs []Val
	for i := 0; i < k; i++ {
		xs = append(xs, e.load(e.elemPtr(&Ptr{obj: s.obj, path: s.path}, Add(s.off, I64(int64(i))))))
	}
	for i, x := range xs {
		e.store(e.elemPtr(&Ptr{obj: dst.obj, path: dst.path}, Add(dst.off, I64(int64(i)))), x)
	}
	return n
}

func (e *Exec) minTerm(a, b *Term) *Term {
	if a == b {
		return a
	}
	if e.branch(Le(a, b)) {
		return a
	}
	return b
}

func (e *Exec) mapUpdate(m, k, v Val) {
	o := m.(*Obj)
	if o == nil {
		e.safety("write to nil map", tFalse)
	}
	e.touch(o)
	mv := o.val.(*MapV)
	for i, x := range mv.keys {
		if e.branch(e.equal(x, k)) {
			n := &MapV{append([]Val{}, mv.keys...), append([]Val{}, mv.vals...)}
			n.vals[i] = v
			o.val = n
			return
		}
	}
	o.val = &MapV{append(append([]Val{}, mv.keys...), k), append(append([]Val{}, mv.vals...), v)}
}

func (e *Exec) lookup(f *frame, i *ssa.Lookup) Val {
	x := e.get(f, i.X)
	if s, ok := x.(StrV); ok {
		idx := e.term(e.get(f, i.Index))
		e.safety("index in range", And(Le(zero, idx), Lt(idx, s.r.Len())))
		return e.byteAt(s.r, idx)
	}
	o, _ := x.(*Obj)
	k := e.get(f, i.Index)
	var v Val
	ok := tFalse
	if o != nil {
		mv := o.val.(*MapV)
		for j, x := range mv.keys {
			if e.branch(e.equal(x, k)) {
				v, ok = mv.vals[j], tTrue
				break
			}
		}
	}
	if v == nil {
		v = e.zeroVal(i.X.Type().Underlying().(*types.Map).Elem())
	}
	if i.CommaOk {
		return TupleV{v, ok}
	}
	return v
}

type iter struct {
	keys, vals []Val
	pos        int
}

func (e *Exec) rangeIter(x Val) Val {
	switch a := x.(type) {
	case *Obj:
		it := &iter{}
		if a != nil {
			mv := a.val.(*MapV)
			it.keys, it.vals = mv.keys, mv.vals
		}
		return it
	case StrV:
		b, ok := a.r.constant()
		if !ok {
			e.unsupported("range over symbolic string")
		}
		it := &iter{}
		for i, r := range string(b) {
			it.keys = append(it.keys, I64(int64(i)))
			it.vals = append(it.vals, I64(int64(r)))
		}
		return it
	}
	e.unsupported(fmt.Sprintf("range over %T", x))
	return nil
}

func (it *iter) next(e *Exec, i *ssa.Next) Val {
	if it.pos >= len(it.keys) {
		t := i.Type().(*types.Tuple)
		return TupleV{tFalse, e.zeroVal(t.At(1).Type()), e.zeroVal(t.At(2).Type())}
	}
	k := it.pos
	it.pos++
	return TupleV{tTrue, it.keys[k], it.vals[k]}
}

var debug = os.Getenv("GOVC_DEBUG") != ""
