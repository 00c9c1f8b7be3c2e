package main

// Loops over slices of unknown length. Such a loop is cut at its header: the state there is described by one template per
// variable or object that the loop changes (the loop invariant), as a function of the number J of iterations so far. The
// templates hold initially, every iteration that starts with them for an arbitrary J ends with them for J+1, and after
// the loop they are all that is known. Which templates are tried is found out from a first iteration: numbers that move
// by a constant, the functions that the specification declares (folds: partial sums, products, powers), arrays written
// one element per iteration. If no combination is an invariant, the loop is given up; the lemma then counts as undecided.

import (
	"fmt"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type bigT = big.Int

// fold is a function of an index that the specification defines by recursion. up: from 0 upwards, else from the length
// downwards.
type fold struct {
	name  string
	up    bool
	first *Term                           // value at 0, or at the length
	next  func(e *Exec, c, v *Term) *Term // the value at c+1 (up), c-1 (down), from the one at c
	cur   func(e *Exec, c *Term) *Term    // the value at an arbitrary index
	total func(e *Exec) *Term             // the value at the other end
	n     *Term
	mods  []*Term // moduli modulo which partial results may be kept
	only  bool    // only modulo these
	cond  bool    // next distinguishes cases
	sum   bool    // may have another value added from the start
	facts func(c *Term) *Term
}

func (s *fold) at(e *Exec, c *Term) *Term {
	start, end := zero, s.n
	if !s.up {
		start, end = s.n, zero
	}
	if c == start || e.holds(Eq(c, start)) {
		return s.first
	}
	if s.total != nil && (c == end || e.holds(Eq(c, end))) {
		return s.total(e)
	}
	return s.cur(e, c)
}

func (e *Exec) holds(c *Term) bool {
	if c.kind == KTrue {
		return true
	}
	if c.kind == KFalse {
		return false
	}
	return !e.feasible(Not(c))
}

// restart: more is known about a loop
type restart struct{ loop string }

// LoopSpec is what is known about a loop of the program that is cut
type LoopSpec struct {
	key    string
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	peel   int
	known  bool // the first iteration was seen
	cells  []*cell
	guards []*guard
	exits  []*Term
	all    bool // combinations are gone through
	spent  int  // how many of them
	giveup bool
}

type guard struct {
	t       *Term
	dropped bool
}

type cell struct {
	phi   *ssa.Phi
	obj   objKey
	field int // of a struct, or -1
	name  string
	moves bool // the first iteration changes it
	delta *Term
	pick  int
	n     int // number of templates in the list
	weak  int // those that say nothing
}

type template struct {
	name string
	weak bool
	base func(e *Exec, v Val) bool
	head func(e *Exec, j *Term) Val
	step func(e *Exec, j *Term, v Val) bool // v: the value after iteration j
}

// natural is the loop with the given header
func natural(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	l := map[*ssa.BasicBlock]bool{}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if l[b] {
			return
		}
		l[b] = true
		if b == h {
			return
		}
		for _, p := range b.Preds {
			add(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			l[h] = true
			add(p)
		}
	}
	return l
}

// loopContract tells whether the loop with this header is cut; entering it counts
func (v *Verifier) loopContract(e *Exec, f *frame, b, prev *ssa.BasicBlock) *LoopSpec {
	if !e.unbounded || prev == nil || b == e.inLoop {
		return nil
	}
	isHead := false
	for _, p := range b.Preds {
		isHead = isHead || b.Dominates(p)
	}
	if !isHead {
		return nil
	}
	if e.loopBlocks(b)[prev] {
		return nil
	}
	if e.entries == nil {
		e.entries = map[*ssa.BasicBlock]int{}
	}
	e.entries[b]++
	key := fmt.Sprintf("%p/%d", b, e.entries[b])
	if e.entryPos == nil {
		e.entryPos = map[string]int{}
	}
	e.entryPos[key] = e.pos
	return v.loops[key]
}

func (e *Exec) loopBlocks(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	l, ok := e.v.natural[b]
	if !ok {
		l = natural(b)
		if e.v.natural == nil {
			e.v.natural = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		}
		e.v.natural[b] = l
	}
	return l
}

// tooLong registers a loop that does not end by itself
func (e *Exec) tooLong(b *ssa.BasicBlock, decided int) {
	if e.entries[b] == 0 || e.pos < decided+3 {
		return
	}
	key := fmt.Sprintf("%p/%d", b, e.entries[b])
	if e.v.loops[key] != nil {
		return
	}
	e.v.loops[key] = &LoopSpec{key: key, head: b, blocks: e.loopBlocks(b)}
	panic(restart{key})
}

type watch struct {
	mark int
	old  map[*Obj]Val
}

// leave runs from block b until the header is reached again or the loop is left
func (e *Exec) leave(f *frame, lc *LoopSpec, b, prev *ssa.BasicBlock) (nb, np *ssa.BasicBlock) {
	first := true
	e.blocks(f, b, prev, func(x, y *ssa.BasicBlock) bool {
		nb, np = x, y
		if first {
			first = false
			return false
		}
		return x == lc.head || !lc.blocks[x]
	})
	return
}

func phisOf(b *ssa.BasicBlock) (r []*ssa.Phi) {
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return
}

func (e *Exec) enter(f *frame, b, prev *ssa.BasicBlock) (vs []Val) {
	k := 0
	for i, p := range b.Preds {
		if p == prev {
			k = i
		}
	}
	for _, p := range phisOf(b) {
		vs = append(vs, e.get(f, p.Edges[k]))
	}
	return
}

func (e *Exec) runLoop(f *frame, lc *LoopSpec, b, prev *ssa.BasicBlock) (*ssa.BasicBlock, *ssa.BasicBlock) {
	outer := e.inLoop
	e.inLoop = b
	defer func() { e.inLoop = outer }()
	if lc.giveup {
		e.v.undecided = true
		e.unsupported("a loop without a known invariant in " + f.fn.String())
	}
	for k := 0; k < lc.peel; k++ {
		b, prev = e.leave(f, lc, b, prev)
		if b != lc.head {
			return b, prev
		}
	}
	phis := phisOf(b)
	start := e.enter(f, b, prev)
	mark := e.nobj
	w := &watch{mark: mark, old: map[*Obj]Val{}}
	e.watches = append(e.watches, w)
	pop := func() {
		for i, x := range e.watches {
			if x == w {
				e.watches = append(e.watches[:i:i], e.watches[i+1:]...)
				break
			}
		}
	}
	if !lc.known {
		e.discover(f, lc, b, prev, phis, start, w)
		pop()
		panic(restart{lc.key})
	}
	// the state at the header
	if e.loopStart == nil {
		e.loopStart = map[*ssa.Phi]Val{}
	}
	for i, p := range phis {
		e.loopStart[p] = start[i]
	}
	type live struct {
		c  *cell
		o  *Obj
		v0 Val
		t  *template
	}
	var cells []*live
	for _, c := range lc.cells {
		l := &live{c: c}
		if c.phi != nil {
			for i, p := range phis {
				if p == c.phi {
					l.v0 = start[i]
				}
			}
		} else {
			l.o = e.objByKey(c.obj)
			if l.o == nil {
				continue
			}
			l.v0 = l.o.val
			if c.field >= 0 {
				s, ok := l.v0.(*StructV)
				if !ok || c.field >= len(s.f) {
					continue
				}
				l.v0 = s.f[c.field]
			}
		}
		whole := l.o
		if c.field >= 0 {
			whole = nil
		}
		ts := e.templates(f, lc, c, l.v0, whole)
		c.n, c.weak = len(ts), 0
		for _, t := range ts {
			if t.weak {
				c.weak++
			}
		}
		l.t = nil
		if c.pick < len(ts) && ts[c.pick].base(e, l.v0) {
			l.t = ts[c.pick]
		} else {
			e.another(lc, c, true, "initially false")
		}
		cells = append(cells, l)
	}
	for i, p := range phis {
		if lc.phiCell(p) == nil {
			f.env[p] = start[i]
		}
	}
	env0 := map[ssa.Value]Val{}
	for k, v := range f.env {
		env0[k] = v
	}
	setState := func(fr *frame, j *Term) {
		for _, l := range cells {
			v := l.t.head(e, j)
			if l.o != nil {
				l.o.val = withField(l.o.val, l.c.field, v)
			} else {
				fr.env[l.c.phi] = v
			}
		}
	}
	e.nfresh["iteration"]++
	j := Var(fmt.Sprintf("iteration'%d", e.nfresh["iteration"]), SInt, big0, new(big.Int).Lsh(big1, 62))
	k := e.choose(1 + len(lc.exits))
	if k > 0 {
		x := lc.exits[k-1]
		if !e.feasible(Le(zero, x)) {
			panic(pathEnd{"infeasible"})
		}
		e.assume(Le(zero, x))
		j = x
	}
	olds := map[*Obj]*mapMark{}
	insts := e.instances(f, lc, olds, env0, setState)
	for _, l := range cells {
		if m, ok := l.t.head(e, j).(*mapMark); ok {
			olds[l.o] = m
			l.t.head = mapHead(insts, l.o, l.v0.(*SymArr), m)
		}
	}
	// what held when the last iteration was entered
	for _, g := range lc.guards {
		if g.dropped {
			continue
		}
		c := substAll(g.t, map[*Term]*Term{loopVar: Sub(j, one)}, map[*Term]*Term{})
		if !e.holds(substAll(g.t, map[*Term]*Term{loopVar: I64(-1)}, map[*Term]*Term{})) {
			g.dropped = true
			panic(restart{lc.key})
		}
		if !e.feasible(c) {
			panic(pathEnd{"infeasible"})
		}
		e.assume(c)
	}
	setState(f, j)
	for _, l := range cells {
		if l.t.weak {
			e.v.undecided = true
		}
		if fc, ok := e.foldFacts[l.t.name]; ok {
			if t := fc(j); t != nil {
				e.assume(t)
			}
		}
	}
	w.mark = e.nobj
	w.old = map[*Obj]Val{}
	pc0 := len(e.pc)
	nb, np := e.leave(f, lc, b, nil)
	if nb != lc.head {
		pop()
		if k > 0 {
			return nb, np
		}
		// left the loop at an arbitrary iteration: it is one of the known ones, or this path goes on
		for _, x := range lc.exits {
			if e.holds(Eq(j, x)) {
				panic(pathEnd{"end of a loop"})
			}
		}
		for _, x := range e.solveFor(j, e.pc[pc0:]) {
			if e.holds(Eq(j, x)) {
				lc.exits = append(lc.exits, x)
				panic(restart{lc.key})
			}
		}
		return nb, np
	}
	if k > 0 {
		panic(pathEnd{"end of a loop"})
	}
	// one more iteration is done
	vs := e.enter(f, nb, np)
	for i, p := range phis {
		if c := lc.phiCell(p); c == nil && e.sameVal(vs[i], start[i], 0).kind != KTrue {
			lc.cells = append(lc.cells, &cell{field: -1, phi: p, name: p.Name() + " " + p.Comment})
			panic(restart{lc.key})
		}
	}
	for o := range w.old {
		if o.id <= w.mark && e.objByKey(o.key) != nil {
			if more := e.objCells(lc, o, w.old[o]); len(more) > 0 {
				for _, c := range more {
					c.moves, c.delta = false, nil
				}
				lc.cells = append(lc.cells, more...)
				lc.sortCells()
				panic(restart{lc.key})
			}
		}
	}
	// conditions under which an iteration is complete
	for _, t := range e.pc[pc0:] {
		if g := linearIn(t, j); g != nil && !lc.hasGuard(g) {
			lc.guards = append(lc.guards, &guard{t: g})
			panic(restart{lc.key})
		}
	}
	for _, g := range lc.guards {
		if !g.dropped && !e.holds(substAll(g.t, map[*Term]*Term{loopVar: j}, map[*Term]*Term{})) {
			g.dropped = true
			panic(restart{lc.key})
		}
	}
	used := map[*Obj]bool{}
	sort.SliceStable(cells, func(i, k int) bool { return cells[i].o != nil && cells[k].o == nil })
	for _, l := range cells {
		v := l.v0
		if l.o != nil {
			v = l.o.val
			if l.c.field >= 0 {
				v = v.(*StructV).f[l.c.field]
			}
		} else {
			for i, p := range phis {
				if p == l.c.phi {
					v = vs[i]
				}
			}
		}
		if !l.t.step(e, j, v) {
			if debug {
				fmt.Println("  step:", showVal(v), "under")
				for _, t := range e.pc {
					fmt.Println("     ", t)
				}
			}
			e.another(lc, l.c, false, fmt.Sprintf("%s is not always %s", l.c.name, l.t.name))
		}
		if p, ok := v.(*Ptr); ok && (l.o == nil || l.c.field >= 0) && p.obj != nil && e.sameVal(v, l.v0, 0).kind != KTrue {
			// an object of this iteration: in one place only
			if used[p.obj] || e.stored[p.obj] || p.obj.elem || p.obj.id <= mark {
				e.another(lc, l.c, false, l.c.name+" is shared")
			}
			used[p.obj] = true
		}
	}
	for _, l := range cells {
		e.v.discharged("invariant: "+l.t.name+", in "+f.fn.RelString(nil), "normaliser")
	}
	panic(pathEnd{"iteration of a loop"})
}

var loopVar = Var("the iteration", SInt, big.NewInt(-1), new(big.Int).Lsh(big1, 62))

func (lc *LoopSpec) phiCell(p *ssa.Phi) *cell {
	for _, c := range lc.cells {
		if c.phi == p {
			return c
		}
	}
	return nil
}

// objCells are cells for what was written to an object and has none yet
func (e *Exec) objCells(lc *LoopSpec, o *Obj, old Val) (r []*cell) {
	add := func(field int, old, v Val) {
		if lc.objCell(o.key, field) != nil {
			return
		}
		c := &cell{obj: o.key, field: field, name: fmt.Sprintf("%s#%d", o.name, o.id), moves: e.sameVal(old, v, 0).kind == KFalse}
		if field >= 0 {
			c.name += fmt.Sprintf(".%d", field)
		}
		x, ok1 := old.(*Term)
		y, ok2 := v.(*Term)
		if ok1 && ok2 && x.sort == SInt {
			if d := Sub(y, x); d.isConst() && d != zero {
				c.delta = d
			}
		}
		r = append(r, c)
	}
	x, ok1 := old.(*StructV)
	y, ok2 := o.val.(*StructV)
	if ok1 && ok2 && len(x.f) == len(y.f) {
		for i := range x.f {
			if e.sameVal(x.f[i], y.f[i], 0).kind != KTrue {
				add(i, x.f[i], y.f[i])
			}
		}
		return
	}
	add(-1, old, o.val)
	return
}

func withField(old Val, field int, v Val) Val {
	s, ok := old.(*StructV)
	if field < 0 || !ok {
		return v
	}
	f := append([]Val{}, s.f...)
	f[field] = v
	return &StructV{f: f}
}

func (lc *LoopSpec) objCell(id objKey, field int) *cell {
	for _, c := range lc.cells {
		if c.phi == nil && c.obj == id && c.field == field {
			return c
		}
	}
	return nil
}

func (lc *LoopSpec) sortCells() {
	sort.SliceStable(lc.cells, func(i, k int) bool {
		a, b := lc.cells[i], lc.cells[k]
		return a.phi != nil && b.phi == nil
	})
}

func (lc *LoopSpec) hasGuard(t *Term) bool {
	for _, g := range lc.guards {
		if g.t == t {
			return true
		}
	}
	return false
}

// another combination of templates
// another combination of templates is tried, since the one of this cell does not hold, initially or always. At first only
// the template of the cell itself is replaced; if that does not lead anywhere, all combinations are gone through.
func (e *Exec) another(lc *LoopSpec, failed *cell, initially bool, why string) {
	last := len(lc.cells) - 1
	reset := func() {
		for _, c := range lc.cells {
			c.pick = 0
		}
		lc.known = false
		lc.cells, lc.guards, lc.exits = nil, nil, nil
	}
	if !lc.all {
		if debug && !initially {
			fmt.Println("loop:", why)
		}
		failed.pick++
		if failed.n > 0 && failed.pick >= failed.n-failed.weak {
			reset()
			lc.peel++
			if debug {
				fmt.Println("peel: no template for", failed.name, why)
			}
			if lc.peel > 2 {
				lc.peel, lc.all = 0, true
			}
		}
		panic(restart{lc.key})
	}
	if initially {
		for lc.cells[last] != failed {
			lc.cells[last].pick = 0
			last--
		}
	} else {
		lc.spent++
		if debug {
			fmt.Println("loop:", why)
		}
	}
	for i := last; ; i-- {
		if i < 0 {
			lc.peel++
			reset()
			break
		}
		c := lc.cells[i]
		c.pick++
		if c.pick < c.n || c.n == 0 {
			break
		}
		c.pick = 0
	}
	if lc.peel > 2 || lc.spent > 2000 {
		lc.giveup = true
	}
	panic(restart{lc.key})
}

// discover runs the first iteration to see what it changes
func (e *Exec) discover(f *frame, lc *LoopSpec, b, prev *ssa.BasicBlock, phis []*ssa.Phi, start []Val, w *watch) {
	nb, np := e.leave(f, lc, b, prev)
	if nb != lc.head {
		panic(pathEnd{"end of a loop"})
	}
	vs := e.enter(f, nb, np)
	for i, p := range phis {
		if e.sameVal(vs[i], start[i], 0).kind == KTrue {
			continue
		}
		c := &cell{field: -1, phi: p, name: p.Name() + " " + p.Comment, moves: true}
		x, ok1 := start[i].(*Term)
		y, ok2 := vs[i].(*Term)
		if ok1 && ok2 && x.sort == SInt {
			if d := Sub(y, x); d.isConst() {
				c.delta = d
			}
		}
		lc.cells = append(lc.cells, c)
	}
	for o, old := range w.old {
		if o.id > w.mark {
			continue
		}
		lc.cells = append(lc.cells, e.objCells(lc, o, old)...)
	}
	sort.SliceStable(lc.cells, func(i, k int) bool {
		a, b := lc.cells[i], lc.cells[k]
		if (a.phi != nil) != (b.phi != nil) {
			return a.phi != nil
		}
		if a.phi == nil && a.obj == b.obj {
			return a.field < b.field
		}
		return a.phi == nil && a.obj.less(b.obj)
	})
	lc.known = true
}

func (e *Exec) objByKey(k objKey) *Obj {
	if o := e.objs[k]; o != nil {
		return o
	}
	if k.n >= 1 && k.n <= len(e.heap) && e.heap[k.n-1] != nil && e.heap[k.n-1].key == k {
		return e.heap[k.n-1]
	}
	return nil
}

// mapMark stands for the content of an array that every iteration writes one element of
type mapMark struct{ p0, s *Term }

// templates are the descriptions of a variable that are tried
func (e *Exec) templates(f *frame, lc *LoopSpec, c *cell, v0 Val, o *Obj) []*template {
	var ts []*template
	add := func(name string, head func(e *Exec, j *Term) Val, base func(e *Exec, v Val) bool, step func(e *Exec, j *Term, v Val) bool) *template {
		t := &template{name: name, head: head, base: base, step: step}
		ts = append(ts, t)
		return t
	}
	yes := func(e *Exec, v Val) bool { return true }
	same := func(a, b Val) bool { return e.holds(e.sameVal(a, b, 0)) }
	add(c.name+" unchanged", func(e *Exec, j *Term) Val { return v0 }, func(e *Exec, v Val) bool { return !c.moves },
		func(e *Exec, j *Term, v Val) bool { return same(v0, v) })

	// numbers, and pointers to numbers of their own
	wrapv := func(t *Term) Val { return t }
	unwrap := func(v Val) *Term {
		if t, ok := v.(*Term); ok && t.sort == SInt {
			return t
		}
		return nil
	}
	isBig := false
	if p, ok := v0.(*Ptr); ok && p.obj != nil && len(p.path) == 0 && p.obj.typ != nil && isBigInt(p.obj.typ) {
		isBig = true
		if p.obj.frozen {
			// an operand is changed, or replaced by the first iteration
			if lc.peel < 2 {
				lc.spent = 0
				lc.peel++
				if debug {
					fmt.Println("peel: operand", c.name)
				}
				lc.known = false
				lc.cells, lc.guards, lc.exits = nil, nil, nil
				panic(restart{lc.key})
			}
			return ts
		}
		var made = map[*Term]*Ptr{}
		wrapv = func(t *Term) Val {
			if q, ok := made[t]; ok {
				q.obj.val = t
				return q
			}
			q := e.newBig(t)
			made[t] = q
			return q
		}
		unwrap = func(v Val) *Term {
			if q, ok := v.(*Ptr); ok && q.obj != nil && len(q.path) == 0 {
				if t, ok := q.obj.val.(*Term); ok {
					return t
				}
			}
			return nil
		}
	} else if o != nil && o.typ != nil && isBigInt(o.typ) {
		isBig = true
	}
	isPoint := false
	if p, ok := v0.(*IfaceV); ok && p.typ == mkPoint {
		isPoint = true
		wrapv = func(t *Term) Val { return e.newPoint(t) }
		unwrap = func(v Val) *Term {
			d, ok := e.dlOf(v)
			if !ok {
				return nil
			}
			return d
		}
	}
	num := func(name string, at func(e *Exec, j *Term) *Term, next func(e *Exec, j *Term) *Term) {
		add(c.name+" = "+name, func(e *Exec, j *Term) Val { return wrapv(at(e, j)) },
			func(e *Exec, v Val) bool { t := unwrap(v); return t != nil && e.holds(Eq(t, at(e, zero))) },
			func(e *Exec, j *Term, v Val) bool { t := unwrap(v); return t != nil && e.holds(Eq(t, next(e, j))) })
	}
	if t0 := unwrap(v0); t0 != nil {
		if c.delta != nil {
			d := c.delta
			num(fmt.Sprintf("%v + %v per iteration", t0, d), func(e *Exec, j *Term) *Term { return Add(t0, Mul(d, j)) },
				func(e *Exec, j *Term) *Term { return Add(t0, Mul(d, Add(j, one))) })
		}
		if isBig || isPoint {
			for _, s := range e.folds {
				s := s
				for c0 := int64(0); c0 <= 3; c0++ {
					if s.cond && c0 != int64(lc.peel) {
						continue
					}
					pos := func(j *Term) *Term { return Add(I64(c0), j) }
					if !s.up {
						pos = func(j *Term) *Term { return Sub(Sub(s.n, I64(c0)), j) }
					}
					// the value at the start, unfolded
					at0 := s.first
					for k := int64(0); k < c0; k++ {
						p := I64(k)
						if !s.up {
							p = Sub(s.n, I64(k))
						}
						at0 = s.next(e, p, at0)
					}
					off := zero
					if s.sum {
						off = Sub(t0, at0)
					}
					for _, sign := range []*Term{one, I64(-1)} {
						sign := sign
						var mods []*Term
						if isPoint && !contains(s.mods, tN) {
							continue
						}
						if !s.only && !isPoint {
							mods = append(mods, nil)
						}
						for _, m := range append(mods, s.mods...) {
							m := m
							if isPoint && m != tN {
								continue
							}
							off := off
							if s.sum && sign != one {
								off = Add(t0, at0)
							}
							red := func(t *Term) *Term {
								t = Add(Mul(sign, t), off)
								if m != nil {
									t = Mod(t, m)
								}
								return t
							}
							name := fmt.Sprintf("%s from %d", s.name, c0)
							if sign != one {
								name = "- " + name
							}
							if m != nil {
								name += " modulo " + m.String()
							}
							at := map[*Term]*Term{}
							t := add(c.name+" = "+name,
								func(e *Exec, j *Term) Val {
									if j == zero {
										return wrapv(red(at0))
									}
									if at[j] == nil {
										at[j] = s.at(e, pos(j))
									}
									return wrapv(red(at[j]))
								}, func(e *Exec, v Val) bool { t := unwrap(v); return t != nil && e.holds(Eq(t, red(at0))) },
								func(e *Exec, j *Term, v Val) bool {
									t := unwrap(v)
									if at[j] == nil {
										at[j] = s.at(e, pos(j))
									}
									return t != nil && e.holds(Eq(t, red(s.next(e, pos(j), at[j]))))
								})
							if s.facts != nil {
								if e.foldFacts == nil {
									e.foldFacts = map[string]func(j *Term) *Term{}
								}
								e.foldFacts[t.name] = func(j *Term) *Term { return s.facts(pos(j)) }
							}
						}
					}
				}
			}
		}
	}
	// nothing is known
	weak := func(name string, head func(e *Exec, j *Term) Val, ok func(v Val) bool) {
		add(name, head, func(e *Exec, v Val) bool { return ok(v) }, func(e *Exec, j *Term, v Val) bool { return ok(v) }).weak = true
	}
	if t0 := unwrap(v0); t0 != nil {
		any := map[*Term]*Term{}
		weak(c.name+" arbitrary", func(e *Exec, j *Term) Val {
			if any[j] == nil {
				var lo, hi *big.Int
				if isPoint {
					lo, hi = big0, tN1
				} else if c.phi != nil {
					if bits, signed, ok := intRange(c.phi.Type()); ok {
						hi = new(big.Int).Lsh(big1, uint(bits))
						lo = big0
						if signed {
							hi.Rsh(hi, 1)
							lo = new(big.Int).Neg(hi)
						}
						hi = new(big.Int).Sub(hi, big1)
					}
				}
				any[j] = e.fresh("any", SInt, lo, hi)
			}
			return wrapv(any[j])
		}, func(v Val) bool { return (isBig || isPoint || c.phi != nil) && unwrap(v) != nil })
	} else if t, ok := v0.(*Term); ok && t.sort == SBool {
		any := map[*Term]*Term{}
		weak(c.name+" arbitrary", func(e *Exec, j *Term) Val {
			if any[j] == nil {
				any[j] = e.fresh("any", SBool, nil, nil)
			}
			return any[j]
		}, func(v Val) bool { t, ok := v.(*Term); return ok && t.sort == SBool })
	}
	// an array, one element of which is written by each iteration
	if _, ok := v0.(*SymArr); ok && o != nil {
		for _, m := range e.mapMarks(lc) {
			m := m
			add(fmt.Sprintf("%s written at %v + %v per iteration", c.name, m.p0, m.s),
				func(e *Exec, j *Term) Val { return m }, yes,
				func(e *Exec, j *Term, v Val) bool {
					a, ok := v.(*SymArr)
					if !ok {
						return false
					}
					ws := a.writes
					p := Add(m.p0, Mul(m.s, j))
					for _, w := range ws {
						if !e.holds(Eq(w.i, p)) {
							return false
						}
						if q, ok := w.v.(*Ptr); ok {
							e.store1(q.obj)
						}
					}
					return true
				})
		}
	}
	return ts
}

func contains(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

func (e *Exec) store1(o *Obj) {
	if e.stored == nil {
		e.stored = map[*Obj]bool{}
	}
	e.stored[o] = true
}

// mapMarks are the positions that the counters of the loop run through
func (e *Exec) mapMarks(lc *LoopSpec) (r []*mapMark) {
	for _, c := range lc.cells {
		if c.phi == nil || c.delta == nil || c.delta.val.CmpAbs(big1) != 0 {
			continue
		}
		for d := int64(0); d <= 1; d++ {
			r = append(r, &mapMark{p0: Add(e.startOf(lc, c), I64(d)), s: c.delta})
		}
	}
	return
}

func (e *Exec) startOf(lc *LoopSpec, c *cell) *Term {
	if t, ok := e.loopStart[c.phi].(*Term); ok {
		return t
	}
	return zero
}

// instances are iterations of a loop that were looked into afterwards, for what they wrote
type instances struct {
	made []instance
	run  func(e *Exec, j *Term) map[*Obj]Val
}

// iteration of a loop that is entered once in this path
type iteration struct {
	id string
	j  *Term
	n  map[string]int
}

type instance struct {
	j  *Term
	vs map[*Obj]Val
}

func (s *instances) at(e *Exec, j *Term) map[*Obj]Val {
	for _, x := range s.made {
		if x.j != j && (e.dummy(x.j) || e.dummy(j)) {
			continue
		}
		if e.branch(Eq(x.j, j)) {
			return x.vs
		}
	}
	vs := s.run(e, j)
	s.made = append(s.made, instance{j, vs})
	return vs
}

// dummy tells whether t refers to the index of a summand
func (e *Exec) dummy(t *Term) bool {
	for d := range e.dummies {
		if mentions(t, d) {
			return true
		}
	}
	return false
}

// instances of the loop: olds are the arrays that it writes, as they were before
func (e *Exec) instances(f *frame, lc *LoopSpec, olds map[*Obj]*mapMark, env0 map[ssa.Value]Val, setState func(fr *frame, j *Term)) *instances {
	id := fmt.Sprintf("%s.%d.%d", f.fn.RelString(nil), lc.head.Index, e.entries[lc.head])
	return &instances{run: func(e *Exec, j *Term) map[*Obj]Val {
		if e.elemDepth >= 3 {
			e.v.undecided = true
			e.unsupported("elements that depend on one another in " + f.fn.String())
		}
		e.elemDepth++
		defer func() { e.elemDepth-- }()
		e.iter = append(e.iter, &iteration{id, j, map[string]int{}})
		first := len(e.made)
		defer func() {
			e.iter = e.iter[:len(e.iter)-1]
			for _, o := range e.made[first:] {
				o.elem = true
			}
		}()
		fr := &frame{fn: f.fn, env: map[ssa.Value]Val{}}
		for k, v := range env0 {
			fr.env[k] = v
		}
		w := &watch{mark: e.nobj, old: map[*Obj]Val{}}
		save := map[*Obj]Val{}
		for _, c := range lc.cells {
			if c.phi == nil {
				if x := e.objByKey(c.obj); x != nil {
					save[x] = x.val
				}
			}
		}
		e.watches = append(e.watches, w)
		setState(fr, j)
		e.curFn = append(e.curFn, f.fn)
		nb, _ := e.leave(fr, lc, lc.head, nil)
		e.curFn = e.curFn[:len(e.curFn)-1]
		for i, x := range e.watches {
			if x == w {
				e.watches = append(e.watches[:i:i], e.watches[i+1:]...)
				break
			}
		}
		if nb != lc.head {
			panic(pathEnd{"infeasible"}) // the iteration was completed
		}
		vs := map[*Obj]Val{}
		for o := range olds {
			if a, ok := o.val.(*SymArr); ok && len(a.writes) > 0 {
				vs[o] = a.writes[len(a.writes)-1].v
			}
		}
		for x, y := range w.old {
			if x.id <= w.mark {
				x.val = y
			}
		}
		for x, y := range save {
			x.val = y
		}
		return vs
	}}
}

// mapHead is the content of such an array after j iterations
func mapHead(s *instances, o *Obj, old *SymArr, m *mapMark) func(e *Exec, j *Term) Val {
	return func(e *Exec, j *Term) Val {
		return &SymArr{base: func(e *Exec, i *Term) Val {
			k := Mul(m.s, Sub(i, m.p0))
			if e.branch(And(Le(zero, k), Lt(k, j))) {
				if v, ok := s.at(e, k)[o]; ok {
					return v
				}
			}
			return old.get(e, i)
		}}
	}
}

// linearIn gives a condition that mentions the iteration, but nothing else of the loop, as one over loopVar
func linearIn(t, j *Term) *Term {
	if t.kind != KGe0 && !(t.kind == KNot && t.args[0].kind == KGe0) {
		return nil
	}
	g := t
	if g.kind == KNot {
		g = g.args[0]
	}
	n := 0
	for _, m := range g.args[0].monomials() {
		for _, a := range m.atoms {
			if a == j {
				if len(m.atoms) != 1 {
					return nil
				}
				n++
			} else if a.kind != KVar {
				return nil
			}
		}
	}
	if n == 0 {
		return nil
	}
	return substAll(t, map[*Term]*Term{j: loopVar}, map[*Term]*Term{})
}

// solveFor proposes values for j at which one of the conditions is just met
func (e *Exec) solveFor(j *Term, pc []*Term) (r []*Term) {
	for _, t := range pc {
		g := t
		if g.kind == KNot {
			g = g.args[0]
		}
		if g.kind != KGe0 && g.kind != KEq0 {
			continue
		}
		p := g.args[0]
		for _, m := range p.monomials() {
			if len(m.atoms) == 1 && m.atoms[0] == j && m.c.CmpAbs(big1) == 0 {
				rest := Sub(p, Scale(m.c, j)) // p = c*j + rest
				for _, v := range []*Term{zero, I64(-1)} {
					r = append(r, Scale(m.c, Sub(v, rest)))
				}
			}
		}
	}
	return
}

func (e *Exec) connReadFull(iv *IfaceV, dst *SliceV) Val { e.unsupported("connection"); return nil }

// ---- the functions that specifications are made of

func always(t *Term) func(*Exec) *Term { return func(*Exec) *Term { return t } }

// polyFolds: the value of the polynomial with coefficients f at x
func (e *Exec) polyFolds(f *SliceV, x *Term, mods ...*Term) *Term {
	e.nfresh["poly"]++
	id := fmt.Sprintf("%d", e.nfresh["poly"])
	n := f.len
	coef := func(e *Exec, c *Term) *Term {
		return e.big(e.load(e.elemPtr(&Ptr{obj: f.obj, path: f.path}, Add(f.off, c))))
	}
	pw := func(c *Term) *Term {
		if c.isConst() {
			r := one
			for i := int64(0); i < c.val.Int64(); i++ {
				r = Mul(r, x)
			}
			return r
		}
		return App("pow", SInt, nil, nil, x, c)
	}
	total := App("value"+id, SInt, nil, nil, n)
	few, sum := zero, zero
	for k := int64(0); k < 3; k++ {
		few, sum = Add(few, one), Add(sum, Mul(coef(e, I64(k)), pw(I64(k))))
		e.assume(Or(Not(Eq(n, few)), Eq(total, sum)))
	}
	e.folds = append(e.folds,
		&fold{name: "the value of the upper coefficients", n: n, first: zero, total: always(total), mods: mods,
			cur:  func(e *Exec, c *Term) *Term { return App("upper"+id, SInt, nil, nil, c) },
			next: func(e *Exec, c, v *Term) *Term { return Add(coef(e, Sub(c, one)), Mul(x, v)) }},
		&fold{name: "the value of the lower coefficients", n: n, up: true, first: zero, total: always(total), mods: mods,
			cur:  func(e *Exec, c *Term) *Term { return App("lower"+id, SInt, nil, nil, c) },
			next: func(e *Exec, c, v *Term) *Term { return Add(v, Mul(coef(e, c), pw(c))) }},
		&fold{name: "the power of the point", n: n, up: true, first: one, mods: mods,
			cur:  func(e *Exec, c *Term) *Term { return pw(c) },
			next: func(e *Exec, c, v *Term) *Term { return Mul(v, x) }})
	return total
}

// sumFolds: the sum of f(0) to f(n-1), but own in place of the element except, if there is one. The sum is kept as a combination of
// sums that do not contain factors that are the same for all elements. f must be one formula for all elements.
func (e *Exec) sumFolds(n, except *Term, f func(e *Exec, i *Term) *Term, own func(e *Exec) *Term) func(e *Exec) *Term {
	if k, ok := e.concrete(n); ok {
		return func(e *Exec) *Term {
			s := zero
			for i := 0; i < k; i++ {
				if except != nil && e.branch(Eq(I64(int64(i)), except)) {
					s = Add(s, own(e))
				} else {
					s = Add(s, f(e, I64(int64(i))))
				}
			}
			return s
		}
	}
	type part struct{ coef, key *Term }
	var parts []part
	any := Var("element of a sum", SInt, big0, new(big.Int).Lsh(big1, 40))
	form := zero // the summand as a function of its index
	ready := false
	e.nsums++
	sum := e.nsums
	f0 := f
	f = func(e *Exec, i *Term) *Term {
		// what f chooses is a function of the index
		e.iter = append(e.iter, &iteration{fmt.Sprintf("sum %d", sum), i, map[string]int{}})
		defer func() { e.iter = e.iter[:len(e.iter)-1] }()
		return f0(e, i)
	}
	combine := func(name string, e *Exec, c *Term) *Term {
		if !ready {
			ready = true
			i, t := any, zero
			if except == nil && e.branch(Lt(zero, n)) || except != nil && e.branch(Lt(one, n)) {
				// an element that there is
				d := Var(fmt.Sprintf("element of a sum'%d", sum), SInt, big0, new(big.Int).Lsh(big1, 40))
				if e.dummies == nil {
					e.dummies = map[*Term]bool{}
				}
				e.dummies[d] = true
				e.assume(Lt(d, n))
				if except != nil {
					e.assume(Not(Eq(d, except)))
				}
				path := fmt.Sprint(sum, e.dec[:e.pos])
				t = substAll(f(e, d), map[*Term]*Term{d: i}, map[*Term]*Term{})
				// one formula, whatever is assumed of the element
				if e.v.summands == nil {
					e.v.summands = map[string]*Term{}
				}
				if u, ok := e.v.summands[path]; ok && u != t {
					e.v.undecided = true
					e.unsupported("lemma: summands of several forms")
				}
				e.v.summands[path] = t
			}
			form = t
			for _, m := range t.monomials() {
				p := part{IConst(m.c), one}
				for _, a := range m.atoms {
					if mentions(a, i) {
						p.key = Mul(p.key, a)
					} else {
						p.coef = Mul(p.coef, a)
					}
				}
				parts = append(parts, p)
			}
		}
		s := zero
		for _, p := range parts {
			if p.key == one {
				if name == "sumfrom" {
					c = Sub(n, c)
				}
				s = Add(s, Mul(p.coef, c))
				continue
			}
			var lo *big.Int
			if p.key.lo != nil && p.key.lo.Sign() >= 0 {
				lo = big0
			}
			s = Add(s, Mul(p.coef, App(fmt.Sprintf("%s#%d", name, p.key.id), SInt, lo, nil, c)))
		}
		return s
	}
	without := func(e *Exec, t, c *Term) *Term {
		if except != nil && e.branch(c) {
			return Add(Sub(t, substAll(form, map[*Term]*Term{any: except}, map[*Term]*Term{})), own(e))
		}
		return t
	}
	inside := func(c *Term) *Term {
		if except == nil {
			return tFalse
		}
		return And(Le(zero, except), Lt(except, c))
	}
	total := func(e *Exec) *Term { return without(e, combine("sumto", e, n), inside(n)) }
	next := func(e *Exec, i, v *Term) *Term {
		if except != nil && e.branch(Eq(i, except)) {
			return Add(v, own(e))
		}
		return Add(v, f(e, i))
	}
	e.folds = append(e.folds,
		&fold{name: "the sum of the first elements", n: n, up: true, first: zero, sum: true, cond: except != nil, mods: []*Term{tN}, total: total,
			cur: func(e *Exec, c *Term) *Term {
				return without(e, combine("sumto", e, c), inside(c))
			}, next: next},
		&fold{name: "the sum of the last elements", n: n, first: zero, sum: true, cond: except != nil, mods: []*Term{tN}, total: total,
			cur: func(e *Exec, c *Term) *Term {
				t := combine("sumfrom", e, c)
				if except == nil {
					return t
				}
				return without(e, t, And(Le(c, except), inside(n)))
			},
			next: func(e *Exec, c, v *Term) *Term { return next(e, Sub(c, one), v) }})
	return total
}

func mentions(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if mentions(a, x) {
			return true
		}
	}
	for _, m := range t.mons {
		for _, a := range m.atoms {
			if mentions(a, x) {
				return true
			}
		}
	}
	return false
}

// weightFolds: the products of -(a+1) and of idx-a over the elements a other than idx
func (e *Exec) weightFolds(args *SliceV, idx *Term) (num, den *Term) {
	e.nfresh["weight"]++
	id := fmt.Sprintf("%d", e.nfresh["weight"])
	n := args.len
	elem := func(e *Exec, c *Term) *Term {
		return e.big(e.load(e.elemPtr(&Ptr{obj: args.obj, path: args.path}, Add(args.off, c))))
	}
	ap := func(name string, c *Term) *Term { return App(name+id, SInt, nil, nil, c) }
	sg := func(name string, c *Term) *Term { return App(name+id, SInt, I64(-1).val, big1, c) }
	num, den = ap("num", n), ap("den", n)
	sign := sg("sign", n)
	unit := func(t *Term) *Term { return Not(Eq(Mod(t, tN), zero)) }
	e.assume(unit(den))
	e.assume(unit(sign))
	e.assume(unit(Mul(sign, den)))
	mods := []*Term{tN}
	for _, up := range []bool{true, false} {
		up := up
		d := ""
		if !up {
			d = "'"
		}
		step := func(g func(a *Term) *Term) func(e *Exec, c, v *Term) *Term {
			return func(e *Exec, c, v *Term) *Term {
				if !up {
					c = Sub(c, one)
				}
				a := elem(e, c)
				if e.branch(Eq(a, idx)) {
					return v
				}
				return Mul(v, g(a))
			}
		}
		nf := func(a *Term) *Term { return Neg(Add(a, one)) }
		df := func(a *Term) *Term { return Sub(idx, a) }
		N := func(c *Term) *Term { return ap("num"+d, c) }
		D := func(c *Term) *Term { return ap("den"+d, c) }
		S := func(c *Term) *Term { return sg("sign"+d, c) }
		// the value so far over the sign so far, which is its own inverse
		e.folds = append(e.folds,
			&fold{name: "the product of the opposite points", n: n, up: up, cond: true, first: one, total: always(num), mods: mods,
				cur: func(e *Exec, c *Term) *Term { return N(c) }, next: step(nf)},
			&fold{name: "the product of the differences", n: n, up: up, cond: true, first: one, total: always(den), mods: mods,
				cur: func(e *Exec, c *Term) *Term { return D(c) }, next: step(df), facts: func(c *Term) *Term { return unit(D(c)) }},
			&fold{name: "the product of the points", n: n, up: up, cond: true, first: one, total: always(Mul(sign, num)), mods: mods,
				cur: func(e *Exec, c *Term) *Term { return Mul(S(c), N(c)) }, next: step(func(a *Term) *Term { return Neg(nf(a)) })},
			&fold{name: "the product of the opposite differences", n: n, up: up, cond: true, first: one, total: always(Mul(sign, den)), mods: mods,
				cur: func(e *Exec, c *Term) *Term { return Mul(S(c), D(c)) }, next: step(func(a *Term) *Term { return Neg(df(a)) }),
				facts: func(c *Term) *Term { return And(unit(D(c)), unit(Mul(S(c), D(c)))) }},
			&fold{name: "the product of the quotients", n: n, up: up, cond: true, first: one, total: always(Mod(Mul(num, invTerm(Mod(den, tN))), tN)), mods: mods, only: true,
				cur:  func(e *Exec, c *Term) *Term { return Mod(Mul(N(c), invTerm(Mod(D(c), tN))), tN) },
				next: step(func(a *Term) *Term { return Mul(nf(a), invTerm(Mod(df(a), tN))) })})
	}
	return num, den
}
