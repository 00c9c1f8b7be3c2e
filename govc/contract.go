package main

// Contract files: preconditions and postconditions of functions of the repository, used both to verify the body and,
// at call sites, in place of the body.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type param struct{ name, kind string }

type clause struct {
	text string
	x    ast.Expr
}

type Contract struct {
	Key      string
	Params   []param
	Results  []param
	Requires []clause
	Ensures  []clause
	Appends  map[string]clause // writer -> bytes appended when no error is returned
	Parses   map[string]string // reader -> result: the reader starts with the encoding of the result
	Aliases  [][]string
	Shared   bool
	Total    bool // ends at call sites too: assumed on all arguments that satisfy the precondition
	File     string
}

func (c *Contract) short() string { return c.Key }

func parseContracts(dir string) (map[string]*Contract, error) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	out := map[string]*Contract{}
	for _, fn := range files {
		b, err := os.ReadFile(fn)
		if err != nil {
			return nil, err
		}
		var c *Contract
		for ln, line := range strings.Split(string(b), "\n") {
			if i := strings.Index(line, "//"); i >= 0 {
				line = line[:i]
			}
			line = strings.TrimSpace(line)
			if line == "" {
				continue
			}
			w, rest, _ := strings.Cut(line, " ")
			rest = strings.TrimSpace(rest)
			bad := func(err error) error { return fmt.Errorf("%s:%d: %v", fn, ln+1, err) }
			expr := func(s string) (clause, error) {
				x, err := parser.ParseExpr(s)
				return clause{s, x}, err
			}
			switch w {
			case "contract":
				c = &Contract{Appends: map[string]clause{}, Parses: map[string]string{}, File: filepath.Base(fn)}
				i := strings.Index(rest, "(")
				c.Key = strings.TrimSpace(rest[:i])
				rest = rest[i:]
				groups := strings.SplitN(rest, ")", 3)
				ps := func(s string) []param {
					var r []param
					for _, x := range strings.Split(strings.TrimLeft(strings.TrimSpace(s), "("), ",") {
						f := strings.Fields(x)
						if len(f) == 2 {
							r = append(r, param{f[0], f[1]})
						}
					}
					return r
				}
				c.Params = ps(groups[0])
				if len(groups) > 1 {
					c.Results = ps(groups[1])
				}
				out[c.Key] = c
			case "requires", "ensures":
				x, err := expr(rest)
				if err != nil {
					return nil, bad(err)
				}
				if w == "requires" {
					c.Requires = append(c.Requires, x)
				} else {
					c.Ensures = append(c.Ensures, x)
				}
			case "appends":
				wn, ex, _ := strings.Cut(rest, " ")
				x, err := expr(ex)
				if err != nil {
					return nil, bad(err)
				}
				c.Appends[wn] = x
			case "parses":
				f := strings.Fields(rest)
				c.Parses[f[0]] = f[1]
			case "aliases":
				c.Aliases = append(c.Aliases, strings.Fields(rest))
			case "shared":
				c.Shared = true
			default:
				return nil, bad(fmt.Errorf("unknown clause %q", w))
			}
		}
	}
	return out, nil
}

// keyOf names the contract that governs a function, if any
func (v *Verifier) keyOf(fn *ssa.Function) string {
	if fn.Signature.Recv() != nil {
		rt := fn.Signature.Recv().Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		n, ok := rt.(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return ""
		}
		if n.Obj().Pkg().Path() == repoPath+"/pkg/curve" {
			if gi := v.groupIface(); gi != nil && (types.Implements(n, gi) || types.Implements(types.NewPointer(n), gi)) {
				for i := 0; i < gi.NumMethods(); i++ {
					if gi.Method(i).Name() == fn.Name() {
						return "curve.Group." + fn.Name()
					}
				}
			}
		}
		return ""
	}
	if fn.Parent() == nil && fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), repoPath) {
		p := strings.TrimPrefix(strings.TrimPrefix(fn.Pkg.Pkg.Path(), repoPath), "/pkg/")
		return p + "." + fn.Name()
	}
	return ""
}

func (v *Verifier) groupIface() *types.Interface {
	p := v.pkgs[repoPath+"/pkg/curve"]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup("Group")
	if o == nil {
		return nil
	}
	i, _ := o.Type().Underlying().(*types.Interface)
	return i
}

func (v *Verifier) contractAt(e *Exec, fn *ssa.Function, args []Val) *Contract {
	k := v.keyOf(fn)
	if k == "" {
		return nil
	}
	c := v.contracts[k]
	if c == nil || e.noContract[k] {
		return nil
	}
	if k == e.target && !e.entered {
		if fn.Synthetic == "" {
			e.entered = true
		}
		return nil
	}
	return c
}

// ---- evaluation of contract expressions

type cenv struct {
	e      *Exec
	m      map[string]Val
	old    map[ast.Expr]Val
	verify bool
}

func (c *cenv) term(x ast.Expr) *Term {
	v := c.eval(x)
	t, ok := v.(*Term)
	if !ok {
		c.e.unsupported(fmt.Sprintf("contract expression of kind %T", v))
	}
	return t
}

func (c *cenv) rope(x ast.Expr) Rope {
	switch r := c.eval(x).(type) {
	case Rope:
		return r
	case *SliceV:
		return c.e.bytesOf(r)
	case StrV:
		return r.r
	}
	c.e.unsupported("contract expression: bytes expected")
	return nil
}

func (c *cenv) eval(x ast.Expr) Val {
	e := c.e
	switch n := x.(type) {
	case *ast.ParenExpr:
		return c.eval(n.X)
	case *ast.BasicLit:
		if n.Kind == token.INT {
			t, _ := bigFromString(n.Value)
			return t
		}
	case *ast.Ident:
		switch n.Name {
		case "N":
			return tN
		case "P":
			return tP
		case "true":
			return tTrue
		case "false":
			return tFalse
		}
		if v, ok := c.m[n.Name]; ok {
			return v
		}
	case *ast.UnaryExpr:
		switch n.Op {
		case token.SUB:
			return Neg(c.term(n.X))
		case token.NOT:
			return Not(c.term(n.X))
		}
	case *ast.BinaryExpr:
		switch n.Op {
		case token.LAND:
			return And(c.term(n.X), c.term(n.Y))
		case token.LOR:
			return Or(c.term(n.X), c.term(n.Y))
		}
		a, b := c.eval(n.X), c.eval(n.Y)
		if n.Op == token.EQL || n.Op == token.NEQ {
			var t *Term
			switch p := a.(type) {
			case *Term:
				t = Eq(p, b.(*Term))
			default:
				t = e.ropeEq(c.rope(n.X), c.rope(n.Y))
			}
			if n.Op == token.NEQ {
				t = Not(t)
			}
			return t
		}
		p, q := a.(*Term), b.(*Term)
		switch n.Op {
		case token.ADD:
			return Add(p, q)
		case token.SUB:
			return Sub(p, q)
		case token.MUL:
			return Mul(p, q)
		case token.REM:
			return Mod(p, q)
		case token.QUO:
			return Div(p, q)
		case token.LSS:
			return Lt(p, q)
		case token.LEQ:
			return Le(p, q)
		case token.GTR:
			return Lt(q, p)
		case token.GEQ:
			return Le(q, p)
		}
	case *ast.CallExpr:
		f := n.Fun.(*ast.Ident).Name
		switch f {
		case "dl":
			d, ok := e.dlOf(c.eval(n.Args[0]))
			if !ok {
				return e.fresh("nopoint", SInt, nil, nil)
			}
			return d
		case "isPoint":
			_, ok := e.dlOf(c.eval(n.Args[0]))
			return Bool(ok)
		case "val":
			return e.big(c.eval(n.Args[0]))
		case "enc":
			return Rope{encSeg(c.term(n.Args[0]))}
		case "cat":
			var r Rope
			for _, a := range n.Args {
				r = cat(r, c.rope(a))
			}
			return r
		case "old":
			if v, ok := c.old[n]; ok {
				return v
			}
			return c.eval(n.Args[0])
		case "implies":
			p := c.term(n.Args[0])
			if p.kind == KFalse {
				return tTrue
			}
			return Implies(p, c.term(n.Args[1]))
		case "isnil":
			iv, ok := c.eval(n.Args[0]).(*IfaceV)
			if !ok {
				e.unsupported("isnil")
			}
			return Bool(iv.typ == nil)
		case "H":
			return e.hashSpec(c.rope(n.Args[0]), c.verify)
		}
	}
	e.unsupported(fmt.Sprintf("contract expression %T", x))
	return nil
}

// hashSpec is the specified hash of a string
func (e *Exec) hashSpec(msg Rope, unfold bool) *Term {
	msg = norm(msg)
	if !unfold {
		return App("H", SInt, big0, tN1, msg.term())
	}
	src := App("hkdf:crypto/sha256.New", SBytes, nil, nil, msg.term(), Rope{cseg([]byte("ThresholdECDSA"))}.term(),
		Rope{cseg([]byte{'H', '2', 'F', 0, 1})}.term())
	return Mod(Rope{rseg(src, zero, I64(48))}.beVal(), tN)
}

// ---- verification of a body against its contract

func (e *Exec) genArg(p param) Val {
	switch p.kind {
	case "point":
		d := Var("dl."+p.name, SInt, big0, tN1)
		e.inputs["dl."+p.name] = d
		return e.newPoint(d)
	case "nat":
		x := Var(p.name, SInt, big0, nil)
		e.inputs[p.name] = x
		q := e.newBig(x)
		q.obj.frozen = true
		q.obj.name = "the operand " + p.name
		return q
	case "bytes":
		s := e.newBytes(e.rawRope(p.name, ""), "the operand "+p.name)
		s.obj.frozen = true
		return s
	case "writer":
		return &IfaceV{typ: mkWriter, v: &Ptr{obj: e.newObj(nil, &WriterV{name: p.name, canFail: true, failed: tFalse}, "writer")}}
	case "reader":
		return &IfaceV{typ: mkStream, v: &Ptr{obj: e.newObj(nil, &StreamV{name: p.name, in: e.rawRope(p.name, "")}, "reader")}}
	}
	e.unsupported("parameter kind " + p.kind)
	return nil
}

func writerOf(e *Exec, v Val) *WriterV { return e.load(v.(*IfaceV).v.(*Ptr)).(*WriterV) }
func readerOf(e *Exec, v Val) *StreamV { return e.load(v.(*IfaceV).v.(*Ptr)).(*StreamV) }

func (v *Verifier) verifyContract(unit string) {
	// KEY#1: only inputs that start with an encoding, KEY#0: any input
	key, only, _ := strings.Cut(unit, "#")
	c := v.contracts[key]
	variants := []string{""}
	for i := range c.Aliases {
		variants = append(variants, fmt.Sprint(i))
	}
	v.run("contract "+unit, func(e *Exec) {
		e.target = key
		al := e.choose(len(c.Aliases) + 1)
		mode := 0
		if len(c.Parses) > 0 {
			switch only {
			case "0", "1":
				mode = int(only[0] - '0')
			default:
				mode = e.choose(2)
			}
		}
		var fn *ssa.Function
		var recv []Val
		if strings.HasPrefix(key, "curve.Group.") {
			mk := v.pkgs[repoPath+"/pkg/curve"].Func("NewSecp256k1Group")
			if mk == nil {
				e.unsupported("NewSecp256k1Group is gone")
			}
			g, ok := e.call(mk, nil, nil).(*IfaceV)
			if !ok || g.typ == nil {
				e.fail("NewSecp256k1Group returns a group", "no group", nil)
				panic(pathEnd{"no group"})
			}
			e.freeze(g, "the group")
			fn = v.prog.LookupMethod(g.typ, nil, strings.TrimPrefix(key, "curve.Group."))
			recv = []Val{g.v}
		} else {
			i := strings.LastIndex(key, ".")
			p := v.pkgs[repoPath+"/pkg/"+key[:i]]
			if p != nil {
				fn = p.Func(key[i+1:])
			}
		}
		if fn == nil {
			e.unsupported("function " + key + " is gone")
		}
		env := &cenv{e: e, m: map[string]Val{}, old: map[ast.Expr]Val{}, verify: true}
		var args []Val
		for _, p := range c.Params {
			a := e.genArg(p)
			env.m[p.name] = a
			args = append(args, a)
		}
		if al > 0 {
			names := c.Aliases[al-1]
			for i, p := range c.Params {
				for _, n := range names[1:] {
					if p.name == n {
						args[i] = env.m[names[0]]
						env.m[n] = env.m[names[0]]
					}
				}
			}
		}
		var parseD *Term
		var parseRest Rope
		if mode == 1 {
			for r := range c.Parses {
				parseD = Var("dl.encoded", SInt, big0, tN1)
				e.inputs["dl.encoded"] = parseD
				parseRest = e.rawRope("rest", "")
				p := env.m[r].(*IfaceV).v.(*Ptr)
				s := *e.load(p).(*StreamV)
				s.in = cat(Rope{encSeg(parseD)}, parseRest)
				p.obj.val = &s
			}
		}
		for _, r := range c.Requires {
			e.assume(env.term(r.x))
		}
		e.checkFeasible(key)
		pre := map[string]Rope{}
		for w := range c.Appends {
			pre[w] = writerOf(e, env.m[w]).out
		}
		preIn := map[string]Rope{}
		for r := range c.Parses {
			preIn[r] = readerOf(e, env.m[r]).in
		}
		res := e.call(fn, append(append([]Val{}, recv...), args...), nil)
		e.drain()
		var rs []Val
		switch x := res.(type) {
		case nil:
		case TupleV:
			rs = x
		default:
			rs = []Val{x}
		}
		if len(rs) != len(c.Results) {
			e.unsupported("result count of " + key)
		}
		for i, r := range c.Results {
			env.m[r.name] = rs[i]
		}
		errNil := tTrue
		for i, r := range c.Results {
			if r.kind == "error" {
				iv, ok := rs[i].(*IfaceV)
				if !ok {
					e.unsupported("error result")
				}
				errNil = Bool(iv.typ == nil)
			}
		}
		for i, r := range c.Results {
			if r.kind == "point" && errNil.kind == KTrue {
				_, ok := e.dlOf(rs[i])
				e.prove("post", key+": result is a group element", Bool(ok))
			}
		}
		for _, x := range c.Ensures {
			if strings.Contains(x.text, "dl(") && errNil.kind == KFalse {
				continue
			}
			e.prove("post", key+": "+x.text, env.term(x.x))
		}
		for w, x := range c.Appends {
			ww := writerOf(e, env.m[w])
			if errNil.kind == KTrue {
				e.prove("post", key+": appends "+w+" "+x.text, e.ropeEq(ww.out, cat(pre[w], env.rope(x.x))))
			}
			e.prove("post", key+": error exactly when writing failed", Eq(errNil, Not(ww.failed)))
		}
		for r, result := range c.Parses {
			in := readerOf(e, env.m[r]).in
			if mode == 1 {
				e.prove("post", key+": an encoding is accepted", errNil)
				d, ok := e.dlOf(env.m[result])
				if !ok {
					e.prove("post", key+": decoding returns the encoded element", tFalse)
				}
				e.prove("post", key+": decoding returns the encoded element", Eq(d, parseD))
				e.prove("post", key+": exactly the encoding is consumed", e.ropeEq(in, parseRest))
			} else if errNil.kind == KTrue {
				// what was accepted had the length it announced
				all := preIn[r]
				used := Sub(all.Len(), norm(in).Len())
				e.prove("post", key+": at least a length is present", Le(I64(4), all.Len()))
				l1 := e.fixedVal(e.ropeSub(all, zero, I64(4)), 4, false)
				if e.branch(Eq(l1, zero)) {
					e.prove("post", key+": four bytes consumed for the neutral element", Eq(used, I64(4)))
					d, ok := e.dlOf(env.m[result])
					e.prove("post", key+": a zero length is the neutral element", And(Bool(ok), Eq(d, zero)))
				} else {
					e.prove("post", key+": both lengths are present", Le(I64(8), all.Len()))
					l2 := e.fixedVal(e.ropeSub(all, I64(4), I64(4)), 4, false)
					e.prove("post", key+": the announced length is consumed", Eq(used, Add(I64(8), l1, l2)))
					e.prove("post", key+": at most 72 bytes are consumed", Le(used, I64(72)))
					d, ok := e.dlOf(env.m[result])
					e.prove("post", key+": coordinates are not the neutral element", And(Bool(ok), Not(Eq(d, zero))))
				}
			}
		}
	})
}

// checkFeasible is the guard against contradictory preconditions
func (e *Exec) checkFeasible(what string) {
	if e.v.solver.check(e.pc, 0) == Unsat {
		panic(pathEnd{"infeasible"})
	}
	e.v.reached["precondition"]++
}

// ---- application at call sites

func (e *Exec) applyContract(c *Contract, fn *ssa.Function, args []Val) Val {
	e.v.applied[c.Key] = true
	if fn.Signature.Recv() != nil {
		if p, ok := args[0].(*Ptr); ok && p.obj == nil {
			e.safety("nil dereference", tFalse)
		}
		args = args[1:]
	}
	env := &cenv{e: e, m: map[string]Val{}, old: map[ast.Expr]Val{}}
	if len(args) != len(c.Params) {
		e.unsupported("parameters of " + c.Key)
	}
	for i, p := range c.Params {
		env.m[p.name] = args[i]
		switch p.kind {
		case "point":
			d, ok := e.dlOf(args[i])
			if !ok {
				e.prove("pre", c.Key+": "+p.name+" is a group element, in "+e.fnName(), tFalse)
			}
			env.m[p.name] = e.newPoint(d)
		case "nat":
			e.prove("pre", c.Key+": "+p.name+" is not negative, in "+e.fnName(), Le(zero, e.big(args[i])))
		}
	}
	for _, r := range c.Requires {
		e.prove("pre", c.Key+": "+r.text+", in "+e.fnName(), env.term(r.x))
	}
	// writers
	for w, x := range c.Appends {
		r := e.writeTo(env.m[w], env.rope(x.x)).(TupleV)
		return r[1]
	}
	for r := range c.Parses {
		return e.applyParse(c, env.m[r])
	}
	// results by definition
	var rs TupleV
	for _, r := range c.Results {
		var def *Term
		for _, x := range c.Ensures {
			b, ok := x.x.(*ast.BinaryExpr)
			if !ok || b.Op != token.EQL {
				continue
			}
			switch l := b.X.(type) {
			case *ast.CallExpr:
				if id, ok := l.Args[0].(*ast.Ident); ok && id.Name == r.name {
					def = env.term(b.Y)
				}
			case *ast.Ident:
				if l.Name == r.name {
					def = env.term(b.Y)
				}
			}
		}
		if def == nil {
			e.unsupported("contract " + c.Key + " does not define " + r.name)
		}
		switch r.kind {
		case "point":
			rs = append(rs, e.newPoint(def))
		case "nat":
			p := e.newBig(def)
			if c.Shared {
				p.obj.frozen = true
				p.obj.name = "the shared group order"
			}
			rs = append(rs, p)
		default:
			rs = append(rs, def)
		}
	}
	if len(rs) == 1 {
		return rs[0]
	}
	return rs
}

// applyParse: decoding an element at a call site
func (e *Exec) applyParse(c *Contract, r Val) Val {
	in, take, _ := e.source(r)
	in = norm(in)
	if len(in) > 0 && in[0].k == SSpec && in[0].src.name == "enc" {
		take(in[0].n)
		return TupleV{e.newPoint(in[0].src.args[0]), nilIface}
	}
	if len(in) > 0 && in[0].k == SConst && len(in[0].b) >= 4 && string(in[0].b[:4]) == "\x00\x00\x00\x00" {
		take(I64(4))
		return TupleV{e.newPoint(zero), nilIface}
	}
	// the outcome is determined by the bytes
	if t := in.term(); !e.branch(Eq(App("accepts", SInt, big0, big1, t), one)) {
		// rejected; an unknown part is consumed
		n := e.fresh("consumed", SInt, big0, nil)
		if !e.feasible(Le(n, in.Len())) {
			panic(pathEnd{"infeasible"})
		}
		e.assume(Le(n, in.Len()))
		take(n)
		e.parses = append(e.parses, parse{in, nil})
		return TupleV{&IfaceV{}, e.newErr("decoding failed")}
	}
	// accepted: what was announced is present and consumed
	need := func(c *Term) {
		if !e.feasible(c) {
			panic(pathEnd{"infeasible"})
		}
		e.assume(c)
	}
	need(Le(I64(4), in.Len()))
	l1 := e.fixedVal(e.ropeSub(in, zero, I64(4)), 4, false)
	d := App("decoded", SInt, big0, tN1, in.term())
	if e.branch(Eq(l1, zero)) {
		take(I64(4))
		e.assume(Eq(d, zero))
		e.parses = append(e.parses, parse{in, zero})
		return TupleV{e.newPoint(zero), nilIface}
	}
	need(Le(I64(8), in.Len()))
	l2 := e.fixedVal(e.ropeSub(in, I64(4), I64(4)), 4, false)
	used := Add(I64(8), l1, l2)
	need(Le(used, in.Len()))
	need(Le(used, I64(72)))
	take(used)
	e.assume(Le(one, d))
	e.parses = append(e.parses, parse{in, d})
	return TupleV{e.newPoint(d), nilIface}
}
