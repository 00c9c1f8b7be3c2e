package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// SMT back ends. Products of atoms are abstracted as constants (identified up to polynomial normal form), so an answer
// of unsat is a proof; other heads are uninterpreted, with the axioms of axiomsFor.

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	cache   map[string]Res
	queries int
	byRes   [3]int
	byEnd   map[string]int // proofs per back end
	spent   time.Duration
	slowest time.Duration
	timeout int // ms
	dump    *os.File
	last    string // back end of the latest answer
	by      map[string]string
	fast    bool // a failure has been found already
}

func NewSolver() *Solver {
	return &Solver{cache: map[string]Res{}, byEnd: map[string]int{}, timeout: 8000, by: map[string]string{}}
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "z3-new:", err)
		s.cmd = nil
		return
	}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeout)
}

func (s *Solver) setTimeout(ms int) {
	if s.timeout != ms {
		s.timeout = ms
		if s.cmd != nil {
			fmt.Fprintf(s.in, "(set-option :timeout %d)\n", ms)
		}
	}
}

func (s *Solver) hurry() { s.fast = true; s.setTimeout(1500) }
func (s *Solver) relax() { s.fast = false; s.setTimeout(8000) }

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// axiomsFor gives the facts that hold about an atom because of its head.
func axiomsFor(a *Term) []*Term {
	var r []*Term
	if a.kind == KApp {
		switch a.name {
		case "mod":
			if !a.args[1].isConst() {
				t, m := a.args[0], a.args[1]
				q := Div(t, m)
				r = append(r, Implies(Lt(zero, m), And(Le(zero, a), Lt(a, m), Eq(t, Add(Mul(q, m), a)))))
			}
		case "div":
			if !a.args[1].isConst() || a.args[1].val.Sign() <= 0 {
				t, m := a.args[0], a.args[1]
				r = append(r, Implies(Lt(zero, m), Eq(t, Add(Mul(a, m), Mod(t, m)))))
			}
		case "inv":
			u, m := a.args[0], a.args[1]
			r = append(r, Implies(Not(Eq(Mod(u, m), zero)), Eq(Mod(Mul(u, a), m), Mod(one, m))))
		case "BL":
			t := a.args[0]
			r = append(r, Eq(Eq(t, zero), Eq(a, zero)), Eq(Le(a, I64(32)), Lt(t, pow256(32))))
		case "beval":
			// value of a big-endian piece of an unknown string; args: source, offset, length
			l := a.args[2]
			r = append(r, Implies(Le(l, I64(32)), Lt(a, pow256(32))), Implies(Eq(l, zero), Eq(a, zero)), Le(BL(a), l))
		case "imin":
			r = append(r, Or(And(Eq(a, a.args[0]), Le(a, a.args[1])), And(Eq(a, a.args[1]), Le(a, a.args[0]))))
		}
		if f := extraAxioms[a.name]; f != nil {
			r = append(r, f(a)...)
		}
	}
	if a.sort == SInt && a.kind != KConst {
		if a.lo != nil {
			r = append(r, rawGe0(Sub(a, IConst(a.lo))))
		}
		if a.hi != nil {
			r = append(r, rawGe0(Sub(IConst(a.hi), a)))
		}
	}
	return r
}

var extraAxioms = map[string]func(*Term) []*Term{}

// rawGe0 builds p >= 0 without folding it by the declared range
func rawGe0(p *Term) *Term {
	return intern(&Term{kind: KGe0, sort: SBool, args: []*Term{p}, str: "raw"})
}

func pow256(k int64) *Term {
	return IConst(new(big.Int).Lsh(big1, uint(8*k)))
}

type emitter struct {
	decl   []string
	seen   map[*Term]string
	funs   map[string]bool
	axq    []*Term
	axseen map[*Term]bool
	nl     bool // emit products as products
	mono   map[string]string
	vars   []*Term
}

func (e *emitter) sortName(s Sort) string { return [...]string{"Int", "Bool", "B"}[s] }

func sym(s string) string { return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(s) + "|" }

func (e *emitter) num(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (e *emitter) emit(t *Term) string {
	if s, ok := e.seen[t]; ok {
		return s
	}
	var s string
	switch t.kind {
	case KConst:
		s = e.num(t.val)
	case KTrue:
		s = "true"
	case KFalse:
		s = "false"
	case KVar:
		s = sym(t.name)
		if e.funs["variable "+s] {
			s = sym(fmt.Sprintf("%s#%d", t.name, t.id))
		}
		e.funs["variable "+s] = true
		e.decl = append(e.decl, fmt.Sprintf("(declare-const %s %s)", s, e.sortName(t.sort)))
		e.vars = append(e.vars, t)
	case KApp:
		var as []string
		for _, a := range t.args {
			as = append(as, e.emit(a))
		}
		switch {
		case (t.name == "mod" || t.name == "div") && t.args[1].isConst() && t.args[1].val.Sign() > 0:
			s = "(" + t.name + " " + as[0] + " " + as[1] + ")"
		case t.name == "ite":
			s = "(ite " + strings.Join(as, " ") + ")"
		default:
			sig := ""
			for _, a := range t.args {
				sig += e.sortName(a.sort)[:1]
			}
			f := sym(t.name + "/" + sig)
			if !e.funs[f] {
				e.funs[f] = true
				var ss []string
				for _, a := range t.args {
					ss = append(ss, e.sortName(a.sort))
				}
				e.decl = append(e.decl, fmt.Sprintf("(declare-fun %s (%s) %s)", f, strings.Join(ss, " "), e.sortName(t.sort)))
			}
			if len(as) == 0 {
				s = f
			} else {
				s = "(" + f + " " + strings.Join(as, " ") + ")"
			}
		}
	case KPoly:
		var ms []string
		for _, m := range t.mons {
			var body string
			switch len(m.atoms) {
			case 0:
				ms = append(ms, e.num(m.c))
				continue
			case 1:
				body = e.emit(m.atoms[0])
			default:
				var as []string
				for _, a := range m.atoms {
					as = append(as, e.emit(a))
				}
				if e.nl {
					body = "(* " + strings.Join(as, " ") + ")"
				} else {
					k := atomsKey(m.atoms)
					n, ok := e.mono[k]
					if !ok {
						n = fmt.Sprintf("|mono%d|", len(e.mono))
						e.mono[k] = n
						e.decl = append(e.decl, "(declare-const "+n+" Int)")
						var lo, hi *big.Int = big1, big1
						for _, a := range m.atoms {
							lo, hi = mulRange(lo, hi, a.lo, a.hi)
						}
						if lo != nil {
							e.decl = append(e.decl, fmt.Sprintf("(assert (>= %s %s))", n, e.num(lo)))
						}
						if hi != nil {
							e.decl = append(e.decl, fmt.Sprintf("(assert (<= %s %s))", n, e.num(hi)))
						}
						// a product is zero iff a factor is
						var zs []string
						for _, a := range as {
							zs = append(zs, "(= "+a+" 0)")
						}
						e.decl = append(e.decl, fmt.Sprintf("(assert (= (= %s 0) (or %s)))", n, strings.Join(zs, " ")))
					}
					body = n
				}
			}
			if m.c.Cmp(big1) == 0 {
				ms = append(ms, body)
			} else {
				ms = append(ms, "(* "+e.num(m.c)+" "+body+")")
			}
		}
		if len(ms) == 1 {
			s = ms[0]
		} else {
			s = "(+ " + strings.Join(ms, " ") + ")"
		}
	case KGe0:
		s = "(>= " + e.emit(t.args[0]) + " 0)"
	case KEq0:
		s = "(= " + e.emit(t.args[0]) + " 0)"
	case KEqA:
		s = "(= " + e.emit(t.args[0]) + " " + e.emit(t.args[1]) + ")"
	case KNot:
		s = "(not " + e.emit(t.args[0]) + ")"
	case KAnd, KOr:
		var as []string
		for _, a := range t.args {
			as = append(as, e.emit(a))
		}
		op := "and"
		if t.kind == KOr {
			op = "or"
		}
		s = "(" + op + " " + strings.Join(as, " ") + ")"
	}
	e.seen[t] = s
	if (t.kind == KVar || t.kind == KApp) && !e.axseen[t] {
		e.axseen[t] = true
		e.axq = append(e.axq, t)
	}
	return s
}

func script(asserts []*Term, nl bool) (string, *emitter) {
	e := &emitter{seen: map[*Term]string{}, funs: map[string]bool{}, axseen: map[*Term]bool{}, nl: nl, mono: map[string]string{}}
	var body []string
	for _, a := range asserts {
		body = append(body, "(assert "+e.emit(a)+")")
	}
	for i := 0; i < len(e.axq) && i < 3000; i++ {
		for _, ax := range axiomsFor(e.axq[i]) {
			if ax.kind == KTrue {
				continue
			}
			body = append(body, "(assert "+e.emit(ax)+")")
		}
	}
	return "(declare-sort B 0)\n" + strings.Join(e.decl, "\n") + "\n" + strings.Join(body, "\n") + "\n", e
}

func qkey(asserts []*Term) string {
	ids := make([]int, len(asserts))
	for i, a := range asserts {
		ids[i] = a.id
	}
	sort.Ints(ids)
	return fmt.Sprint(ids)
}

// slice keeps the assertions that share atoms, directly or through others, with the goal
func sliceFor(goal *Term, pc []*Term) []*Term {
	atoms := map[*Term]bool{}
	collect := func(t *Term, out map[*Term]bool) {
		var rec func(t *Term)
		seen := map[*Term]bool{}
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.kind == KVar {
				out[t] = true
			}
			if t.kind == KApp && len(t.args) == 0 {
				out[t] = true
			}
			for _, a := range t.args {
				rec(a)
			}
			for _, m := range t.mons {
				for _, a := range m.atoms {
					rec(a)
				}
			}
		}
		rec(t)
	}
	collect(goal, atoms)
	used := make([]bool, len(pc))
	sets := make([]map[*Term]bool, len(pc))
	for i, p := range pc {
		sets[i] = map[*Term]bool{}
		collect(p, sets[i])
	}
	var out []*Term
	for ch := true; ch; {
		ch = false
		for i := range pc {
			if used[i] {
				continue
			}
			hit := len(sets[i]) == 0
			for a := range sets[i] {
				if atoms[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, pc[i])
				for a := range sets[i] {
					atoms[a] = true
				}
			}
		}
	}
	return out
}

func (s *Solver) raw(text string) (Res, string) {
	if s.cmd == nil {
		s.start()
		if s.cmd == nil {
			return Unknown, ""
		}
	}
	type ans struct {
		r Res
		m string
	}
	ch := make(chan ans, 1)
	go func() {
		io.WriteString(s.in, "(push)\n"+text+"(check-sat)\n")
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				ch <- ans{Unknown, "dead"}
				return
			}
			switch l = strings.TrimSpace(l); {
			case l == "unsat":
				ch <- ans{Unsat, ""}
				return
			case l == "sat":
				ch <- ans{Sat, ""}
				return
			case l == "unknown" || l == "timeout":
				ch <- ans{Unknown, ""}
				return
			case strings.HasPrefix(l, "(error"):
				fmt.Fprintln(os.Stderr, "z3:", l)
			}
		}
	}()
	select {
	case a := <-ch:
		if a.m == "dead" {
			s.stop()
		}
		return a.r, ""
	case <-time.After(time.Duration(s.timeout+4000) * time.Millisecond):
		s.stop()
		return Unknown, "killed"
	}
}

func oneShot(argv []string, text string, ms int) Res {
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + text + "(check-sat)\n")
	var sb strings.Builder
	cmd.Stdout = &sb
	if cmd.Start() != nil {
		return Unknown
	}
	done := make(chan bool)
	go func() { cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Duration(ms) * time.Millisecond):
		cmd.Process.Kill()
		<-done
	}
	switch l := strings.TrimSpace(sb.String()); {
	case strings.HasPrefix(l, "unsat"):
		return Unsat
	case strings.HasPrefix(l, "sat"):
		return Sat
	}
	return Unknown
}

// check decides satisfiability of a conjunction. effort 0: branch feasibility; 1: obligations.
func (s *Solver) check(asserts []*Term, effort int) Res {
	for _, a := range asserts {
		if a.kind == KFalse {
			return Unsat
		}
	}
	c := And(asserts...)
	if c.kind == KFalse {
		s.last = "normaliser"
		return Unsat
	}
	if c.kind == KTrue {
		return Sat
	}
	k := fmt.Sprint(effort, "/") + qkey(asserts)
	if r, ok := s.cache[k]; ok {
		s.last = s.by[k]
		return r
	}
	t0 := time.Now()
	text, _ := script(asserts, false)
	r, _ := s.raw(text)
	if s.cmd != nil {
		io.WriteString(s.in, "(pop)\n")
	}
	end := "z3-5.3.2"
	if r == Unknown && effort > 0 && !s.fast {
		if r2 := oneShot([]string{"cvc5", "--lang=smt2"}, text, 10000); r2 != Unknown {
			r, end = r2, "cvc5-1.1.2"
		} else if r2 := oneShot([]string{"z3", "-in"}, text, 10000); r2 != Unknown {
			r, end = r2, "z3-4.8.12"
		}
	}
	if r != Unsat && effort > 0 && !s.fast {
		nt, e := script(asserts, true)
		if len(e.mono) > 0 || strings.Contains(nt, "(* |") {
			if r2 := oneShot([]string{"z3-new", "-in", "-T:5"}, nt, 6000); r2 == Unsat {
				r, end = r2, "z3-5.3.2 (nonlinear)"
			}
		}
	}
	d := time.Since(t0)
	s.queries++
	s.spent += d
	if d > s.slowest {
		s.slowest = d
	}
	s.byRes[r]++
	if r == Unsat {
		s.byEnd[end]++
	}
	if d > 2*time.Second && os.Getenv("GOVC_SLOW") != "" {
		fmt.Fprintf(os.Stderr, "slow query %v -> %v\n", d, r)
		for _, a := range asserts {
			fmt.Fprintln(os.Stderr, "   ", a)
		}
	}
	s.cache[k] = r
	s.last, s.by[k] = end, end
	return r
}

// model returns values for the variables and atoms of a satisfiable conjunction
func (s *Solver) model(asserts []*Term, want []*Term) map[*Term]*big.Int {
	text, e := script(append([]*Term{}, asserts...), false)
	var names []string
	var ts []*Term
	for _, w := range want {
		if n, ok := e.seen[w]; ok && w.sort == SInt && w.kind != KConst {
			names = append(names, n)
			ts = append(ts, w)
		}
	}
	if len(names) == 0 {
		return nil
	}
	full := text + "(check-sat)\n(get-value (" + strings.Join(names, " ") + "))\n"
	cmd := exec.Command("z3-new", "-in", "-smt2", "-T:10")
	cmd.Stdin = strings.NewReader("(set-option :produce-models true)\n" + full)
	out, _ := cmd.Output()
	o := string(out)
	if !strings.HasPrefix(o, "sat") {
		return nil
	}
	vals := parseValues(o[3:])
	m := map[*Term]*big.Int{}
	for i, v := range vals {
		if i < len(ts) {
			m[ts[i]] = v
		}
	}
	return m
}

// parseValues reads the values of a get-value answer in order
func parseValues(s string) []*big.Int {
	// ((name value) (name value) ...)
	var out []*big.Int
	depth := 0
	i := 0
	readVal := func(s string) *big.Int {
		s = strings.TrimSpace(s)
		neg := false
		if strings.HasPrefix(s, "(-") {
			neg = true
			s = strings.Trim(s, "()- \n")
		}
		v, ok := new(big.Int).SetString(strings.TrimSpace(s), 10)
		if !ok {
			return new(big.Int)
		}
		if neg {
			v.Neg(v)
		}
		return v
	}
	start := -1
	inBar := false
	for ; i < len(s); i++ {
		c := s[i]
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			if depth == 2 {
				start = i
			}
		}
		if c == ')' {
			depth--
			if depth == 1 && start >= 0 {
				pair := s[start+1 : i]
				// the value is the last s-expression
				p := strings.TrimSpace(pair)
				var v string
				if strings.HasSuffix(p, ")") {
					d := 0
					j := len(p) - 1
					for ; j >= 0; j-- {
						if p[j] == ')' {
							d++
						}
						if p[j] == '(' {
							d--
							if d == 0 {
								break
							}
						}
					}
					v = p[j:]
				} else {
					j := strings.LastIndexAny(p, " \n\t")
					v = p[j+1:]
				}
				out = append(out, readVal(v))
				start = -1
			}
		}
	}
	return out
}
