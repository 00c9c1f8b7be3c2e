package main

// The driver of the checks: which obligations decide which property, and what is reported.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Property tells how a property is decided
type Property struct {
	ID            string
	Pkg           string            // the lemma package, under /verif/lemmas
	Extra         []string          // further packages to load
	Overlay       map[string]string // /repo file -> /verif file: gives lemmas access to unexported names
	Renamed       map[string]string // lemma package -> program of /repo whose files it consists of, "package main" replaced
	Contracts     []string          // contracts whose obligations decide the property
	Deps          []string          // contracts that are used; one that does not hold is dropped and the body inlined
	Lemmas        []string
	Replay        []string // further lemmas to run concretely, beside Lemmas
	Kinds         string   // regular expression over "kind: name" of the obligations that count
	NotKinds      string
	Frames        bool // whether frame obligations count
	OnlyFrame     bool
	Lean          []string // files of /verif/lean
	Bounded       string   // for lemmas that are bounded: the bound
	BoundedLemmas []string
	Unbounded     []string // lemmas about loops over slices of unknown length: undecided if no invariant is found
	Assume        []string
	known         []*finding
	ReplayTime    int // seconds per lemma when an obligation has failed
}

type unitResult struct {
	Unit      string
	Undecided bool
	Obls      map[string]*Obl
	Failures  []*Failure
	Paths     int
	Reached   map[string]int
	Inlined   []string
	Applied   []string
	Modelled  []string
	Weak      []string
	Queries   int
	SolverS   float64
	WallS     float64
}

func (v *Verifier) result(t0 time.Time, q0 int, s0 time.Duration) *unitResult {
	keys := func(m map[string]bool) []string {
		var r []string
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	return &unitResult{Unit: v.unit, Obls: v.obls, Failures: v.failures, Paths: v.paths, Reached: v.reached,
		Inlined: keys(v.inlined), Applied: keys(v.applied), Modelled: keys(v.modelled), Weak: keys(v.havocked),
		Queries: v.solver.queries - q0, SolverS: (v.solver.spent - s0).Seconds(), WallS: time.Since(t0).Seconds()}
}

// runUnit verifies one contract ("@key") or lemma
func (v *Verifier) runUnit(pkg, u string, limit time.Duration) *unitResult {
	v.deadline = time.Now().Add(limit)
	t0, q0, s0 := time.Now(), v.solver.queries, v.solver.spent
	if strings.HasPrefix(u, "@") {
		if k, _, _ := strings.Cut(u[1:], "#"); v.contracts[k] == nil {
			v.reset("contract " + u[1:])
			v.failed(&Failure{Obl: "supported: contract " + u[1:], Desc: "no such contract"})
		} else {
			v.verifyContract(u[1:])
		}
	} else {
		v.runLemma(pkg, u)
	}
	r := v.result(t0, q0, s0)
	r.Undecided = v.undecided && len(r.Failures) > 0
	return r
}

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

type overlayT struct{ Replace map[string]string }

var packageMain = regexp.MustCompile(`(?m)^package main\b`)

// files are the source files that are added to those on disk
func (p *Property) files() (map[string][]byte, error) {
	ov := map[string][]byte{}
	for k, f := range p.Overlay {
		b, err := os.ReadFile(filepath.Join(verifDir, f))
		if err != nil {
			return nil, err
		}
		dir := filepath.Dir(k)
		if d, ok := p.Renamed[filepath.Base(dir)]; ok {
			dir = d
		}
		ov[k] = present(b, dir)
	}
	for pkg, dir := range p.Renamed {
		fs, _ := filepath.Glob(dir + "/*.go")
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			at := packageMain.FindIndex(b)
			if at == nil {
				return nil, fmt.Errorf("%s: no package clause", f)
			}
			b = append(append(append([]byte{}, b[:at[0]]...), "package "+pkg...), b[at[1]:]...)
			ov[filepath.Join(verifDir, "lemmas", pkg, filepath.Base(f))] = b
		}
	}
	return ov, nil
}

func (p *Property) load(modfile string) (*Verifier, error) {
	ov, err := p.files()
	if err != nil {
		return nil, err
	}
	v, err := load(filepath.Join(verifDir, "lemmas"), modfile, ov, append([]string{"lemmas/" + p.Pkg}, p.Extra...)...)
	if err != nil {
		return nil, err
	}
	v.contracts, err = parseContracts(filepath.Join(verifDir, "contracts"))
	return v, err
}

// worker runs the units given on the command line and prints their results
func worker(id, modfile, drop string, units []string) {
	p := properties[id]
	out := json.NewEncoder(os.Stdout)
	v, err := p.load(modfile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	v.drop = map[string]bool{}
	for _, d := range strings.Split(drop, ",") {
		if d != "" {
			v.drop[d] = true
		}
	}
	v.counts = p.counts
	for _, u := range units {
		out.Encode(v.runUnit("lemmas/"+p.Pkg, u, p.limit(u)))
	}
	v.solver.stop()
}

// lemmas with invariants to be found get less time, as bounded ones decide if they fail
func (p *Property) limit(u string) time.Duration {
	for _, l := range p.Unbounded {
		if l == u {
			return unitLimit() / 3
		}
	}
	return unitLimit()
}

func unitLimit() time.Duration {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 30 * time.Minute
	}
	return 4 * time.Minute
}

// gaveUp tells that the verifier did not find invariants, or not in time
func (r *unitResult) gaveUp() bool {
	if r.Undecided {
		return true
	}
	for _, f := range r.Failures {
		if strings.HasPrefix(f.Obl, "supported") {
			return true
		}
	}
	return false
}

func (p *Property) counts(obl string) bool {
	kind, _, _ := strings.Cut(obl, ":")
	if kind == "supported" || kind == "vacuity" {
		return true
	}
	if kind == "frame" {
		return p.Frames || p.OnlyFrame
	}
	if p.OnlyFrame {
		return false
	}
	if p.NotKinds != "" && regexp.MustCompile(p.NotKinds).MatchString(obl) {
		return false
	}
	return p.Kinds == "" || regexp.MustCompile(p.Kinds).MatchString(obl)
}

type concreteResult struct {
	Lemma   string
	Output  string
	Report  map[string]interface{}
	Failed  bool
	Trials  int
	Skipped int
}

// concrete runs lemmas against the compiled code
func (p *Property) concrete(bin string, lemmas []string, dir string, models map[string][]map[string]string, trials int, limit time.Duration, seed int, more ...string) []*concreteResult {
	res := make([]*concreteResult, len(lemmas))
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i, l := range lemmas {
		wg.Add(1)
		go func(i int, l string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			out := filepath.Join(dir, fmt.Sprintf("report-%d.json", i))
			args := []string{"-lemma", l, "-seed", strconv.Itoa(seed), "-trials", strconv.Itoa(trials), "-time", limit.String(), "-out", out}
			args = append(args, more...)
			if p.OnlyFrame {
				args = append(args, "-frames", "only")
			} else if !p.Frames {
				args = append(args, "-frames", "no")
			}
			for _, k := range p.known {
				if k.lemma == l {
					args = append(args, "-known", k.assertion)
				}
			}
			if ms := models[l]; len(ms) > 0 {
				b, _ := json.Marshal(ms)
				f := filepath.Join(dir, fmt.Sprintf("models-%d.json", i))
				os.WriteFile(f, b, 0o644)
				args = append(args, "-models", f)
			}
			cmd := exec.Command(bin, args...)
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GOTRACEBACK=single")
			t := time.AfterFunc(limit+90*time.Second, func() { cmd.Process.Kill() })
			o, err := cmd.CombinedOutput()
			t.Stop()
			r := &concreteResult{Lemma: l, Output: tail(string(o), 6000)}
			if b, e := os.ReadFile(out); e == nil {
				json.Unmarshal(b, &r.Report)
			}
			if m := regexp.MustCompile(`: (\d+) trials, (\d+) outside`).FindStringSubmatch(string(o)); m != nil {
				r.Trials, _ = strconv.Atoi(m[1])
				r.Skipped, _ = strconv.Atoi(m[2])
			}
			if err != nil {
				r.Failed = true
			}
			res[i] = r
		}(i, l)
	}
	wg.Wait()
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GONOSUMCHECK=1")
}

func checkMain(id string) int {
	p := properties[id]
	if p == nil {
		fmt.Println("no such property", id)
		return 2
	}
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	dir, err := os.MkdirTemp("", "govc-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	modfile := filepath.Join(dir, "go.mod")
	if o, err := exec.Command("bash", filepath.Join(verifDir, "gomod/mkmod.sh"), dir, "lemmas").CombinedOutput(); err != nil {
		fmt.Println("mkmod:", string(o))
	}

	var results []*unitResult
	var failures []*Failure
	failUnit := map[*Failure]string{}
	listed := knownFindings(id)
	p.known = listed
	addFailure := func(u string, f *Failure) {
		if known(listed, u, f.Obl) != nil {
			return
		}
		failures = append(failures, f)
		failUnit[f] = u
	}

	// the concrete counterparts are built while the proofs run
	bin := filepath.Join(dir, "replay")
	buildErr := make(chan string, 1)
	go func() {
		args := []string{"build", "-modfile=" + modfile, "-o", bin}
		if fs, err := p.files(); err == nil && len(fs) > 0 {
			ov := overlayT{map[string]string{}}
			n := 0
			for k, b := range fs {
				f := filepath.Join(dir, fmt.Sprintf("file%d.go", n))
				n++
				os.WriteFile(f, b, 0o644)
				ov.Replace[k] = f
			}
			b, _ := json.Marshal(ov)
			os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644)
			args = append(args, "-overlay", filepath.Join(dir, "overlay.json"))
		}
		cmd := exec.Command("go", append(args, "./"+p.Pkg)...)
		cmd.Dir = filepath.Join(verifDir, "lemmas")
		cmd.Env = goEnv()
		o, err := cmd.CombinedOutput()
		if err != nil {
			buildErr <- fmt.Sprintf("%v\n%s", err, o)
			return
		}
		buildErr <- ""
	}()

	v, err := p.load(modfile)
	dropped := []string{}
	var openLemmas []string
	openModels := map[string][]map[string]string{}
	var open []map[string]string // unbounded lemmas that are not decided
	functions := map[string]bool{}
	if err != nil {
		addFailure("load", &Failure{Obl: "supported: the code type-checks together with the contracts and lemmas", Desc: err.Error()})
	} else {
		v.drop = map[string]bool{}
		own := map[string]bool{}
		for _, k := range p.Contracts {
			own[k] = true
		}
		// contracts that are used
		for _, k := range p.Deps {
			if own[k] {
				continue
			}
			v.counts = nil
			r := v.runUnit("", "@"+k, unitLimit()/4)
			r.Unit = "used " + r.Unit
			bad := false
			for _, f := range r.Failures {
				if !strings.HasPrefix(f.Obl, "frame") {
					bad = true
				}
			}
			if bad {
				k, _, _ = strings.Cut(k, "#")
				dropped = append(dropped, k)
				v.drop[k] = true
			}
			results = append(results, r)
		}
		for _, k := range p.Contracts {
			v.counts = p.counts
			r := v.runUnit("", "@"+k, unitLimit()/2)
			results = append(results, r)
			functions[k] = true
			bad := false
			for _, f := range r.Failures {
				if !strings.HasPrefix(f.Obl, "frame") {
					bad = true
				}
				if p.counts(f.Obl) {
					addFailure("@"+k, f)
				}
			}
			if bad {
				k, _, _ = strings.Cut(k, "#")
				dropped = append(dropped, k)
			}
		}
		v.solver.stop()
		// lemmas, in parallel
		unbounded := map[string]bool{}
		for _, l := range p.Unbounded {
			unbounded[l] = true
		}
		var mu sync.Mutex
		sem := make(chan bool, 7)
		var wg sync.WaitGroup
		for _, l := range p.Lemmas {
			wg.Add(1)
			go func(l string) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				cmd := exec.Command(os.Args[0], append([]string{"worker", id, modfile, strings.Join(dropped, ",")}, l)...)
				cmd.Env = os.Environ()
				var eb strings.Builder
				cmd.Stderr = &eb
				t := time.AfterFunc(unitLimit()+time.Minute, func() { cmd.Process.Kill() })
				o, err := cmd.Output()
				t.Stop()
				mu.Lock()
				defer mu.Unlock()
				r := &unitResult{}
				if json.Unmarshal(o, r) != nil || r.Unit == "" {
					addFailure(l, &Failure{Obl: "supported: lemma " + l, Desc: fmt.Sprintf("no result: %v %s", err, tail(eb.String(), 3000))})
					return
				}
				if unbounded[l] && r.gaveUp() {
					// the bounded lemmas decide
					open = append(open, map[string]string{"lemma": l, "why": r.Failures[0].Obl + ": " + tail(r.Failures[0].Desc, 300)})
					openLemmas = append(openLemmas, l)
					for _, f := range r.Failures {
						if len(f.Model) > 0 {
							openModels[l] = append(openModels[l], f.Model)
						}
					}
					return
				}
				results = append(results, r)
				for _, f := range r.Failures {
					if p.counts(f.Obl) {
						addFailure(l, f)
					}
				}
			}(l)
		}
		wg.Wait()
	}
	sort.Slice(results, func(i, j int) bool { return results[i].Unit < results[j].Unit })

	// Lean
	var lean []map[string]interface{}
	for _, f := range p.Lean {
		t1 := time.Now()
		cmd := exec.Command("lean", filepath.Join(verifDir, "lean", f))
		cmd.Dir = filepath.Join(verifDir, "lean")
		o, err := cmd.CombinedOutput()
		ok := err == nil && !strings.Contains(string(o), "sorry")
		b, _ := os.ReadFile(filepath.Join(verifDir, "lean", f))
		var th []string
		for _, m := range regexp.MustCompile(`(?m)^theorem (\S+)`).FindAllStringSubmatch(string(b), -1) {
			th = append(th, m[1])
		}
		lean = append(lean, map[string]interface{}{"file": "lean/" + f, "theorems": th, "accepted": ok, "wall_s": time.Since(t1).Seconds()})
		if !ok {
			addFailure("lean", &Failure{Obl: "lean: " + f, Desc: tail(string(o), 3000)})
		}
	}

	// replay against the real code
	be := <-buildErr
	all := append(append([]string{}, p.Lemmas...), p.Replay...)
	var conc []*concreteResult
	var hits []*concreteResult
	if be != "" {
		addFailure("replay", &Failure{Obl: "supported: the code builds together with the lemmas", Desc: tail(be, 4000)})
	} else {
		trials, limit := 60, 10*time.Second
		if tier == "thorough" {
			trials, limit = 3000, 120*time.Second
		}
		models := map[string][]map[string]string{}
		if len(failures) > 0 {
			trials, limit = 20000, 40*time.Second
			if p.ReplayTime > 0 {
				limit = time.Duration(p.ReplayTime) * time.Second
			}
			for _, f := range failures {
				if len(f.Model) > 0 {
					for _, l := range all {
						if l == failUnit[f] || strings.HasPrefix(failUnit[f], "@") {
							models[l] = append(models[l], f.Model)
						}
					}
				}
			}
		}
		conc = p.concrete(bin, all, dir, models, trials, limit, seed)
		for _, r := range conc {
			for _, m := range regexp.MustCompile(`(?m)^known: (.*)$`).FindAllStringSubmatch(r.Output, -1) {
				known(listed, r.Lemma, "lemma: "+m[1])
			}
			if r.Failed {
				hits = append(hits, r)
			}
		}
		if len(openLemmas) > 0 && len(hits) == 0 {
			// undecided: look for a failing input among all sizes
			for _, r := range p.concrete(bin, openLemmas, dir, openModels, 300, 60*time.Second, seed, "-large") {
				conc = append(conc, r)
				if r.Failed {
					hits = append(hits, r)
				}
			}
		}
	}

	// report
	nObl, nDis, nKinds := 0, 0, 0
	nBounded := 0
	bounded := map[string]bool{}
	for _, b := range p.BoundedLemmas {
		bounded["lemma "+b] = true
	}
	weak := map[string]bool{}
	back := map[string]int{}
	var solverS float64
	queries := 0
	trusted, inl, applied := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var units []map[string]interface{}
	for _, r := range results {
		un, ud, uf := 0, 0, 0
		names := []string{}
		ub := map[string]int{}
		for n, o := range r.Obls {
			if !p.counts(n) {
				continue
			}
			nKinds++
			names = append(names, n)
			un += o.N
			ud += o.N
			if o.Failed {
				uf++
			}
			for b, k := range o.Backend {
				back[b] += k
				ub[b] += k
			}
		}
		for _, f := range r.Failures {
			if p.counts(f.Obl) && !strings.HasPrefix(r.Unit, "used ") {
				un++
			}
		}
		if bounded[r.Unit] {
			nBounded += ud
		} else {
			nObl += un
			nDis += ud
		}
		for _, m := range r.Weak {
			weak[m] = true
		}
		solverS += r.SolverS
		queries += r.Queries
		for _, m := range r.Modelled {
			trusted[m] = true
		}
		for _, m := range r.Inlined {
			for k, d := range p.Renamed {
				m = strings.ReplaceAll(m, "lemmas/"+k+".", strings.Replace(d, "/repo", repoPath, 1)+".")
			}
			if strings.Contains(m, repoPath) {
				inl[strings.ReplaceAll(m, repoPath+"/", "")] = true
			} else if !strings.HasPrefix(m, "lemmas/") && !strings.HasPrefix(m, "(lemmas/") && !strings.Contains(m, "init") {
				trusted[m+" (its own source, executed)"] = true
			}
		}
		for _, m := range r.Applied {
			applied[m] = true
		}
		sort.Strings(names)
		u := map[string]interface{}{"unit": r.Unit, "paths": r.Paths, "obligations": un, "discharged": ud, "by": ub, "solver_s": round(r.SolverS), "wall_s": round(r.WallS)}
		if len(names) <= 60 {
			u["obligation_names"] = names
		}
		if bounded[r.Unit] {
			u["bounded"] = p.Bounded
		}
		units = append(units, u)
	}
	list := func(m map[string]bool) []string {
		r := []string{}
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	var cc []map[string]interface{}
	for _, r := range conc {
		cc = append(cc, map[string]interface{}{"lemma": r.Lemma, "trials": r.Trials, "outside_assumptions": r.Skipped, "failed": r.Failed})
	}
	violations := 0
	if len(failures) > 0 || len(hits) > 0 {
		violations = 1
	}
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nDis, "obligation_kinds": nKinds,
		"checker_cmd":  "govc check " + id + " (bash /verif/run.sh " + id + ")",
		"trusted_base": append(append([]string{}, trustedBase...), "models of external functions used in this run: "+strings.Join(list(trusted), ", ")),
		"units":        units, "functions_under_contract": list(functions), "contracts_used_at_call_sites": list(applied), "contracts_dropped": dropped,
		"repository_functions_executed_in_proofs": list(inl),
		"back_ends": back, "solver_queries": queries, "solver_s": round(solverS),
		"replay_cross_check_not_counted_as_proof": cc,
		"explanation": "obligations are counted per path on which they arise; each is discharged by the back end named in back_ends (normaliser and path condition are govc's own simplifier)",
	}
	if len(lean) > 0 {
		cov["lean"] = lean
	}
	if p.Bounded != "" {
		cov["bounded"] = map[string]interface{}{"bound": p.Bounded, "lemmas": p.BoundedLemmas, "obligations_discharged_within_the_bound": nBounded,
			"note": "these obligations hold for all inputs of the stated sizes; they are not counted under obligations and discharged"}
	}
	if len(open) > 0 {
		cov["undecided_for_all_sizes"] = open
	}
	if len(weak) > 0 {
		cov["calls_with_arbitrary_results"] = list(weak)
	}
	level := "proof"
	if len(p.BoundedLemmas) > 0 && len(p.BoundedLemmas)+len(open) >= len(p.Lemmas) && len(p.Contracts) == 0 {
		level = "other"
	}
	if l := levels[id]; l != "" {
		level = l
	}
	if level == "exploration" || level == "fault_enumeration" {
		n := 0
		for _, r := range results {
			n += r.Paths
		}
		cov["evaluations"] = n
		cov["distinct_nontrivial"] = n
		cov["rule"] = "every feasible path of the executed code within the bound, inputs symbolic"
		cov["samples"] = units
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": append(append([]string{}, commonAssumptions...), p.Assume...), "wall_s": round(time.Since(t0).Seconds()), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), b, 0o644)

	for _, k := range listed {
		if k.seen {
			fmt.Printf("KNOWN-FINDING: property=%s lemma %s, \"%s\": %s\n", id, k.lemma, k.assertion, k.text)
		} else {
			fmt.Printf("a listed finding of %s did not show: lemma %s, \"%s\"\n", id, k.lemma, k.assertion)
		}
	}
	if violations == 0 {
		fmt.Printf("%s: holds; %d obligations in %d units discharged, %d lemmas replayed against the compiled code, %.1f s\n", id, nDis+nBounded, len(results), len(conc), time.Since(t0).Seconds())
		return 0
	}
	rep := map[string]interface{}{"property": id, "seed": seed}
	var fs []map[string]interface{}
	for i, f := range failures {
		if i < 12 {
			fs = append(fs, map[string]interface{}{"obligation": f.Obl, "unit": failUnit[f], "at": f.Pos, "what": f.Desc, "verifier_output": tail(f.Path, 6000), "counterexample": f.Model})
		}
	}
	rep["failed_obligations"] = fs
	var hs []interface{}
	for _, h := range hits {
		hs = append(hs, map[string]interface{}{"lemma": h.Lemma, "failing_input": h.Report, "output": h.Output,
			"reproduce": fmt.Sprintf("VERIF_SEED=%d bash /verif/run.sh %s", seed, id)})
	}
	rep["replays"] = hs
	b, _ = json.MarshalIndent(rep, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "out"), 0o755)
	path := filepath.Join(verifDir, "out", id+".replay.json")
	os.WriteFile(path, b, 0o644)
	for i, f := range failures {
		if i < 8 {
			fmt.Printf("failed obligation: %s [%s] at %s: %s\n", f.Obl, failUnit[f], f.Pos, firstLine(f.Desc))
		}
	}
	for i, h := range hits {
		if i < 4 {
			fmt.Printf("failing input: lemma %s: %v\n", h.Lemma, h.Report["what"])
		}
	}
	line := fmt.Sprintf("VIOLATION property=%s replay=%s", id, path)
	if len(hits) == 0 {
		line += " no-failing-input-found"
	}
	fmt.Println(line)
	return 1
}

func firstLine(s string) string {
	l, _, _ := strings.Cut(s, "\n")
	return l
}

func round(x float64) float64 { return float64(int(x*1000)) / 1000 }

// finding is a defect that is known and not repaired: one assertion of one lemma
type finding struct {
	lemma, assertion, text string
	seen                   bool
}

var findingLine = regexp.MustCompile(`^KNOWN-FINDING: property=(\S+) lemma=(\S+) assertion="([^"]*)" (.*)$`)

func knownFindings(id string) []*finding {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	var r []*finding
	for _, l := range strings.Split(string(b), "\n") {
		if m := findingLine.FindStringSubmatch(l); m != nil && m[1] == id {
			r = append(r, &finding{lemma: m[2], assertion: m[3], text: m[4]})
		}
	}
	return r
}

// known tells whether the failure is one of the listed findings
func known(fs []*finding, lemma, obl string) *finding {
	for _, k := range fs {
		if k.lemma == lemma && obl == "lemma: "+k.assertion {
			k.seen = true
			return k
		}
	}
	return nil
}
