package main

import (
	"fmt"
	"os"
	debug2 "runtime/debug"
	"runtime/pprof"
	"time"
)

func main() {
	debug2.SetGCPercent(400)
	debug2.SetMemoryLimit(1500 << 20)
	if len(os.Args) < 2 {
		fmt.Println("usage: govc check ID | contract KEY | lemma PKG NAME")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2]))
	case "worker":
		worker(os.Args[2], os.Args[3], os.Args[4], os.Args[5:])
	case "dev":
		t0 := time.Now()
		ov, err := (&Property{Overlay: allOverlays(), Renamed: programs}).files()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		v, err := load("/verif/lemmas", os.Args[2], ov, os.Args[3])
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		fmt.Println("load", time.Since(t0))
		v.contracts, err = parseContracts("/verif/contracts")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if n := os.Getenv("GOVC_CPU"); n != "" {
			if f, err := os.Create(n); err == nil {
				pprof.StartCPUProfile(f)
				defer pprof.StopCPUProfile()
			}
		}
		if os.Getenv("GOVC_PROF") != "" {
			branchProf = map[string]int{}
			defer func() {
				for k, n := range branchProf {
					fmt.Println("  decisions", n, k)
				}
			}()
			if d, err := time.ParseDuration(os.Getenv("GOVC_PROF")); err == nil {
				v.deadline = time.Now().Add(d)
			}
		}
		for _, u := range os.Args[4:] {
			t1 := time.Now()
			if u[0] == '@' {
				v.verifyContract(u[1:])
			} else {
				v.runLemma(os.Args[3], u)
			}
			n, f := 0, 0
			for _, o := range v.obls {
				n += o.N
				if o.Failed {
					f++
				}
			}
			fmt.Printf("%s: %d paths, %d obligations (%d kinds), %d failed kinds, %v; reached %v\n", u, v.paths, n, len(v.obls), f, time.Since(t1), v.reached)
			if os.Getenv("GOVC_LIST") != "" {
				for _, k := range v.oblNames() {
					fmt.Println("     ", k, v.obls[k].N, v.obls[k].Backend)
				}
			}
			for _, x := range v.failures {
				fmt.Printf("  FAIL %s at %s: %s\n%s   model %v\n", x.Obl, x.Pos, x.Desc, x.Path, x.Model)
			}
		}
		fmt.Println("queries", v.solver.queries, v.solver.spent, v.solver.byEnd)
		v.solver.stop()
	}
}
