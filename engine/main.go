package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "try" {
		try(os.Args[2], os.Args[3:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(check(os.Args[2], tier))
	}
	if len(os.Args) > 2 && os.Args[1] == "replay" {
		os.Exit(replay(os.Args[2]))
	}
	fatalf("usage: check <property> [quick|thorough] | replay <file> | try <harness> param=value...")
}

// try explores one harness and prints what happened.
func try(fn string, kv []string) {
	root := verifRoot()
	t := time.Now()
	eng := loadEngine(filepath.Join(root, "harness"), "./...")
	ms := newMachines(eng, ncpu())
	fmt.Println("load+init", time.Since(t))
	spec := HarnessSpec{Fn: fn, Params: map[string]int{}}
	lim := 600
	for _, x := range kv {
		p := strings.SplitN(x, "=", 2)
		n, _ := strconv.Atoi(p[1])
		if p[0] == "timeout" {
			lim = n
			continue
		}
		spec.Params[p[0]] = n
	}
	hr := explore(eng, ms, spec, time.Now().Add(time.Duration(lim)*time.Second))
	bin := filepath.Join(os.TempDir(), "symnative")
	if err := buildNative(root, bin, false); err != nil {
		fatalf("%v", err)
	}
	nat := &Native{bin: bin}
	defer nat.stop()
	fmt.Printf("paths=%d completed=%d assumedOut=%d infeasible=%d steps=%d forks=%d unknowns=%d maxDecisions=%d wall=%v timedOut=%v err=%q\n", hr.paths, hr.completed, hr.assumedOut, hr.infeasible, hr.steps, hr.forks, hr.unknowns, hr.maxDepth, hr.wall, hr.timedOut, hr.engineErr)
	fmt.Printf("solver: queries=%d (branch %d, lemma batches %d for %d lemmas) sat=%d unsat=%d unknown=%d time=%v\n", sstats.Queries, sstats.BranchQueries, sstats.LemmaQueries, nLemmas, sstats.Sat, sstats.Unsat, sstats.Unknown, time.Duration(sstats.Nanos))
	fmt.Println("asserts", hr.asserts)
	if dbgProf {
		var ks []string
		for k := range prof {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return prof[ks[i]] > prof[ks[j]] })
		for i, k := range ks {
			if i < 15 {
				fmt.Println(prof[k], k)
			}
		}
	}
	bad := 0
	for _, s := range hr.samples {
		r := nat.run(Job{fn, spec.Params, s.Asg})
		if d := diffObs(s, r); d != "" {
			bad++
			if bad < 5 {
				fmt.Println("SAMPLE MISMATCH", d, s.Asg)
			}
		}
	}
	fmt.Println("samples", len(hr.samples), "mismatches", bad)
	for l, s := range hr.reached {
		fmt.Println("reached", l, s.Asg != nil)
	}
	for _, c := range hr.cands {
		r := nat.run(Job{fn, spec.Params, c.asg})
		fmt.Printf("CAND %s %s\n   native: fails=%v panic=%q hang=%v stopped=%q\n", c.kind, c.label, r.Fails, firstLine(r.Panic), r.Hang, r.Stopped)
		for _, x := range r.Input {
			fmt.Printf("   %s = %q\n", x[0], x[1])
		}
		if len(r.Input) == 0 {
			fmt.Println("  ", c.asg)
		}
	}
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

func diffObs(s *sample, r JobResult) string {
	if r.Panic != "" || r.Hang || len(r.Fails) > 0 || r.Stopped != "" {
		return fmt.Sprintf("native run ended with panic=%q hang=%v fails=%v stopped=%q", firstLine(r.Panic), r.Hang, r.Fails, r.Stopped)
	}
	if len(s.obs) != len(r.Obs) {
		return fmt.Sprintf("%d observations, natively %d", len(s.obs), len(r.Obs))
	}
	for i := range s.obs {
		if s.obs[i] != r.Obs[i] {
			return fmt.Sprintf("observed %q, natively %q", s.obs[i], r.Obs[i])
		}
	}
	if fmt.Sprint(s.reached) != fmt.Sprint(r.Reached) {
		return fmt.Sprintf("reached %v, natively %v", s.reached, r.Reached)
	}
	return ""
}
