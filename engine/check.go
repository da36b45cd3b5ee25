package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Evidence is what a check says about its run.
type Evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

// Replay is the content of a replay file.
type Replay struct {
	Property string      `json:"property"`
	Kind     string      `json:"kind"`
	Label    string      `json:"label"`
	Job      Job         `json:"job"`
	Race     bool        `json:"race"`
	Input    [][2]string `json:"input"`
	Native   string      `json:"native"`
	Stack    string      `json:"stack"`
	Command  string      `json:"command"`
}

// finding is a line of known_findings.txt: a defect that is recorded, not repaired.
type finding struct{ property, label, input string }

// loadFindings reads lines "finding: property=<id> label=<quoted> input=<quoted>".
func loadFindings(root string) []finding {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var fs []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var f finding
		rest := strings.TrimPrefix(l, "finding: ")
		if n, err := fmt.Sscanf(rest, "property=%s label=%q input=%q", &f.property, &f.label, &f.input); err != nil || n != 3 {
			fatalf("known_findings.txt: %q", l)
		}
		fs = append(fs, f)
	}
	return fs
}

// confirm tells whether a native run shows a violation, and which.
func confirm(r JobResult) (string, bool) {
	switch {
	case r.Race:
		return "the race detector reports a data race", true
	case r.Panic != "":
		return "panic: " + firstLine(r.Panic), true
	case r.Hang:
		return "no result within 8 s", true
	case len(r.Fails) > 0:
		return "assertion fails: " + strings.Join(r.Fails, "; "), true
	}
	return "", false
}

func inputOf(r JobResult) string {
	var s []string
	for _, x := range r.Input {
		s = append(s, x[0]+"="+strconv.Quote(x[1]))
	}
	return strings.Join(s, " ")
}

// check decides one property and returns the exit code.
func check(prop, tier string) int {
	start := time.Now()
	root := verifRoot()
	specs := specsOf(prop, tier)
	if len(specs) == 0 {
		fatalf("no check for %s", prop)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	evDir := filepath.Join(root, "evidence")
	os.MkdirAll(evDir, 0o755)
	tmp, err := os.MkdirTemp("", "verif")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "native")
	built := make(chan error, 1)
	go func() { built <- buildNative(root, bin, false) }()
	eng := loadEngine(filepath.Join(root, "harness"), "./...")
	ms := newMachines(eng, ncpu())
	if err := <-built; err != nil {
		fatalf("%v", err)
	}
	nat := &Native{bin: bin}
	defer func() { nat.stop() }()
	var raceNat *Native
	defer func() {
		if raceNat != nil {
			raceNat.stop()
		}
	}()
	known := loadFindings(root)
	limit := 600 * time.Second
	if tier == "thorough" {
		limit = 840 * time.Second
		if s, err := strconv.Atoi(os.Getenv("VERIF_LIMIT")); err == nil {
			limit = time.Duration(s) * time.Second
		}
	}
	deadline := start.Add(limit)

	var runs []*HarnessRun
	var problems, notes []string
	var samples []any
	violations, validated := 0, 0
	knownHit := map[int]bool{}
	exhausted := true
	for _, spec := range specs {
		if violations > 0 {
			break
		}
		if time.Now().After(deadline) {
			exhausted = false
			notes = append(notes, "not explored for lack of time: "+spec.String())
			continue
		}
		hr := explore(eng, ms, spec, deadline)
		runs = append(runs, hr)
		if hr.timedOut {
			exhausted = false
			notes = append(notes, fmt.Sprintf("%s stopped at the time limit after %d paths: the bound is reduced to those", spec, hr.completed))
		}
		// candidates
		confirmed := map[string]bool{}
		for _, c := range hr.cands {
			key := c.kind + c.label
			if confirmed[key] {
				continue
			}
			j := Job{spec.Fn, spec.Params, c.asg}
			n := nat
			race := false
			if c.kind == "isolation" {
				if raceNat == nil {
					rb := filepath.Join(tmp, "native-race")
					if err := buildNative(root, rb, true); err != nil {
						notes = append(notes, "the race detector cannot be used: "+err.Error())
						continue
					}
					raceNat = &Native{bin: rb, race: true}
				}
				n, race = raceNat, true
			}
			r := n.run(j)
			what, bad := confirm(r)
			if !bad {
				switch c.kind {
				case "isolation":
					notes = append(notes, fmt.Sprintf("%s: %s: not confirmed by the race detector, not reported", spec, c.label))
				case "unencoded":
				default:
					problems = append(problems, fmt.Sprintf("%s: the solver's %s %q does not reproduce natively (%v)", spec, c.kind, c.label, c.asg))
				}
				continue
			}
			in := inputOf(r)
			isKnown := false
			for i, f := range known {
				if f.property == prop && strings.Contains(what, f.label) && strings.Contains(in, f.input) {
					isKnown = true
					if !knownHit[i] {
						knownHit[i] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s for %s\n", prop, f.label, f.input)
					}
				}
			}
			if isKnown {
				continue
			}
			confirmed[key] = true
			violations++
			dir := filepath.Join(evDir, "replay")
			os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, violations))
			b, _ := json.MarshalIndent(Replay{Property: prop, Kind: c.kind, Label: c.label, Job: j, Race: race, Input: r.Input,
				Native: what, Stack: c.detail, Command: "bin/check replay " + path}, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("%s: %s\n  %s\n", spec, what, in)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			if violations >= 3 {
				break
			}
		}
		// validation of the encoding
		if violations == 0 {
			for _, s := range hr.samples {
				r := nat.run(Job{spec.Fn, spec.Params, s.Asg})
				if d := diffObs(s, r); d != "" {
					if what, bad := confirm(r); bad && r.Hang == false {
						problems = append(problems, fmt.Sprintf("%s: %s natively, but not in the encoding: %s", spec, what, inputOf(r)))
					} else {
						problems = append(problems, fmt.Sprintf("%s: the encoding disagrees with the native run: %s for %v", spec, d, s.Asg))
					}
					continue
				}
				validated++
				if len(samples) < 12 && len(r.Input) > 0 && (len(samples) < 3 || validated%29 == 0) {
					samples = append(samples, map[string]any{"harness": spec.String(), "input": inputOf(r)})
				}
			}
			if !hr.timedOut && hr.unsupported == 0 {
				for _, l := range spec.Reach {
					if s := hr.reached[l]; s == nil || s.Asg == nil {
						problems = append(problems, fmt.Sprintf("%s never reaches %q: the check is vacuous", spec, l))
					}
				}
			}
			if hr.completed == 0 && hr.unsupported > 0 {
				problems = append(problems, fmt.Sprintf("%s: %s", spec, hr.engineErr))
			} else if hr.unsupported > 0 {
				exhausted = false
				notes = append(notes, fmt.Sprintf("%s: %d paths left undecided and only run natively for one input each: %s", spec, hr.unsupported, hr.engineErr))
			}
		}
	}

	var states, trans, steps, completed, unknown, infeasible int64
	depth := int64(0)
	asserts := map[string]int64{}
	var hs []any
	for _, hr := range runs {
		states += hr.paths
		trans += hr.forks
		steps += hr.steps
		completed += hr.completed
		unknown += hr.unknowns
		infeasible += hr.infeasible
		if hr.maxDepth > depth {
			depth = hr.maxDepth
		}
		for l, n := range hr.asserts {
			asserts[l] += n
		}
		hs = append(hs, map[string]any{"harness": hr.spec.String(), "bound": hr.spec.Bound, "paths": hr.paths, "completed": hr.completed,
			"excluded_by_assumption": hr.assumedOut, "complete": !hr.timedOut && hr.unsupported == 0, "wall_s": round(hr.wall)})
	}
	var fns []string
	for _, f := range eng.fns {
		if f.repo && f.blocks != nil {
			fns = append(fns, strings.ReplaceAll(f.name, repoMod+"/", ""))
		}
	}
	sort.Strings(fns)
	if len(samples) == 0 {
		samples = append(samples, "none: the run ended with a violation or without symbolic input")
	}
	ev := Evidence{Property: prop, Tier: tier, Seed: seed, Level: "model_checking", WallS: round(time.Since(start)), Violations: violations,
		Coverage: map[string]any{
			"states":                        states,
			"transitions":                   trans,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"exhaustive":                    exhausted && violations == 0,
			"rule":                          "states: symbolic paths (classes of inputs) decided; transitions: branches decided both ways; traces: solver models of finished paths whose observations agree with the compiled code",
			"harnesses":                     hs,
			"assertions_decided":            asserts,
			"functions_encoded":             fns,
			"steps_executed":                steps,
			"longest_path_decisions":        depth,
			"solver":                        map[string]any{"name": strings.Join(eng.solverArgv, " "), "queries": sstats.Queries, "sat": sstats.Sat, "unsat": sstats.Unsat, "unknown": sstats.Unknown, "from_cache": cacheHits, "lemmas": nLemmas, "lemma_batches": sstats.LemmaQueries, "solver_s": round(time.Duration(sstats.Nanos))},
			"undecided_branches_kept":       unknown,
			"infeasible_paths":              infeasible,
			"notes":                         notes,
			"problems":                      problems,
		},
		Assumptions: assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
	for _, n := range notes {
		fmt.Println("NOTE:", n)
	}
	if violations > 0 {
		return 1
	}
	if len(problems) > 0 {
		for i, p := range problems {
			if i < 10 {
				fmt.Println("PROBLEM:", p)
			}
		}
		return 2
	}
	fmt.Printf("property %s held on everything explored: %d paths in %d harnesses, %d traces validated, %.0f s\n", prop, states, len(runs), validated, time.Since(start).Seconds())
	return 0
}

var assumptions = []string{
	"the engine's model of the Go instructions and of the intercepted library functions (fmt, errors, log, runtime.Caller, strings kernels); compared with the compiled code on the validated traces",
	"the reference grammar in harness/ref is what the documentation means",
	"the solver's answers",
	"inputs outside the stated bounds are not covered",
}

func round(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }

// replay runs the input of a replay file against the compiled code.
func replay(file string) int {
	root := verifRoot()
	b, err := os.ReadFile(file)
	if err != nil {
		fatalf("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatalf("%v", err)
	}
	tmp, err := os.MkdirTemp("", "verif")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "native")
	if err := buildNative(root, bin, rp.Race); err != nil {
		fatalf("%v", err)
	}
	nat := &Native{bin: bin, race: rp.Race}
	defer nat.stop()
	r := nat.run(rp.Job)
	fmt.Println(inputOf(r))
	if what, bad := confirm(r); bad {
		fmt.Println(what)
		if r.Panic != "" {
			fmt.Println(r.Panic)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
		return 1
	}
	fmt.Println("does not fail")
	return 0
}
