package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// HarnessSpec names one harness with its bounds.
type HarnessSpec struct {
	Fn       string         `json:"fn"`
	Params   map[string]int `json:"params"`
	MaxSteps int64          `json:"-"`
	Reach    []string       `json:"-"` // labels that must be reached
	Race     bool           `json:"-"` // replay isolation findings under the race detector
	Bound    string         `json:"-"`
}

func (h HarnessSpec) String() string {
	var ks []string
	for k := range h.Params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := h.Fn
	for _, k := range ks {
		s += fmt.Sprintf(" %s=%d", k, h.Params[k])
	}
	return s
}

// Candidate is a solver model that should show a violation.
type Candidate struct {
	kind, label string
	asg         map[string]uint64
	detail      string
}

// HarnessRun is one exploration.
type HarnessRun struct {
	spec     HarnessSpec
	params   map[string]int
	eng      *Engine
	deadline time.Time

	mu       sync.Mutex
	cond     *sync.Cond
	stack    []*work
	active   int
	stop     bool
	timedOut bool

	paths, completed, assumedOut, infeasible int64
	steps                                    int64
	forks                                    int64
	unknowns                                 int64
	unsupported                              int64
	nviol                                    int
	maxDepth                                 int64
	asserts                                  map[string]int64
	reached                                  map[string]*sample
	samples                                  []*sample
	nsamp                                    int64
	cands                                    []*Candidate
	candSeen                                 map[string]int
	engineErr                                string
	wall                                     time.Duration
	notes                                    []string
}

type sample struct {
	Asg     map[string]uint64 `json:"asg"`
	obs     [][2]string
	reached []string
	h       uint64
}

func (hr *HarnessRun) noteAssert(l string) {
	hr.mu.Lock()
	hr.asserts[l]++
	hr.mu.Unlock()
}

func (hr *HarnessRun) pop() *work {
	hr.mu.Lock()
	defer hr.mu.Unlock()
	for {
		if hr.stop {
			return nil
		}
		if n := len(hr.stack); n > 0 {
			w := hr.stack[n-1]
			hr.stack[n-1] = nil
			hr.stack = hr.stack[:n-1]
			hr.active++
			return w
		}
		if hr.active == 0 {
			hr.cond.Broadcast()
			return nil
		}
		hr.cond.Wait()
	}
}

func (hr *HarnessRun) push(w *work) {
	hr.mu.Lock()
	hr.stack = append(hr.stack, w)
	hr.mu.Unlock()
	hr.cond.Signal()
}

func (hr *HarnessRun) done() {
	hr.mu.Lock()
	hr.active--
	if hr.active == 0 && len(hr.stack) == 0 {
		hr.cond.Broadcast()
	}
	hr.mu.Unlock()
}

// model solves the path condition (with an extra condition).
func (hr *HarnessRun) model(m *M, extra *Expr) (map[string]uint64, map[int32]uint64, bool) {
	var ex []*Expr
	if extra != nil {
		ex = append(ex, extra)
	}
	seen := map[int32]bool{}
	var vars []int32
	add := func(e *Expr) {
		for _, v := range e.vars {
			if !seen[v] {
				seen[v] = true
				vars = append(vars, v)
			}
		}
	}
	for n := m.cs.pc; n != nil; n = n.parent {
		add(n.cond)
	}
	if extra != nil {
		add(extra)
	}
	if len(vars) == 0 {
		return map[string]uint64{}, map[int32]uint64{}, true
	}
	conds := conditions(m.cs.pc, ex)
	r, mod := m.solver.checkWith(conds, vars)
	if r != resSat {
		return nil, nil, false
	}
	memo := map[*Expr]uint64{}
	for _, c := range conds {
		if evalExpr(c, mod, memo) == 0 {
			fatalf("the solver's model does not satisfy the path condition")
		}
	}
	asg := map[string]uint64{}
	for v, x := range mod {
		asg[varOf(v).name] = x
	}
	return asg, mod, true
}

// complete extends a model with default values for the remaining variables of
// the path, which are unconstrained: the first value of their domain.
func defaultOf(v *Var) uint64 {
	if v.small {
		return uint64(bsFirst(v.dom))
	}
	return v.lo
}

func (hr *HarnessRun) violation(m *M, kind, label string, extra *Expr) {
	hr.mu.Lock()
	k := kind + "/" + label
	hr.candSeen[k]++
	n := hr.candSeen[k]
	hr.mu.Unlock()
	if n > 6 {
		return
	}
	asg, _, ok := hr.model(m, extra)
	if !ok {
		hr.mu.Lock()
		hr.infeasible++
		hr.candSeen[k]--
		hr.mu.Unlock()
		return
	}
	hr.addDefaults(m, asg)
	hr.mu.Lock()
	hr.cands = append(hr.cands, &Candidate{kind: kind, label: label, asg: asg, detail: m.backtrace()})
	hr.nviol++
	if hr.nviol >= 12 {
		hr.stop = true
		hr.cond.Broadcast()
	}
	hr.mu.Unlock()
}

// unencodable notes a path that leaves what the engine can encode. A model of
// what leads there is run natively.
func (hr *HarnessRun) unencodable(m *M, why string) {
	n := atomic.AddInt64(&hr.unsupported, 1)
	hr.mu.Lock()
	if hr.engineErr == "" {
		hr.engineErr = "cannot encode: " + why + " at " + m.backtrace()
	}
	hr.mu.Unlock()
	if n > 400 || m.pendCS != nil {
		return
	}
	asg, _, ok := hr.model(m, nil)
	if !ok {
		return
	}
	hr.addDefaults(m, asg)
	hr.mu.Lock()
	hr.cands = append(hr.cands, &Candidate{kind: "unencoded", label: why, asg: asg, detail: m.backtrace()})
	hr.mu.Unlock()
}

// addDefaults gives unconstrained variables a value inside their domain.
func (hr *HarnessRun) addDefaults(m *M, asg map[string]uint64) {
	for _, v := range m.pathVars {
		if _, ok := asg[v.name]; !ok {
			asg[v.name] = defaultOf(v)
		}
	}
}

func (hr *HarnessRun) worker(m *M) {
	m.hr = hr
	entry := hr.eng.pkgs[harnessMod+"/h"].Func(hr.spec.Fn)
	if entry == nil {
		fatalf("no harness %s", hr.spec.Fn)
	}
	fn := hr.eng.fn(entry)
	m.maxSteps = hr.spec.MaxSteps
	if m.maxSteps == 0 {
		m.maxSteps = 20_000_000
		if n := hr.spec.Params["steps"]; n > 0 {
			m.maxSteps = int64(n) * 1_000_000
		}
	}
	m.pushAlt = hr.push
	for {
		w := hr.pop()
		if w == nil {
			break
		}
		hr.runPath(m, fn, w)
		hr.done()
		if time.Now().After(hr.deadline) {
			hr.mu.Lock()
			if !hr.stop && (len(hr.stack) > 0 || hr.active > 0) {
				hr.timedOut = true
			}
			hr.stop = true
			hr.cond.Broadcast()
			hr.mu.Unlock()
		}
	}
	m.flushLemmas()
}

func (hr *HarnessRun) runPath(m *M, fn *Fn, w *work) {
	m.resetHeap()
	m.startPath(w)
	m.steps, m.nforks = 0, 0
	m.calls, m.sp = m.calls[:0], 0
	m.mark, m.frozen = 0, ""
	m.observed, m.reached = m.observed[:0], m.reached[:0]
	m.nvars = map[string]int{}
	m.pathVars = m.pathVars[:0]
	m.curPanic = m.curPanic[:0]
	m.spec, m.sub, m.subBasesL = 0, 0, nil
	atomic.AddInt64(&hr.paths, 1)
	finished := false
	func() {
		defer func() {
			x := recover()
			switch x := x.(type) {
			case nil:
			case pathEnd:
				switch x.why {
				case "assume":
					atomic.AddInt64(&hr.assumedOut, 1)
				case "infeasible":
					atomic.AddInt64(&hr.infeasible, 1)
				}
			case *targetPanic:
				m.unfinishPrefix()
				hr.violation(m, "panic", x.msg+" in "+firstOwn(x.stack), nil)
			case stepLimit:
				m.unfinishPrefix()
				hr.violation(m, "hang", "no result within the step bound, in "+firstOwn(x.stack), nil)
			case unsupported:
				hr.unencodable(m, x.why)
			default:
				fmt.Fprintln(os.Stderr, "engine crash at", m.backtrace())
				panic(x)
			}
		}()
		m.call(fn, nil, nil)
		finished = true
	}()
	atomic.AddInt64(&hr.steps, m.steps)
	atomic.AddInt64(&hr.forks, int64(m.nforks))
	if m.unknown > 0 {
		atomic.AddInt64(&hr.unknowns, int64(m.unknown))
		m.unknown = 0
	}
	if d := int64(len(m.trace)); d > atomic.LoadInt64(&hr.maxDepth) {
		atomic.StoreInt64(&hr.maxDepth, d)
	}
	if !finished {
		return
	}
	if m.pos < len(m.prefix) {
		fatalf("path ended inside its prefix: the exploration is not deterministic (%s) %d %d\n%v\n%v", hr.spec, m.pos, len(m.prefix), m.prefix, m.observed)
	}
	n := atomic.AddInt64(&hr.completed, 1)
	hr.sample(m, n)
}

// unfinishPrefix makes sure that the constraints of a path that ended early are installed.
func (m *M) unfinishPrefix() {
	if m.pendCS != nil {
		fatalf("path failed inside its prefix")
	}
}

func firstOwn(stack string) string {
	for _, s := range strings.Split(stack, " < ") {
		if strings.Contains(s, repoMod) {
			return strings.ReplaceAll(s, repoMod, "")
		}
	}
	return strings.SplitN(stack, " < ", 2)[0]
}

const maxSamples = 120

// sample keeps models of some finished paths, for comparison with the native
// run, and of the first path reaching each label.
func (hr *HarnessRun) sample(m *M, n int64) {
	var newLabels []string
	hr.mu.Lock()
	for _, l := range m.reached {
		if hr.reached[l] == nil {
			newLabels = append(newLabels, l)
			hr.reached[l] = &sample{}
		}
	}
	hr.mu.Unlock()
	h := fnv.New64a()
	for _, d := range m.trace {
		h.Write([]byte{byte(d), byte(d >> 8)})
	}
	h.Write([]byte(os.Getenv("VERIF_SEED")))
	hv := h.Sum64() * 0x9E3779B97F4A7C15
	take := len(newLabels) > 0 || n <= 20
	if !take {
		hr.mu.Lock()
		take = len(hr.samples) < maxSamples || hv < hr.samples[len(hr.samples)-1].h
		hr.mu.Unlock()
		take = take && hv%uint64(1+n/200) == 0
	}
	if !take {
		return
	}
	asg, mod, ok := hr.model(m, nil)
	if !ok {
		atomic.AddInt64(&hr.infeasible, 1)
		for _, l := range newLabels {
			hr.mu.Lock()
			delete(hr.reached, l)
			hr.mu.Unlock()
		}
		return
	}
	hr.addDefaults(m, asg)
	for _, v := range m.pathVars {
		if _, ok := mod[v.idx]; !ok {
			mod[v.idx] = defaultOf(v)
		}
	}
	s := &sample{Asg: asg, h: hv, reached: append([]string(nil), m.reached...)}
	memo := map[*Expr]uint64{}
	for _, o := range m.observed {
		s.obs = append(s.obs, [2]string{o.label, evalObs(o, mod, memo)})
	}
	hr.mu.Lock()
	for _, l := range newLabels {
		hr.reached[l] = s
	}
	hr.samples = append(hr.samples, s)
	if len(newLabels) == 0 && len(hr.samples) > maxSamples {
		sort.Slice(hr.samples, func(i, j int) bool { return hr.samples[i].h < hr.samples[j].h })
		hr.samples = hr.samples[:maxSamples]
	}
	hr.mu.Unlock()
}

func evalObs(o obsItem, mod map[int32]uint64, memo map[*Expr]uint64) string {
	if o.str {
		var b []byte
		for _, c := range strCells(o.v) {
			if c.p == nil {
				b = append(b, byte(c.n))
			} else {
				b = append(b, byte(evalExpr(c.p.(*Expr), mod, memo)))
			}
		}
		return string(b)
	}
	if o.v.p == nil {
		return fmt.Sprint(o.v.n)
	}
	e := o.v.p.(*Expr)
	return fmt.Sprint(sext(evalExpr(e, mod, memo), e.w))
}

func explore(eng *Engine, ms []*M, spec HarnessSpec, deadline time.Time) *HarnessRun {
	hr := &HarnessRun{spec: spec, params: spec.Params, eng: eng, deadline: deadline, asserts: map[string]int64{},
		reached: map[string]*sample{}, candSeen: map[string]int{}}
	hr.cond = sync.NewCond(&hr.mu)
	hr.stack = []*work{{cs: &CState{}}}
	t := time.Now()
	var wg sync.WaitGroup
	for _, m := range ms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			hr.worker(m)
		}()
	}
	wg.Wait()
	hr.wall = time.Since(t)
	return hr
}

func newMachines(eng *Engine, n int) []*M {
	ms := make([]*M, n)
	var wg sync.WaitGroup
	for i := range ms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					m := ms[i]
					switch x := x.(type) {
					case unsupported:
						fatalf("package initialisation: %s at %s", x.why, m.backtrace())
					case *targetPanic:
						fatalf("package initialisation: %s at %s", x.msg, x.stack)
					default:
						fmt.Fprintln(os.Stderr, "at", m.backtrace())
						panic(x)
					}
				}
			}()
			ms[i] = newM(eng)
			ms[i].initMachine()
		}()
	}
	wg.Wait()
	return ms
}

// ---------------------------------------------------------------- native runs

// Job is one native execution.
type Job struct {
	Fn     string            `json:"fn"`
	Params map[string]int    `json:"params"`
	Asg    map[string]uint64 `json:"asg"`
}

// JobResult is what it showed.
type JobResult struct {
	Obs     [][2]string `json:"obs"`
	Fails   []string    `json:"fails"`
	Reached []string    `json:"reached"`
	Panic   string      `json:"panic"`
	Stopped string      `json:"stopped"`
	Hang    bool        `json:"hang"`
	Race    bool        `json:"race"`
	Input   [][2]string `json:"input"`
}

// Native runs harnesses compiled by the Go compiler.
type Native struct {
	bin  string
	race bool
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	err  *strings.Builder
}

func buildNative(root, out string, race bool) error {
	args := []string{"build", "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(root, "harness")
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off")
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("building the native harness: %v\n%s", err, b)
	}
	return nil
}

func (n *Native) start() {
	n.cmd = exec.Command(n.bin)
	n.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=2GiB")
	if n.race {
		n.cmd.Env = append(n.cmd.Env, "VERIF_RACE=1")
	}
	n.in, _ = n.cmd.StdinPipe()
	o, _ := n.cmd.StdoutPipe()
	n.err = &strings.Builder{}
	n.cmd.Stderr = n.err
	n.out = bufio.NewReaderSize(o, 1<<20)
	if err := n.cmd.Start(); err != nil {
		fatalf("native harness: %v", err)
	}
}

func (n *Native) stop() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

func (n *Native) run(j Job) JobResult {
	if n.cmd == nil {
		n.start()
	}
	b, _ := json.Marshal(j)
	n.in.Write(append(b, '\n'))
	type res struct {
		line []byte
		err  error
	}
	ch := make(chan res, 1)
	go func() {
		l, err := n.out.ReadBytes('\n')
		ch <- res{l, err}
	}()
	var r JobResult
	select {
	case x := <-ch:
		if x.err != nil {
			n.cmd.Wait()
			code := n.cmd.ProcessState.ExitCode()
			n.cmd = nil
			if strings.Contains(n.err.String(), "DATA RACE") {
				r.Race = true
				return r
			}
			msg := n.err.String()
			if len(msg) > 600 {
				msg = msg[:600]
			}
			r.Panic = fmt.Sprintf("process died (exit %d): %s", code, msg)
			return r
		}
		if err := json.Unmarshal(x.line, &r); err != nil {
			fatalf("native harness said %q", x.line)
		}
	case <-time.After(8 * time.Second):
		r.Hang = true
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
	return r
}

func ncpu() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}
