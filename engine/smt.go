package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// SolverStats aggregates over all solver processes of a run.
type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Errors     int64
	LeafQueries, BranchQueries, LemmaQueries int64
	Nanos                                    int64
	Restarts                                 int64
}

var sstats SolverStats

// Solver is one SMT solver process spoken to in SMT-LIB2.
type Solver struct {
	argv    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	stdin   io.WriteCloser
	defined map[*Expr]bool
	vars    map[int32]bool
	ndef    int
	buf     strings.Builder
	echo    int
	second  *Solver
}

func newSolver(argv []string) *Solver {
	s := &Solver{argv: argv}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.stdin = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.defined = map[*Expr]bool{}
	s.vars = map[int32]bool{}
	s.ndef = 0
	s.in.WriteString("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.stdin.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	atomic.AddInt64(&sstats.Restarts, 1)
	s.close()
	s.start()
}

func bvLit(v uint64, w uint8) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v)
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func varName(i int32) string { return "v" + strconv.Itoa(int(i)) }

func (s *Solver) declVar(i int32) {
	if s.vars[i] {
		return
	}
	s.vars[i] = true
	v := varOf(i)
	n := varName(i)
	fmt.Fprintf(s.in, "(declare-fun %s () %s)\n", n, sortOf(v.w))
	if v.w == 0 {
		return
	}
	if v.small {
		// domain as a union of ranges
		var rs []string
		i := 0
		for i < 256 {
			if v.dom[i>>6]>>(uint(i)&63)&1 == 0 {
				i++
				continue
			}
			j := i
			for j+1 < 256 && v.dom[(j+1)>>6]>>(uint(j+1)&63)&1 != 0 {
				j++
			}
			if i == j {
				rs = append(rs, fmt.Sprintf("(= %s %s)", n, bvLit(uint64(i), v.w)))
			} else {
				rs = append(rs, fmt.Sprintf("(and (bvule %s %s) (bvule %s %s))", bvLit(uint64(i), v.w), n, n, bvLit(uint64(j), v.w)))
			}
			i = j + 1
		}
		fmt.Fprintf(s.in, "(assert (or false %s))\n", strings.Join(rs, " "))
		return
	}
	fmt.Fprintf(s.in, "(assert (bvule %s %s))\n(assert (bvule %s %s))\n", bvLit(v.lo, v.w), n, n, bvLit(v.hi, v.w))
	for _, x := range v.excl {
		fmt.Fprintf(s.in, "(assert (not (and (bvule %s %s) (bvule %s %s))))\n", bvLit(x[0], v.w), n, n, bvLit(x[1], v.w))
	}
}

// ref makes sure e can be referred to and returns its SMT name. All
// declarations happen at whatever stack level; since pops would remove them,
// callers define everything at level 0 (see prepare).
func (s *Solver) ref(e *Expr) string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.k != 0 {
				return "true"
			}
			return "false"
		}
		return bvLit(e.k, e.w)
	case OVar:
		return varName(int32(e.k))
	}
	return "e" + strconv.Itoa(int(e.id))
}

var smtOps = map[Op]string{
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAnd: "and", OOr: "or", ONot: "not",
}

// define emits definitions for e and its sub-expressions.
func (s *Solver) define(e *Expr) {
	switch e.op {
	case OConst:
		return
	case OVar:
		s.declVar(int32(e.k))
		return
	}
	if s.defined[e] {
		return
	}
	for _, x := range []*Expr{e.a, e.b, e.c} {
		if x != nil {
			s.define(x)
		}
	}
	s.defined[e] = true
	s.ndef++
	w := s.in
	fmt.Fprintf(w, "(define-fun e%d () %s ", e.id, sortOf(e.w))
	switch e.op {
	case OZExt:
		fmt.Fprintf(w, "((_ zero_extend %d) %s)", e.w-e.a.w, s.ref(e.a))
	case OSExt:
		fmt.Fprintf(w, "((_ sign_extend %d) %s)", e.w-e.a.w, s.ref(e.a))
	case OTrunc:
		fmt.Fprintf(w, "((_ extract %d 0) %s)", e.w-1, s.ref(e.a))
	case OTbl:
		idx := s.ref(e.a)
		n := 0
		for i, v := range e.tbl {
			if v == 0 || uint64(i) > mask(e.a.w) {
				continue
			}
			lit := bvLit(v, e.w)
			if e.w == 0 {
				lit = "true"
			}
			fmt.Fprintf(w, "(ite (= %s %s) %s ", idx, bvLit(uint64(i), e.a.w), lit)
			n++
		}
		if e.w == 0 {
			w.WriteString("false")
		} else {
			w.WriteString(bvLit(0, e.w))
		}
		w.WriteString(strings.Repeat(")", n))
	case OU8:
		i, l := e.k&0xff, e.k>>8
		lo := 6 * (l - 1 - i)
		r := s.ref(e.a)
		switch {
		case i > 0:
			fmt.Fprintf(w, "(concat #b10 ((_ extract %d %d) %s))", lo+5, lo, r)
		case l == 1:
			fmt.Fprintf(w, "(concat #b0 ((_ extract 6 0) %s))", r)
		case l == 2:
			fmt.Fprintf(w, "(concat #b110 ((_ extract %d %d) %s))", lo+4, lo, r)
		case l == 3:
			fmt.Fprintf(w, "(concat #x%s ((_ extract %d %d) %s))", "e", lo+3, lo, r)
		default:
			fmt.Fprintf(w, "(concat #b11110 ((_ extract %d %d) %s))", lo+2, lo, r)
		}
	default:
		fmt.Fprintf(w, "(%s", smtOps[e.op])
		for _, x := range []*Expr{e.a, e.b, e.c} {
			if x != nil {
				w.WriteString(" ")
				w.WriteString(s.ref(x))
			}
		}
		w.WriteString(")")
	}
	w.WriteString(")\n")
}

const (
	resUnsat = iota
	resSat
	resUnknown
)

func (s *Solver) readResult() int {
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	t := time.Now()
	line, err := s.out.ReadString('\n')
	atomic.AddInt64(&sstats.Nanos, int64(time.Since(t)))
	atomic.AddInt64(&sstats.Queries, 1)
	if err != nil {
		atomic.AddInt64(&sstats.Errors, 1)
		fatalf("solver died: %v", err)
	}
	switch strings.TrimSpace(line) {
	case "sat":
		atomic.AddInt64(&sstats.Sat, 1)
		return resSat
	case "unsat":
		atomic.AddInt64(&sstats.Unsat, 1)
		return resUnsat
	case "unknown":
		atomic.AddInt64(&sstats.Unknown, 1)
		return resUnknown
	}
	atomic.AddInt64(&sstats.Errors, 1)
	fatalf("solver said %q", line)
	return resUnknown
}

// checkWith checks the conjunction of conds; the values of the given variables
// are returned on sat. Every query stands alone, in one scope of its own: with
// many nested scopes, z3 5.3.2 has been seen to return models that violate an
// assertion.
func (s *Solver) checkWith(conds []*Expr, model []int32) (int, map[int32]uint64) {
	if s.ndef > 400000 {
		s.restart()
	}
	// declarations come with assertions on the domains, so they are made outside the scope
	for _, c := range conds {
		for _, v := range c.vars {
			s.declVar(v)
		}
	}
	for _, v := range model {
		s.declVar(v)
	}
	for _, c := range conds {
		s.define(c)
	}
	s.in.WriteString("(push 1)\n")
	for _, c := range conds {
		fmt.Fprintf(s.in, "(assert %s)\n", s.ref(c))
	}
	r := s.readResult()
	if len(cross) > 0 && r == resUnsat {
		s.crossCheck(conds)
	}
	var m map[int32]uint64
	if r == resSat && model != nil {
		m = map[int32]uint64{}
		for _, v := range model {
			fmt.Fprintf(s.in, "(get-value (%s))\n", varName(v))
		}
		s.in.Flush()
		for _, v := range model {
			line, err := s.out.ReadString('\n')
			if err != nil {
				fatalf("solver died in get-value: %v", err)
			}
			m[v] = parseValue(line)
		}
	}
	s.in.WriteString("(pop 1)\n")
	return r, m
}

// slice lists the conditions of pc that extra depends on, through shared
// variables, and extra itself. The path being feasible, extra is consistent
// with it exactly if it is with these.
func slice(pc *pcNode, extra []*Expr) []*Expr {
	in := map[int32]bool{}
	for _, e := range extra {
		for _, v := range e.vars {
			in[v] = true
		}
	}
	var rest []*Expr
	for n := pc; n != nil; n = n.parent {
		rest = append(rest, n.cond)
	}
	out := append([]*Expr(nil), extra...)
	for again := true; again; {
		again = false
		k := rest[:0]
		for _, c := range rest {
			hit := false
			for _, v := range c.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if !hit {
				k = append(k, c)
				continue
			}
			out = append(out, c)
			for _, v := range c.vars {
				if !in[v] {
					in[v], again = true, true
				}
			}
		}
		rest = k
	}
	return out
}

func conditions(pc *pcNode, extra []*Expr) []*Expr {
	out := append([]*Expr(nil), extra...)
	for n := pc; n != nil; n = n.parent {
		out = append(out, n.cond)
	}
	return out
}

var (
	verdicts  sync.Map // string of sorted expression ids -> int
	cacheHits int64
	cross     = strings.Fields(os.Getenv("SYM_CROSS"))
)

// consistent reports whether extra is consistent with the (feasible) path.
func (s *Solver) consistent(pc *pcNode, extra *Expr) int {
	cs := slice(pc, []*Expr{extra})
	ids := make([]uint32, len(cs))
	for i, c := range cs {
		ids[i] = c.id
	}
	slices.Sort(ids)
	key := make([]byte, 0, 4*len(ids))
	for i, id := range ids {
		if i == 0 || id != ids[i-1] {
			key = binary.LittleEndian.AppendUint32(key, id)
		}
	}
	if r, ok := verdicts.Load(string(key)); ok {
		atomic.AddInt64(&cacheHits, 1)
		return r.(int)
	}
	r, _ := s.checkWith(cs, nil)
	if r != resUnknown {
		verdicts.Store(string(key), r)
	}
	return r
}

func parseValue(line string) uint64 {
	line = strings.TrimSpace(line)
	if i := strings.Index(line, "#x"); i >= 0 {
		v, err := strconv.ParseUint(strings.TrimRight(line[i+2:], ")"), 16, 64)
		if err == nil {
			return v
		}
	}
	if i := strings.Index(line, "#b"); i >= 0 {
		v, err := strconv.ParseUint(strings.TrimRight(line[i+2:], ")"), 2, 64)
		if err == nil {
			return v
		}
	}
	if strings.Contains(line, " true)") {
		return 1
	}
	if strings.Contains(line, " false)") {
		return 0
	}
	fatalf("cannot parse solver value %q", line)
	return 0
}

// crossCheck puts the question to a second solver, from scratch.
func (s *Solver) crossCheck(conds []*Expr) {
	if s.second == nil {
		s.second = newSolver(cross)
	}
	if s.second.ndef > 2000 {
		s.second.restart()
	}
	o := s.second
	for _, c := range conds {
		for _, v := range c.vars {
			o.declVar(v)
		}
	}
	for _, c := range conds {
		o.define(c)
	}
	o.in.WriteString("(push 1)\n")
	for _, c := range conds {
		fmt.Fprintf(o.in, "(assert %s)\n", o.ref(c))
	}
	r := o.readResult()
	o.in.WriteString("(pop 1)\n")
	atomic.AddInt64(&crossed, 1)
	if r != resUnsat {
		fatalf("the second solver says %d to what is unsatisfiable for the first", r)
	}
}

var crossed int64
