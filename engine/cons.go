package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"sync/atomic"
)

// ---------------------------------------------------------------- constraints

type bs4 = [4]uint64

type pcNode struct {
	cond   *Expr
	parent *pcNode
	depth  int
}

// CState is the constraint state of a path.
type CState struct {
	pc    *pcNode
	dom   []bs4 // by variable index; valid where set
	set   []bool
	link  []bool
	wdom  []*ivset
	facts pset
}

func (c *CState) clone() *CState {
	return &CState{pc: c.pc, dom: append([]bs4(nil), c.dom...), set: append([]bool(nil), c.set...),
		link: append([]bool(nil), c.link...), wdom: append([]*ivset(nil), c.wdom...), facts: c.facts}
}

func (c *CState) grow(i int32) {
	for int(i) >= len(c.dom) {
		c.dom = append(c.dom, bs4{})
		c.set = append(c.set, false)
		c.link = append(c.link, false)
	}
}

func (c *CState) domOf(v *Var) bs4 {
	if int(v.idx) < len(c.dom) && c.set[v.idx] {
		return c.dom[v.idx]
	}
	return v.dom
}

func (c *CState) linked(i int32) bool { return int(i) < len(c.link) && c.link[i] }

// pset is a persistent set of expression ids.
type pset struct{ root *pnode }
type pnode struct {
	kids [16]*pnode
	bits uint16 // at the last level
}

func (p *pset) has(e *Expr) bool {
	n := p.root
	for sh := 28; sh > 0; sh -= 4 {
		if n == nil {
			return false
		}
		n = n.kids[e.id>>uint(sh)&15]
	}
	return n != nil && n.bits>>(e.id&15)&1 != 0
}

func (p *pset) add(e *Expr) { p.root = p.root.add(e.id, 28) }

func (n *pnode) add(id uint32, sh int) *pnode {
	var m pnode
	if n != nil {
		m = *n
	}
	if sh == 0 {
		m.bits |= 1 << (id & 15)
		return &m
	}
	i := id >> uint(sh) & 15
	m.kids[i] = m.kids[i].add(id, sh-4)
	return &m
}

// ---------------------------------------------------------------- lemmas

// A lemma is a pruning step to be validated by the solver:
// v in D implies cond.
type lemma struct {
	v    int32
	d    bs4
	cond *Expr
}

type lemmaKey struct {
	v  int32
	d  bs4
	id uint32
}

var (
	lemmaMu   sync.Mutex
	lemmaSeen = map[lemmaKey]bool{}
	nLemmas   int64
)

func inDom(v *Var, d bs4) *Expr {
	tbl := make([]uint64, 256)
	n := 0
	for i := 0; i < 256; i++ {
		if d[i>>6]>>(uint(i)&63)&1 != 0 {
			tbl[i] = 1
			n++
		}
	}
	if n == 256 {
		return eTrue
	}
	return eTbl(v.expr, 0, tbl)
}

// lemma records that the decision procedure used "v in d implies cond".
func (m *M) lemma(v *Var, d bs4, cond *Expr) {
	k := lemmaKey{v.idx, d, cond.id}
	lemmaMu.Lock()
	seen := lemmaSeen[k]
	if !seen {
		lemmaSeen[k] = true
	}
	lemmaMu.Unlock()
	if seen {
		return
	}
	atomic.AddInt64(&nLemmas, 1)
	m.lemmas = append(m.lemmas, lemma{v.idx, d, cond})
	if len(m.lemmas) >= 128 {
		m.flushLemmas()
	}
}

func (m *M) flushLemmas() {
	if len(m.lemmas)+len(m.wlemmas) == 0 {
		return
	}
	// fresh copy of the variable per lemma is unnecessary: a disjunction over
	// the same variables is satisfiable iff one disjunct is.
	bad := eFalse
	for _, l := range m.lemmas {
		bad = eOr(bad, eAnd(inDom(varOf(l.v), l.d), eNot(l.cond)))
	}
	m.lemmas = m.lemmas[:0]
	for _, l := range m.wlemmas {
		bad = eOr(bad, l.negation())
	}
	m.wlemmas = m.wlemmas[:0]
	if bad == eFalse {
		return
	}
	r, _ := m.solver.checkWith([]*Expr{bad}, nil)
	atomic.AddInt64(&sstats.LemmaQueries, 1)
	if r != resUnsat {
		fatalf("solver refuted a pruning lemma (result %d)", r)
	}
}

// ---------------------------------------------------------------- decisions

const (
	kTrue = iota
	kFalse
	kBoth
	kUnknown
)

// classify decides cond under the current constraints without the solver where
// that is exact, and records the lemmas it relied on.
func (m *M) classify(c *Expr) int {
	if c.op == ONot {
		switch m.classify(c.a) {
		case kTrue:
			return kFalse
		case kFalse:
			return kTrue
		case kBoth:
			return kBoth
		}
		return kUnknown
	}
	if c.isConst() {
		if c.k != 0 {
			return kTrue
		}
		return kFalse
	}
	cs := m.cs
	if cs.facts.has(c) {
		return kTrue
	}
	if cs.facts.has(eNot(c)) {
		return kFalse
	}
	if v := c.smallVar(); v != nil {
		d := cs.domOf(v)
		b := bsAnd(d, c.bitset())
		if bsEmpty(b) {
			m.lemma(v, d, eNot(c))
			return kFalse
		}
		if b == d {
			m.lemma(v, d, c)
			return kTrue
		}
		if cs.linked(v.idx) {
			return kUnknown
		}
		return kBoth
	}
	if v := c.wideVar(); v != nil {
		if s := c.wideSet(); s != nil {
			d := cs.wideDom(v)
			b := ivAnd(d, s)
			if len(b.iv) == 0 {
				m.wlemma(v, d, eNot(c))
				return kFalse
			}
			if b == d {
				m.wlemma(v, d, c)
				return kTrue
			}
			if cs.linked(v.idx) {
				return kUnknown
			}
			return kBoth
		}
	}
	if len(c.vars) == 0 {
		// a constant expression that did not fold
		if evalExpr(c, nil, map[*Expr]uint64{}) != 0 {
			return kTrue
		}
		return kFalse
	}
	switch c.op {
	case OAnd, OOr:
		l, r := m.classify(c.a), m.classify(c.b)
		if c.op == OAnd {
			if l == kFalse || r == kFalse {
				return kFalse
			}
			if l == kTrue {
				return r
			}
			if r == kTrue {
				return l
			}
		} else {
			if l == kTrue || r == kTrue {
				return kTrue
			}
			if l == kFalse {
				return r
			}
			if r == kFalse {
				return l
			}
		}
		if l == kBoth && r == kBoth && disjoint(c.a.vars, c.b.vars) && m.unlinkedAll(c) {
			return kBoth
		}
	}
	return kUnknown
}

func (m *M) unlinkedAll(c *Expr) bool {
	for _, i := range c.vars {
		if m.cs.linked(i) || !varOf(i).small {
			return false
		}
	}
	return true
}

// assume adds a condition (known to be satisfiable with the path).
func (m *M) assume(c *Expr) {
	if c.isConst() {
		return
	}
	cs := m.cs
	if cs.facts.has(c) {
		return
	}
	if c.op == OAnd {
		m.assume(c.a)
		m.assume(c.b)
		return
	}
	if c.op == ONot && c.a.op == OOr {
		m.assume(eNot(c.a.a))
		m.assume(eNot(c.a.b))
		return
	}
	d := 1
	if cs.pc != nil {
		d = cs.pc.depth + 1
	}
	cs.pc = &pcNode{cond: c, parent: cs.pc, depth: d}
	cs.facts.add(c)
	if v := c.smallVar(); v != nil {
		cs.grow(v.idx)
		cs.dom[v.idx] = bsAnd(cs.domOf(v), c.bitset())
		cs.set[v.idx] = true
		return
	}
	if v := c.wideVar(); v != nil {
		if s := c.wideSet(); s != nil {
			cs.setWide(v, ivAnd(cs.wideDom(v), s))
			return
		}
	}
	for _, i := range c.vars {
		cs.grow(i)
		cs.link[i] = true
	}
}

// decide resolves a symbolic condition, forking the path when both outcomes
// are possible.
func (m *M) decide(c *Expr) bool {
	if c.isConst() {
		return c.k != 0
	}
	if m.spec > 0 {
		panic(subAbort{"decision while speculating"})
	}
	if len(c.vars) > 1 && (m.pos < len(m.prefix) && m.prefix[m.pos] <= splitMark || m.pos >= len(m.prefix) && m.classify(c) == kUnknown) {
		c = m.split(c)
		if c.isConst() {
			return c.k != 0
		}
	}
	if m.pos < len(m.prefix) {
		b := m.prefix[m.pos]
		if dbgTrace {
			m.dbg = append(m.dbg, fmt.Sprintf("%d@%s", c.id, m.backtrace()))
			if m.dbg[m.pos] != m.pdbg[m.pos] {
				fatalf("decision %d: %s, before %s", m.pos, m.dbg[m.pos], m.pdbg[m.pos])
			}
		}
		m.pos++
		if m.pos == len(m.prefix) {
			m.endPrefix()
		}
		return b != 0
	}
	if dbgTrace {
		m.dbg = append(m.dbg, fmt.Sprintf("%d@%s", c.id, m.backtrace()))
	}
	k := m.classify(c)
	if k == kUnknown && dbgProf {
		profMu.Lock()
		prof[m.backtrace()+fmt.Sprintf(" vars=%d depth=%d", len(c.vars), func() int {
			if m.cs.pc == nil {
				return 0
			}
			return m.cs.pc.depth
		}())]++
		profMu.Unlock()
	}
	if k == kUnknown {
		sat1 := m.feasible(c)
		if !sat1 {
			k = kFalse
		} else if !m.feasible(eNot(c)) {
			k = kTrue
		} else {
			k = kBoth
		}
		if k != kBoth {
			if k == kTrue {
				m.cs.facts.add(c)
			} else {
				m.cs.facts.add(eNot(c))
			}
		}
	}
	switch k {
	case kTrue:
		m.trace = append(m.trace, 1)
		return true
	case kFalse:
		m.trace = append(m.trace, 0)
		return false
	}
	if m.branchHook != nil {
		m.branchHook(m)
	}
	// fork
	alt := m.cs.clone()
	tr := m.trace
	m.cs, alt = alt, m.cs
	m.assume(eNot(c))
	m.cs, alt = alt, m.cs
	m.pushAlt(&work{prefix: append(tr[:len(tr):len(tr)], 0), cs: alt, dbg: m.dbg[:len(m.dbg):len(m.dbg)]})
	m.assume(c)
	m.trace = append(m.trace, 1)
	m.nforks++
	return true
}

// feasible asks the solver whether c is consistent with the path.
func (m *M) feasible(c *Expr) bool {
	r := m.solver.consistent(m.cs.pc, c)
	atomic.AddInt64(&sstats.BranchQueries, 1)
	if r == resUnknown {
		m.unknown++
		return true
	}
	return r == resSat
}

// concretize forks the path over the possible values of e.
func (m *M) concretize(e *Expr) uint64 {
	if e.isConst() {
		return e.k
	}
	if m.spec > 0 {
		panic(subAbort{"decision while speculating"})
	}
	if m.pos < len(m.prefix) {
		v := m.prefix[m.pos]
		m.pos++
		if m.pos == len(m.prefix) {
			m.endPrefix()
		}
		return uint64(v)
	}
	var vals []uint64
	if v := e.smallVar(); v != nil {
		d := m.cs.domOf(v)
		t := e.table()
		seen := map[uint64]bool{}
		for i := 0; i < 256; i++ {
			if d[i>>6]>>(uint(i)&63)&1 != 0 && !seen[t[i]] {
				seen[t[i]] = true
				vals = append(vals, t[i])
			}
		}
		or := eFalse
		for _, x := range vals {
			or = eOr(or, eEq(e, konst(e.w, x)))
		}
		m.lemma(v, d, or)
		if m.cs.linked(v.idx) {
			var f []uint64
			for _, x := range vals {
				if m.feasible(eEq(e, konst(e.w, x))) {
					f = append(f, x)
				}
			}
			vals = f
		}
	} else {
		var block []*Expr
		base := slice(m.cs.pc, []*Expr{e})[1:]
		for {
			r, mod := m.solver.checkWith(append(base[:len(base):len(base)], block...), e.vars)
			atomic.AddInt64(&sstats.BranchQueries, 1)
			if r == resUnsat {
				break
			}
			if r != resSat || len(vals) > 300 {
				unsup("cannot enumerate the values of an expression")
			}
			x := evalExpr(e, mod, map[*Expr]uint64{})
			vals = append(vals, x)
			block = append(block, eNot(eEq(e, konst(e.w, x))))
		}
	}
	if len(vals) == 0 {
		panic(pathEnd{"infeasible"})
	}
	for i := len(vals) - 1; i >= 1; i-- {
		alt := m.cs.clone()
		tr := m.trace
		m.cs, alt = alt, m.cs
		m.assume(eEq(e, konst(e.w, vals[i])))
		m.cs, alt = alt, m.cs
		m.pushAlt(&work{prefix: append(tr[:len(tr):len(tr)], int64(vals[i])), cs: alt, dbg: m.dbg[:len(m.dbg):len(m.dbg)]})
	}
	m.assume(eEq(e, konst(e.w, vals[0])))
	m.trace = append(m.trace, int64(vals[0]))
	return vals[0]
}

func (m *M) truth(v V) bool {
	if v.p == nil {
		return v.n != 0
	}
	return m.decide(v.p.(*Expr))
}

var dbgProf = os.Getenv("SYM_PROF") != ""
var prof = map[string]int{}
var profMu sync.Mutex

var dbgTrace = os.Getenv("SYM_DEBUG") != ""

// endPrefix installs the constraint state recorded at the fork.
func (m *M) endPrefix() {
	m.cs = m.pendCS
	m.trace = append(m.trace[:0:0], m.prefix...)
	m.pendCS = nil
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "ENGINE-ERROR: "+strings.TrimSuffix(f, "\n")+"\n", a...)
	os.Exit(2)
}
