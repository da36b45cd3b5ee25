package main

import (
	"fmt"
	"go/types"
	"strings"
)

// pathEnd ends the current path quietly.
type pathEnd struct{ why string }

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v     V
	msg   string // for run-time errors
	stack string
}

// subAbort abandons a merged sub-exploration or a speculation.
type subAbort struct{ why string }

// unsupported means that the engine cannot encode the code.
type unsupported struct{ why string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

type work struct {
	prefix []int64
	cs     *CState
	dbg    []string
}

type obsItem struct {
	label  string
	v      V
	str    bool
	signed bool
	w      uint8
}

// M is one interpreter: a worker has one, and re-executes the harness from the
// start for every path, following a recorded prefix of decisions.
type M struct {
	eng    *Engine
	solver *Solver
	stack  []V
	sp     int
	calls  []*Fn

	globals []*Obj
	baseID  int32
	nextID  int32
	undoO   []undoObj
	undoM   []undoMap
	inited  bool
	initing bool
	initStd bool

	// constraint solving
	cs         *CState
	pendCS     *CState
	prefix     []int64
	pos        int
	trace      []int64
	wlemmas    []wlemma
	lemmas     []lemma
	pushAlt    func(*work)
	branchHook func(*M)
	nforks     int
	unknown    int

	spec       int // >0 while speculating
	sub        int // >0 inside a merged sub-exploration
	steps      int64
	maxSteps   int64
	totalSteps int64

	mark     int32
	frozen   string
	observed []obsItem
	reached  []string
	nvars    map[string]int
	hr       *HarnessRun
	curPanic []*panicState

	pureMemo  map[string]*pureRes
	usedFns   map[*Fn]bool
	pathVars  []*Var
	dbg, pdbg []string
	subBasesL []int32
}

type panicState struct {
	tp        *targetPanic
	recovered bool
}

type undoObj struct {
	o     *Obj
	slots []V
}
type undoMap struct {
	o *MapObj
	c MapObj
}

func newM(e *Engine) *M {
	return &M{eng: e, solver: newSolver(e.solverArgv), stack: make([]V, 1<<19), nextID: 1,
		maxSteps: 1 << 40, pureMemo: map[string]*pureRes{}, usedFns: map[*Fn]bool{}}
}

func (m *M) newObj(what string, n int) *Obj {
	o := &Obj{slots: make([]V, n), id: m.nextID, what: what, base: m.initing, std: m.initStd}
	m.nextID++
	return o
}

func (m *M) newMap() *MapObj {
	o := &MapObj{id: m.nextID, base: m.initing, std: m.initStd, index: map[any]int{}}
	m.nextID++
	return o
}

func (m *M) resetHeap() {
	for _, u := range m.undoO {
		copy(u.o.slots, u.slots)
		u.o.saved = false
	}
	for _, u := range m.undoM {
		c := u.c
		*u.o = c
		u.o.saved = false
	}
	m.undoO, m.undoM = m.undoO[:0], m.undoM[:0]
	m.nextID = m.baseID
}

// touch must precede every write to an object.
func (m *M) touch(o *Obj, fn *Fn) {
	if o.base && !o.saved && !m.initing {
		o.saved = true
		m.undoO = append(m.undoO, undoObj{o, append([]V(nil), o.slots...)})
	}
	if o.id < m.mark && !o.std && (fn == nil || !fn.harness) && m.frozen == "" {
		w := "?"
		if fn != nil {
			w = fn.name
		}
		m.frozen = fmt.Sprintf("%s writes to %s, which existed before", w, o.what)
	}
	if m.spec > 0 {
		panic(subAbort{"write while speculating"})
	}
	if m.sub > 0 && o.id < m.subBase() {
		panic(subAbort{"write to an outer object"})
	}
}

func (m *M) subBase() int32 { return m.subBasesL[len(m.subBasesL)-1] }

func (m *M) touchMap(o *MapObj, fn *Fn) {
	if o.base && !o.saved && !m.initing {
		o.saved = true
		c := *o
		c.saved = false
		c.entries = append([]mapEntry(nil), o.entries...)
		c.index = make(map[any]int, len(o.index))
		for k, v := range o.index {
			c.index[k] = v
		}
		m.undoM = append(m.undoM, undoMap{o, c})
	}
	if o.id < m.mark && !o.std && (fn == nil || !fn.harness) && m.frozen == "" {
		w := "?"
		if fn != nil {
			w = fn.name
		}
		m.frozen = w + " writes to a map which existed before"
	}
	if m.spec > 0 || (m.sub > 0 && o.id < m.subBase()) {
		panic(subAbort{"map write"})
	}
}

func (m *M) load(o *Obj, off int, ti *TypeInfo) V {
	if !ti.agg {
		return o.slots[off]
	}
	s := make([]V, ti.slots)
	copy(s, o.slots[off:off+ti.slots])
	return V{p: &Agg{s: s}}
}

func (m *M) storeAt(o *Obj, off int, v V, ti *TypeInfo) {
	if !ti.agg {
		o.slots[off] = v
		return
	}
	if ti.slots == 0 {
		return
	}
	copy(o.slots[off:off+ti.slots], v.p.(*Agg).s)
}

// rtPanic raises a run-time error of the interpreted program.
func (m *M) rtPanic(f string, a ...any) {
	if m.spec > 0 {
		panic(subAbort{"trap"})
	}
	msg := fmt.Sprintf(f, a...)
	iv := V{p: &Iface{t: m.eng.tiRuntimeErr, v: strV("runtime error: " + msg)}}
	panic(&targetPanic{v: iv, msg: "runtime error: " + msg, stack: m.backtrace()})
}

func (m *M) backtrace() string {
	var b []string
	for i := len(m.calls) - 1; i >= 0 && len(b) < 12; i-- {
		b = append(b, m.calls[i].name)
	}
	return strings.Join(b, " < ")
}

const maxDepth = 20000

// call runs a function to completion.
func (m *M) call(fn *Fn, args []V, binds []V) V {
	if fn.intr != nil {
		return fn.intr(m, args)
	}
	r, osp := m.enter(fn)
	copy(r, args)
	copy(r[len(args):], binds)
	return m.finish(fn, r, osp)
}

// enter allocates a frame.
func (m *M) enter(fn *Fn) ([]V, int) {
	fn.prepare(m.eng)
	if fn.blocks == nil {
		unsup("function without body: %s", fn.name)
	}
	if len(m.calls) > maxDepth {
		if m.spec > 0 || m.sub > 0 {
			panic(subAbort{"depth"})
		}
		panic(&targetPanic{msg: "stack overflow", stack: m.backtrace()})
	}
	sp := m.sp
	if sp+fn.nregs > len(m.stack) {
		// frames in use keep referring to the old array, which stays valid
		m.stack = make([]V, 2*len(m.stack)+fn.nregs)
		sp = 0
	}
	r := m.stack[sp : sp+fn.nregs : sp+fn.nregs]
	clear(r)
	for i := range fn.globals {
		g := &fn.globals[i]
		r[g.reg] = V{p: m.global(g.idx, g.g)}
	}
	osp := m.sp
	m.sp = sp + fn.nregs
	m.calls = append(m.calls, fn)
	return r, osp
}

func (m *M) finish(fn *Fn, r []V, osp int) V {
	var res V
	if fn.hasDefer {
		res = m.runWithDefers(fn, r)
	} else {
		res = m.run(fn, r, fn.blocks[0])
	}
	m.calls = m.calls[:len(m.calls)-1]
	m.sp = osp
	return res
}

func (m *M) run(fn *Fn, r []V, b *Block) V {
	for {
		for _, in := range b.ins {
			in(m, r)
		}
		m.steps += int64(b.n)
		if m.steps > m.maxSteps {
			panic(stepLimit{m.backtrace()})
		}
		switch b.term {
		case tJump:
			b = m.edge(b, 0, r)
		case tIf:
			c := b.cond.get(r)
			if c.p == nil {
				if c.n != 0 {
					b = m.edge(b, 0, r)
				} else {
					b = m.edge(b, 1, r)
				}
			} else {
				b = m.symIf(b, c.p.(*Expr), r)
			}
		case tReturn:
			switch len(b.rets) {
			case 0:
				return V{}
			case 1:
				return b.rets[0].get(r)
			}
			vs := make([]V, len(b.rets))
			for i := range b.rets {
				vs[i] = b.rets[i].get(r)
			}
			return V{p: &Agg{s: vs}}
		case tPanic:
			v := b.cond.get(r)
			if m.spec > 0 {
				panic(subAbort{"panic"})
			}
			panic(&targetPanic{v: v, msg: "panic: " + m.showPanic(v), stack: m.backtrace()})
		default:
			unsup("block without terminator in %s", fn.name)
		}
	}
}

type stepLimit struct{ stack string }

// edge moves along successor i of b, assigning phis.
func (m *M) edge(b *Block, i int, r []V) *Block {
	t := b.succ[i]
	ph := b.phis[i]
	switch len(ph) {
	case 0:
	case 1:
		r[ph[0].dst] = ph[0].src.get(r)
	default:
		var tmp [8]V
		vs := tmp[:0]
		for k := range ph {
			vs = append(vs, ph[k].src.get(r))
		}
		for k := range ph {
			r[ph[k].dst] = vs[k]
		}
	}
	return t
}

type fedge struct {
	from  *Block
	i     int
	guard *Expr
}

// symIf handles a branch on a symbolic condition: side-effect-free blocks
// reached only through it are evaluated under guards, so that a compound
// condition or a small selection forks the path once or not at all.
func (m *M) symIf(b *Block, c *Expr, r []V) *Block {
	if !b.tryMerge {
		if m.decide(c) {
			return m.edge(b, 0, r)
		}
		return m.edge(b, 1, r)
	}
	front, ok := m.expand(b, c, r)
	if !ok {
		if m.decide(c) {
			return m.edge(b, 0, r)
		}
		return m.edge(b, 1, r)
	}
	// group by target
	type group struct {
		t     *Block
		edges []fedge
		guard *Expr
	}
	var groups []*group
	for _, e := range front {
		t := e.from.succ[e.i]
		var g *group
		for _, x := range groups {
			if x.t == t && m.phisMerge(x.edges[0], e, r) {
				g = x
				break
			}
		}
		if g == nil {
			g = &group{t: t, guard: eFalse}
			groups = append(groups, g)
		}
		g.edges = append(g.edges, e)
		g.guard = eOr(g.guard, e.guard)
	}
	// the two-way group from a plain branch keeps its own condition
	for gi, g := range groups {
		if gi < len(groups)-1 && !m.decide(g.guard) {
			continue
		}
		if len(g.edges) == 1 {
			return m.edge(g.edges[0].from, g.edges[0].i, r)
		}
		last := g.edges[len(g.edges)-1]
		n := len(last.from.phis[last.i])
		vals := make([]V, n)
		for k := 0; k < n; k++ {
			v := last.from.phis[last.i][k].src.get(r)
			for j := len(g.edges) - 2; j >= 0; j-- {
				e := g.edges[j]
				ph := e.from.phis[e.i][k]
				v = mergeV(e.guard, ph.src.get(r), v, ph.ti)
			}
			vals[k] = v
		}
		for k := 0; k < n; k++ {
			r[last.from.phis[last.i][k].dst] = vals[k]
		}
		return g.t
	}
	panic("unreachable")
}

func (m *M) phisMerge(x, y fedge, r []V) bool {
	a, b := x.from.phis[x.i], y.from.phis[y.i]
	for k := range a {
		if a[k].ti.w != 255 {
			continue
		}
		if !sameV(a[k].src.get(r), b[k].src.get(r)) {
			return false
		}
	}
	return true
}

func sameV(a, b V) bool {
	if a.n != b.n {
		return false
	}
	if a.p == b.p {
		return true
	}
	sa, ok1 := a.p.(*Str)
	sb, ok2 := b.p.(*Str)
	if ok1 && ok2 && sa.sym == nil && sb.sym == nil {
		return sa.s == sb.s
	}
	ia, ok1 := a.p.(*Iface)
	ib, ok2 := b.p.(*Iface)
	if ok1 && ok2 {
		return ia.t == ib.t && sameV(ia.v, ib.v)
	}
	return false
}

// mergeV is "if g then a else b" for scalars, or either when they are the same.
func mergeV(g *Expr, a, b V, ti *TypeInfo) V {
	if sameV(a, b) {
		return a
	}
	return exprV(eIte(g, exprOf(a, ti.w), exprOf(b, ti.w)), ti)
}

func (m *M) expand(b *Block, c *Expr, r []V) (front []fedge, ok bool) {
	m.spec++
	steps, nc, sp := m.steps, len(m.calls), m.sp
	defer func() {
		m.spec--
		if x := recover(); x != nil {
			if _, is := x.(subAbort); is {
				m.steps = steps
				m.calls = m.calls[:nc]
				m.sp = sp
				ok = false
				return
			}
			panic(x)
		}
	}()
	todo := []fedge{{b, 0, c}, {b, 1, eNot(c)}}
	nblk := 0
	for len(todo) > 0 {
		e := todo[0]
		todo = todo[1:]
		t := e.from.succ[e.i]
		if !t.passable || t.npreds != 1 || nblk > 40 || e.guard == eFalse {
			if e.guard != eFalse {
				front = append(front, e)
			}
			continue
		}
		nblk++
		m.edge(e.from, e.i, r)
		for _, in := range t.ins {
			in(m, r)
		}
		m.steps += int64(t.n)
		if t.term == tJump {
			todo = append([]fedge{{t, 0, e.guard}}, todo...)
			continue
		}
		cv := t.cond.get(r)
		if cv.p == nil {
			i := 1
			if cv.n != 0 {
				i = 0
			}
			todo = append([]fedge{{t, i, e.guard}}, todo...)
			continue
		}
		ce := cv.p.(*Expr)
		todo = append([]fedge{{t, 0, eAnd(e.guard, ce)}, {t, 1, eAnd(e.guard, eNot(ce))}}, todo...)
	}
	return front, true
}

// ---------------------------------------------------------------- defers

type deferred struct {
	fn func(m *M)
}

type deferList struct{ l []deferred }

func (m *M) runWithDefers(fn *Fn, r []V) (res V) {
	dl := &deferList{}
	r[fn.deferReg] = V{p: dl}
	nc, sp := len(m.calls), m.sp
	ok := false
	func() {
		defer func() {
			if ok {
				return
			}
			x := recover()
			tp, is := x.(*targetPanic)
			if !is {
				panic(x)
			}
			m.calls = m.calls[:nc]
			m.sp = sp
			ps := &panicState{tp: tp}
			m.runDefers(dl, ps)
			if !ps.recovered {
				panic(ps.tp)
			}
		}()
		res = m.run(fn, r, fn.blocks[0])
		ok = true
	}()
	if ok {
		return res
	}
	// recovered: run the recover block
	if fn.recoverB != nil {
		return m.run(fn, r, fn.recoverB)
	}
	return fn.zeroRes()
}

// runDefers runs the deferred calls; ps is the panic in progress, if any.
func (m *M) runDefers(dl *deferList, ps *panicState) {
	for len(dl.l) > 0 {
		d := dl.l[len(dl.l)-1]
		dl.l = dl.l[:len(dl.l)-1]
		nc, sp := len(m.calls), m.sp
		func() {
			m.curPanic = append(m.curPanic, ps)
			np := len(m.curPanic)
			defer func() {
				m.curPanic = m.curPanic[:np-1]
				if ps == nil {
					return
				}
				if x := recover(); x != nil {
					if tp, is := x.(*targetPanic); is {
						m.calls = m.calls[:nc]
						m.sp = sp
						ps.tp = tp
						ps.recovered = false
						return
					}
					panic(x)
				}
			}()
			d.fn(m)
		}()
	}
}

func (m *M) recoverCall() V {
	if n := len(m.curPanic); n > 0 && m.curPanic[n-1] != nil && !m.curPanic[n-1].recovered {
		ps := m.curPanic[n-1]
		ps.recovered = true
		v := ps.tp.v
		if v.p == nil {
			return V{p: &Iface{t: m.eng.tiRuntimeErr, v: strV(ps.tp.msg)}}
		}
		return v
	}
	return V{}
}

func (m *M) showPanic(v V) string {
	if v.p == nil {
		return "nil"
	}
	ifc, ok := v.p.(*Iface)
	if !ok {
		return "?"
	}
	if ifc.t.isStr {
		return showStr(ifc.v)
	}
	if ifc.t.w != 255 && ifc.v.p == nil {
		return fmt.Sprint(ifc.v.n)
	}
	return ifc.t.t.String()
}

// ---------------------------------------------------------------- merging calls

type pureRes struct {
	bad   bool
	conds []*Expr
	vals  []V
}

func anySym(args []V) bool {
	for _, a := range args {
		switch p := a.p.(type) {
		case *Expr:
			return true
		case *Str:
			if p.sym != nil {
				return true
			}
		}
	}
	return false
}

// callPure explores all paths of a side-effect-free function and returns its
// result as one expression per component.
func (m *M) callPure(fn *Fn, args []V) (V, bool) {
	key := ""
	memo := fn.constOnly
	if memo {
		var b strings.Builder
		b.WriteString(fn.name)
		for _, a := range args {
			switch p := a.p.(type) {
			case nil:
				fmt.Fprintf(&b, "/%d", a.n)
			case *Expr:
				fmt.Fprintf(&b, "/e%d", p.id)
			case *Str:
				if p.sym == nil {
					fmt.Fprintf(&b, "/%q", p.s)
				} else {
					for _, c := range p.sym {
						if c.p == nil {
							fmt.Fprintf(&b, ",%d", c.n)
						} else {
							fmt.Fprintf(&b, ",e%d", c.p.(*Expr).id)
						}
					}
				}
			case *Obj:
				if !p.base {
					memo = false
				}
				fmt.Fprintf(&b, "/o%d+%d", p.id, a.n)
			default:
				memo = false
			}
		}
		key = b.String()
	}
	if memo {
		if pr, ok := m.pureMemo[key]; ok {
			if pr.bad {
				return V{}, false
			}
			return m.buildPure(fn, pr), true
		}
	}
	pr := m.explorePure(fn, args)
	if memo {
		m.pureMemo[key] = pr
	}
	if pr.bad {
		return V{}, false
	}
	return m.buildPure(fn, pr), true
}

func (m *M) buildPure(fn *Fn, pr *pureRes) V {
	n := len(pr.vals)
	if len(fn.resTI) == 1 {
		v := pr.vals[n-1]
		for i := n - 2; i >= 0; i-- {
			v = mergeV(pr.conds[i], pr.vals[i], v, fn.resTI[0])
		}
		return v
	}
	out := make([]V, len(fn.resTI))
	for k := range out {
		v := pr.vals[n-1].p.(*Agg).s[k]
		for i := n - 2; i >= 0; i-- {
			v = mergeV(pr.conds[i], pr.vals[i].p.(*Agg).s[k], v, fn.resTI[k])
		}
		out[k] = v
	}
	return V{p: &Agg{s: out}}
}

const pureMaxPaths = 48

func (m *M) explorePure(fn *Fn, args []V) (pr *pureRes) {
	pr = &pureRes{}
	// save the context
	scs, spend, spre, spos, str, spush, shook := m.cs, m.pendCS, m.prefix, m.pos, m.trace, m.pushAlt, m.branchHook
	nc, sp, nid, ncp := len(m.calls), m.sp, m.nextID, len(m.curPanic)
	spec, sdbg, spdbg := m.spec, m.dbg, m.pdbg
	m.spec = 0
	m.sub++
	m.subBasesL = append(m.subBasesL, m.nextID)
	var todo []*work
	defer func() {
		x := recover()
		m.cs, m.pendCS, m.prefix, m.pos, m.trace, m.pushAlt, m.branchHook = scs, spend, spre, spos, str, spush, shook
		m.calls, m.sp, m.nextID, m.curPanic = m.calls[:nc], sp, nid, m.curPanic[:ncp]
		m.spec, m.dbg, m.pdbg = spec, sdbg, spdbg
		m.sub--
		m.subBasesL = m.subBasesL[:len(m.subBasesL)-1]
		switch x := x.(type) {
		case nil:
		case subAbort, *targetPanic, unsupported:
			pr = &pureRes{bad: true}
		default:
			panic(x)
		}
	}()
	m.pushAlt = func(w *work) { todo = append(todo, w) }
	m.branchHook = nil
	todo = append(todo, &work{cs: &CState{}})
	np := 0
	for len(todo) > 0 {
		w := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if np++; np > pureMaxPaths {
			return &pureRes{bad: true}
		}
		m.startPath(w)
		v := m.call(fn, args, nil)
		m.checkMergeable(fn, pr, v)
		c := eTrue
		for n := m.cs.pc; n != nil; n = n.parent {
			c = eAnd(n.cond, c)
		}
		pr.conds = append(pr.conds, c)
		pr.vals = append(pr.vals, v)
	}
	return pr
}

func (m *M) checkMergeable(fn *Fn, pr *pureRes, v V) {
	if len(pr.vals) == 0 {
		return
	}
	for k, ti := range fn.resTI {
		if ti.w != 255 && ti.t != types.Typ[types.Int] {
			continue
		}
		a, b := v, pr.vals[0]
		if len(fn.resTI) > 1 {
			a, b = v.p.(*Agg).s[k], b.p.(*Agg).s[k]
		}
		if !sameV(a, b) {
			panic(subAbort{"results differ"})
		}
	}
}

func (m *M) startPath(w *work) {
	m.prefix, m.pos = w.prefix, 0
	m.trace = nil
	m.dbg, m.pdbg = nil, w.dbg
	m.cs, m.pendCS = w.cs, nil
	if len(w.prefix) > 0 {
		m.pendCS = w.cs
		m.cs = &CState{}
	}
}

// implements checks.
func (m *M) methodFn(ti *TypeInfo, meth *types.Func) *Fn {
	return m.eng.lookupMethod(ti, meth)
}
