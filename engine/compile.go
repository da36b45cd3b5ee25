package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type termKind uint8

const (
	tNone termKind = iota
	tJump
	tIf
	tReturn
	tPanic
)

type opnd struct {
	r int32
	c V
}

func (o *opnd) get(r []V) V {
	if o.r >= 0 {
		return r[o.r]
	}
	return o.c
}

type phiCopy struct {
	dst int32
	src opnd
	ti  *TypeInfo
}

type instr func(m *M, r []V)

type Block struct {
	ins      []instr
	n        int
	term     termKind
	cond     opnd
	rets     []opnd
	succ     [2]*Block
	phis     [2][]phiCopy
	npreds   int
	passable bool
	tryMerge bool
}

// Fn is a compiled function.
type Fn struct {
	ssa       *ssa.Function
	once      sync.Once
	name      string
	nregs     int
	blocks    []*Block
	recoverB  *Block
	hasDefer  bool
	deferReg  int
	intr      func(m *M, args []V) V
	repo      bool
	harness   bool
	std       bool
	used      bool
	pure      int8 // 0 unknown, 1 being computed, 2 pure, 3 not
	constOnly bool
	resTI     []*TypeInfo
	sig       *types.Signature
	ninstr    int
	globals   []globRef
	nargs     int
}

type globRef struct {
	reg int32
	idx int
	g   *ssa.Global
}

func (fn *Fn) zeroRes() V {
	switch len(fn.resTI) {
	case 0:
		return V{}
	case 1:
		return zeroV(fn.resTI[0])
	}
	vs := make([]V, len(fn.resTI))
	for i, t := range fn.resTI {
		vs[i] = zeroV(t)
	}
	return V{p: &Agg{s: vs}}
}

type compiler struct {
	e    *Engine
	fn   *Fn
	regs map[ssa.Value]int32
}

func (fn *Fn) prepare(e *Engine) {
	fn.once.Do(func() {
		if fn.ssa == nil || fn.ssa.Blocks == nil {
			return
		}
		c := &compiler{e: e, fn: fn, regs: map[ssa.Value]int32{}}
		c.compile()
	})
}

func (c *compiler) reg(v ssa.Value) int32 {
	if i, ok := c.regs[v]; ok {
		return i
	}
	i := int32(len(c.regs))
	c.regs[v] = i
	return i
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{r: -1, c: constV(v)}
	case *ssa.Function:
		return opnd{r: -1, c: V{p: &Closure{fn: c.e.fn(v)}}}
	case *ssa.Builtin:
		return opnd{r: -1}
	case *ssa.Global:
		i, ok := c.regs[v]
		if !ok {
			i = c.reg(v)
			c.fn.globals = append(c.fn.globals, globRef{i, c.e.globalIdx(v), v})
		}
		return opnd{r: i}
	}
	return opnd{r: c.reg(v)}
}

func constV(v *ssa.Const) V {
	ti := typeInfo(v.Type())
	if v.Value == nil {
		return zeroV(ti)
	}
	switch {
	case ti.w == 0:
		return boolV(constant.BoolVal(v.Value))
	case ti.w != 255:
		if ti.signed {
			n, ok := constant.Int64Val(constant.ToInt(v.Value))
			if !ok {
				unsup("constant %v", v)
			}
			return V{n: n}
		}
		n, _ := constant.Uint64Val(constant.ToInt(v.Value))
		return V{n: int64(n & mask(ti.w))}
	case ti.isFloat:
		f, _ := constant.Float64Val(v.Value)
		return V{n: int64(math.Float64bits(f))}
	case ti.isStr:
		if v.Value.Kind() == constant.String {
			return strV(constant.StringVal(v.Value))
		}
		n, _ := constant.Int64Val(v.Value)
		return strV(string(rune(n)))
	}
	return V{} // complex constants are not modelled
}

func (c *compiler) compile() {
	f := c.fn.ssa
	fn := c.fn
	for _, p := range f.Params {
		c.reg(p)
	}
	for _, p := range f.FreeVars {
		c.reg(p)
	}
	fn.sig = f.Signature
	blocks := make([]*Block, len(f.Blocks))
	for i, b := range f.Blocks {
		blocks[i] = &Block{npreds: len(b.Preds)}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				fn.hasDefer = true
			}
		}
	}
	if f.Recover != nil {
		for i, b := range f.Blocks {
			if b == f.Recover {
				fn.recoverB = blocks[i]
			}
		}
	}
	// global addresses are bound lazily per machine
	for i, b := range f.Blocks {
		blk := blocks[i]
		blk.passable = true
		for _, in := range b.Instrs {
			fn.ninstr++
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If:
				blk.term = tIf
				blk.cond = c.op(in.Cond)
				blk.succ[0], blk.succ[1] = blocks[b.Succs[0].Index], blocks[b.Succs[1].Index]
			case *ssa.Jump:
				blk.term = tJump
				blk.succ[0] = blocks[b.Succs[0].Index]
			case *ssa.Return:
				blk.term = tReturn
				for _, r := range in.Results {
					blk.rets = append(blk.rets, c.op(r))
				}
				blk.passable = false
			case *ssa.Panic:
				blk.term = tPanic
				blk.cond = c.op(in.X)
				blk.passable = false
			default:
				if !c.passableInstr(in) {
					blk.passable = false
				}
				ins := c.instr(in)
				blk.ins = append(blk.ins, ins)
			}
		}
		blk.n = len(b.Instrs)
	}
	// phi copies per edge. With duplicate edges from one predecessor, the k-th
	// occurrence of the predecessor matches the k-th edge.
	for i, b := range f.Blocks {
		seen := map[*ssa.BasicBlock]int{}
		for pi, p := range b.Preds {
			k := seen[p]
			seen[p]++
			// find the k-th successor edge of p that leads to b
			cnt := 0
			for si, s := range p.Succs {
				if s != b {
					continue
				}
				if cnt == k {
					for _, in := range b.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if si < 2 {
							blocks[p.Index].phis[si] = append(blocks[p.Index].phis[si], phiCopy{c.reg(ph), c.op(ph.Edges[pi]), typeInfo(ph.Type())})
						}
					}
				}
				cnt++
			}
		}
		_ = i
	}
	for _, blk := range blocks {
		if blk.term == tIf {
			for _, s := range blk.succ {
				if s.passable && s.npreds == 1 {
					blk.tryMerge = true
				}
			}
			if blk.succ[0] == blk.succ[1] {
				blk.tryMerge = true
			}
		}
	}
	if fn.hasDefer {
		fn.deferReg = len(c.regs)
		c.regs[nil] = int32(fn.deferReg)
	}
	fn.nregs = len(c.regs)
	fn.blocks = blocks
	c.e.noteFn(fn)
}

// passableInstr: may be executed speculatively (no effects; traps and
// decisions abort the speculation).
func (c *compiler) passableInstr(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.BinOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Extract, *ssa.ChangeType, *ssa.Convert, *ssa.Lookup:
		return true
	case *ssa.UnOp:
		return in.Op != token.ARROW
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		if f := in.Call.StaticCallee(); f != nil {
			return c.e.isPure(c.e.fn(f))
		}
	}
	return false
}

// isPure: no effects on objects that exist outside the call, scalar results.
func (e *Engine) isPure(fn *Fn) bool {
	e.pureMu.Lock()
	defer e.pureMu.Unlock()
	return e.isPureL(fn)
}

func (e *Engine) isPureL(fn *Fn) bool {
	switch fn.pure {
	case 2:
		return true
	case 1, 3:
		return false
	}
	fn.pure = 1
	ok, constOnly := e.computePure(fn)
	fn.constOnly = constOnly
	if ok {
		fn.pure = 2
	} else {
		fn.pure = 3
	}
	return ok
}

func localRoot(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			v = x.X
		default:
			return false
		}
	}
}

func (e *Engine) computePure(fn *Fn) (bool, bool) {
	if fn.intr != nil || fn.ssa == nil || fn.ssa.Blocks == nil || len(fn.ssa.FreeVars) > 0 {
		return false, false
	}
	res := fn.ssa.Signature.Results()
	if res.Len() == 0 || res.Len() > 3 {
		return false, false
	}
	if fn.resTI == nil {
		for i := 0; i < res.Len(); i++ {
			fn.resTI = append(fn.resTI, typeInfo(res.At(i).Type()))
		}
	}
	for _, ti := range fn.resTI {
		if ti.w == 255 && !ti.isStr {
			return false, false
		}
	}
	constOnly := true
	for _, p := range fn.ssa.Params {
		ti := typeInfo(p.Type())
		if ti.w != 255 || ti.isStr {
			continue
		}
		constOnly = false
	}
	for _, b := range fn.ssa.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !localRoot(in.Addr) {
					return false, false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.MakeClosure, *ssa.MakeChan, *ssa.RunDefers, *ssa.MakeMap, *ssa.MakeSlice:
				return false, false
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return false, false
				}
				if in.Op == token.MUL {
					if g, ok := in.X.(*ssa.Global); ok {
						if !e.constGlobal(g) {
							constOnly = false
						}
					}
				}
			case ssa.CallInstruction:
				cc := in.Common()
				if cc.IsInvoke() {
					return false, false
				}
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap", "min", "max":
					default:
						return false, false
					}
					continue
				}
				f := cc.StaticCallee()
				if f == nil {
					return false, false
				}
				cf := e.fn(f)
				if !e.isPureL(cf) {
					return false, false
				}
				// pointer parameters of callees are only reached from our own
				// parameters or constant globals
				if !cf.constOnly {
					for _, p := range f.Params {
						ti := typeInfo(p.Type())
						if ti.w == 255 && !ti.isStr {
							continue
						}
					}
					if !e.calleeMemoOK(f) {
						constOnly = false
					}
				}
			}
		}
	}
	return true, constOnly
}

// calleeMemoOK: a pure callee that takes pointers reads only through them; when
// those come from constant globals the caller's result depends on scalars only.
func (e *Engine) calleeMemoOK(f *ssa.Function) bool {
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "unicode")
}

// constGlobal: never stored to outside package initialisation.
func (e *Engine) constGlobal(g *ssa.Global) bool {
	if g.Pkg == nil {
		return false
	}
	switch g.Pkg.Pkg.Path() {
	case "unicode", "unicode/utf8", "strconv", "strings", "math/bits":
		return true
	}
	return !e.storedGlobals[g]
}

// ---------------------------------------------------------------- instructions

func (c *compiler) instr(in ssa.Instruction) instr {
	fn := c.fn
	switch in := in.(type) {
	case *ssa.Alloc:
		d := c.reg(in)
		ti := typeInfo(in.Type().Underlying().(*types.Pointer).Elem())
		what := in.Comment + " in " + fn.name
		return func(m *M, r []V) {
			r[d] = V{p: m.newObj(what, ti.slots)}
		}
	case *ssa.BinOp:
		return c.binop(in)
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.Call:
		return c.call(in)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		v := in.(ssa.Value)
		d := c.reg(v)
		x := c.op(*in.Operands(nil)[0])
		return func(m *M, r []V) { r[d] = x.get(r) }
	case *ssa.Convert:
		return c.convert(in)
	case *ssa.MultiConvert:
		return func(m *M, r []V) { unsup("MultiConvert") }
	case *ssa.Defer:
		return c.deferI(in)
	case *ssa.RunDefers:
		return func(m *M, r []V) {
			if dl, ok := r[fn.deferReg].p.(*deferList); ok {
				m.runDefers(dl, nil)
			}
		}
	case *ssa.Extract:
		d := c.reg(in)
		x := c.op(in.Tuple)
		i := in.Index
		return func(m *M, r []V) { r[d] = x.get(r).p.(*Agg).s[i] }
	case *ssa.Field:
		d := c.reg(in)
		x := c.op(in.X)
		sti := typeInfo(in.X.Type())
		off, fti := sti.offs[in.Field], sti.fields[in.Field]
		return func(m *M, r []V) {
			a := x.get(r).p.(*Agg)
			if fti.agg {
				r[d] = V{p: &Agg{s: a.s[off : off+fti.slots : off+fti.slots]}}
			} else {
				r[d] = a.s[off]
			}
		}
	case *ssa.FieldAddr:
		d := c.reg(in)
		x := c.op(in.X)
		sti := typeInfo(in.X.Type().Underlying().(*types.Pointer).Elem())
		off := int64(sti.offs[in.Field])
		return func(m *M, r []V) {
			p := x.get(r)
			o, ok := p.p.(*Obj)
			if !ok {
				if p.p == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				p = m.resolvePtr(p)
				o = p.p.(*Obj)
			}
			r[d] = V{n: p.n + off, p: o}
		}
	case *ssa.Index:
		return c.index(in)
	case *ssa.IndexAddr:
		return c.indexAddr(in)
	case *ssa.Lookup:
		return c.lookup(in)
	case *ssa.MakeClosure:
		d := c.reg(in)
		f := c.e.fn(in.Fn.(*ssa.Function))
		ops := make([]opnd, len(in.Bindings))
		for i, b := range in.Bindings {
			ops[i] = c.op(b)
		}
		return func(m *M, r []V) {
			bs := make([]V, len(ops))
			for i := range ops {
				bs[i] = ops[i].get(r)
			}
			r[d] = V{p: &Closure{fn: f, binds: bs}}
		}
	case *ssa.MakeInterface:
		d := c.reg(in)
		x := c.op(in.X)
		ti := typeInfo(in.X.Type())
		return func(m *M, r []V) { r[d] = V{p: &Iface{t: ti, v: x.get(r)}} }
	case *ssa.MakeMap:
		d := c.reg(in)
		return func(m *M, r []V) { r[d] = V{p: m.newMap()} }
	case *ssa.MakeSlice:
		d := c.reg(in)
		ti := typeInfo(in.Type())
		l, cp := c.op(in.Len), c.op(in.Cap)
		what := "slice made in " + fn.name
		return func(m *M, r []V) {
			n, k := m.cint(l.get(r)), m.cint(cp.get(r))
			if n < 0 || n > k || n > 1<<24 {
				m.rtPanic("makeslice: len out of range")
			}
			if k > 1<<24 {
				m.rtPanic("makeslice: cap out of range")
			}
			r[d] = V{p: &Slice{obj: m.newObj(what, int(k)*ti.elem.slots), len: int(n), cap_: int(k)}}
		}
	case *ssa.MapUpdate:
		mp, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		kti := keyOf(typeInfo(in.Map.Type()))
		return func(m *M, r []V) {
			mo, ok := mp.get(r).p.(*MapObj)
			if !ok {
				m.rtPanic("assignment to entry in nil map")
			}
			m.touchMap(mo, fn)
			m.mapSet(mo, k.get(r), v.get(r), kti)
		}
	case *ssa.Next:
		return c.next(in)
	case *ssa.Range:
		d := c.reg(in)
		x := c.op(in.X)
		isStr := typeInfo(in.X.Type()).isStr
		return func(m *M, r []V) {
			it := m.newObj("iterator", 2)
			v := x.get(r)
			if isStr {
				it.slots[0] = v
			} else {
				it.slots[0] = v
			}
			r[d] = V{p: it}
		}
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.SliceToArrayPointer:
		d := c.reg(in)
		x := c.op(in.X)
		ati := typeInfo(in.Type().Underlying().(*types.Pointer).Elem())
		return func(m *M, r []V) {
			sl, _ := x.get(r).p.(*Slice)
			if sl == nil {
				if ati.alen > 0 {
					m.rtPanic("cannot convert slice to array")
				}
				r[d] = V{}
				return
			}
			if int64(sl.len) < ati.alen {
				m.rtPanic("cannot convert slice to array")
			}
			r[d] = V{n: int64(sl.off), p: sl.obj}
		}
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		ti := typeInfo(in.Val.Type())
		return func(m *M, r []V) {
			p := a.get(r)
			o, ok := p.p.(*Obj)
			if !ok {
				if p.p == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				p = m.resolvePtr(p)
				o = p.p.(*Obj)
			}
			if o.base || o.id < m.mark || m.spec > 0 || m.sub > 0 {
				m.touch(o, fn)
			}
			if !ti.agg {
				o.slots[p.n] = v.get(r)
			} else {
				m.storeAt(o, int(p.n), v.get(r), ti)
			}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	case *ssa.Go:
		return func(m *M, r []V) { unsup("go statement in %s", fn.name) }
	case *ssa.MakeChan:
		d := c.reg(in)
		return func(m *M, r []V) { r[d] = V{p: m.newObj("chan", 0)} }
	case *ssa.Select:
		return func(m *M, r []V) { unsup("select in %s", fn.name) }
	case *ssa.Send:
		return func(m *M, r []V) { unsup("send in %s", fn.name) }
	}
	s := fmt.Sprintf("%T in %s", in, fn.name)
	return func(m *M, r []V) { unsup("instruction %s", s) }
}

// cint makes an integer concrete.
func (m *M) cint(v V) int64 {
	if v.p == nil {
		return v.n
	}
	e := v.p.(*Expr)
	return sext(m.concretize(e), e.w)
}

// resolvePtr turns a symbolic element address into a concrete one.
func (m *M) resolvePtr(p V) V {
	sp, ok := p.p.(*SymPtr)
	if !ok {
		unsup("dereference of %T", p.p)
	}
	i := m.concretize(sp.idx)
	return V{n: int64(sp.base + int(i)*sp.stride), p: sp.obj}
}

func (m *M) global(idx int, g *ssa.Global) *Obj {
	for idx >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	o := m.globals[idx]
	if o == nil {
		ti := typeInfo(g.Type().Underlying().(*types.Pointer).Elem())
		o = &Obj{slots: make([]V, ti.slots), id: 0, base: true, what: "global " + g.String(), std: !m.eng.ownPkg(g.Pkg)}
		m.globals[idx] = o
	}
	return o
}

func (c *compiler) unop(in *ssa.UnOp) instr {
	d := c.reg(in)
	ti := typeInfo(in.Type())
	switch in.Op {
	case token.MUL:
		x := c.op(in.X)
		return func(m *M, r []V) {
			p := x.get(r)
			o, ok := p.p.(*Obj)
			if !ok {
				if p.p == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				if sp, is := p.p.(*SymPtr); is && ti.w != 255 {
					if v, ok := m.symLoad(sp, ti); ok {
						r[d] = v
						return
					}
				}
				p = m.resolvePtr(p)
				o = p.p.(*Obj)
			}
			if !ti.agg {
				r[d] = o.slots[p.n]
			} else {
				r[d] = m.load(o, int(p.n), ti)
			}
		}
	case token.NOT:
		x := c.op(in.X)
		return func(m *M, r []V) {
			v := x.get(r)
			if v.p == nil {
				r[d] = V{n: 1 - v.n}
			} else {
				r[d] = eV(eNot(v.p.(*Expr)))
			}
		}
	case token.SUB:
		x := c.op(in.X)
		if ti.isFloat {
			return func(m *M, r []V) {
				r[d] = V{n: int64(math.Float64bits(-math.Float64frombits(uint64(x.get(r).n))))}
			}
		}
		return func(m *M, r []V) {
			v := x.get(r)
			if v.p == nil {
				r[d] = V{n: norm(uint64(-v.n), ti)}
			} else {
				r[d] = exprV(eUn(ONeg, v.p.(*Expr)), ti)
			}
		}
	case token.XOR:
		x := c.op(in.X)
		return func(m *M, r []V) {
			v := x.get(r)
			if v.p == nil {
				r[d] = V{n: norm(uint64(^v.n), ti)}
			} else {
				r[d] = exprV(eUn(OBNot, v.p.(*Expr)), ti)
			}
		}
	}
	return func(m *M, r []V) { unsup("unary %v", in.Op) }
}

func (m *M) symLoad(sp *SymPtr, ti *TypeInfo) (V, bool) {
	tbl := make([]uint64, sp.n)
	for i := range tbl {
		v := sp.obj.slots[sp.base+i*sp.stride]
		if v.p != nil {
			return V{}, false
		}
		tbl[i] = uint64(v.n) & mask(ti.w)
	}
	if len(tbl) > 256 {
		return V{}, false
	}
	return exprV(eTbl(sp.idx, ti.w, tbl), ti), true
}

func (c *compiler) index(in *ssa.Index) instr {
	d := c.reg(in)
	x, i := c.op(in.X), c.op(in.Index)
	xti := typeInfo(in.X.Type())
	iti := typeInfo(in.Index.Type())
	if xti.isStr {
		return func(m *M, r []V) {
			r[d] = m.strIndex(x.get(r), i.get(r), iti)
		}
	}
	eti := xti.elem
	return func(m *M, r []V) {
		a := x.get(r).p.(*Agg)
		k := int(m.boundIdx(i.get(r), int(xti.alen), iti))
		if eti.agg {
			r[d] = V{p: &Agg{s: a.s[k*eti.slots : (k+1)*eti.slots]}}
		} else {
			r[d] = a.s[k]
		}
	}
}

func (m *M) strIndex(s, i V, iti *TypeInfo) V {
	n := strLen(s)
	if i.p == nil {
		if i.n < 0 || i.n >= int64(n) {
			m.rtPanic("index out of range [%d] with length %d", i.n, n)
		}
		return strAt(s, int(i.n))
	}
	e := i.p.(*Expr)
	if !m.decide(inRange(e, n, iti)) {
		m.rtPanic("index out of range with length %d", n)
	}
	if cs, ok := strConc(s); ok && n <= 256 {
		tbl := make([]uint64, n)
		for k := range tbl {
			tbl[k] = uint64(cs[k])
		}
		return eV8(eTbl(e, 8, tbl))
	}
	k := m.concretize(e)
	return strAt(s, int(k))
}

func eV8(e *Expr) V {
	if e.isConst() {
		return V{n: int64(e.k)}
	}
	return V{p: e}
}

// inRange is 0 <= e < n.
func inRange(e *Expr, n int, ti *TypeInfo) *Expr {
	if e.w < 64 && uint64(n) > mask(e.w) {
		if ti.signed {
			return eCmp(OSle, konst(e.w, 0), e)
		}
		return eTrue
	}
	return eCmp(OUlt, e, konst(e.w, uint64(n))) // negative values are large unsigned
}

func (m *M) boundIdx(i V, n int, iti *TypeInfo) int64 {
	if i.p == nil {
		if i.n < 0 || i.n >= int64(n) {
			m.rtPanic("index out of range [%d] with length %d", i.n, n)
		}
		return i.n
	}
	e := i.p.(*Expr)
	if !m.decide(inRange(e, n, iti)) {
		m.rtPanic("index out of range with length %d", n)
	}
	return int64(m.concretize(e))
}

func (c *compiler) indexAddr(in *ssa.IndexAddr) instr {
	d := c.reg(in)
	x, i := c.op(in.X), c.op(in.Index)
	iti := typeInfo(in.Index.Type())
	var eti *TypeInfo
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		ati := typeInfo(pt.Elem())
		eti = ati.elem
		n := int(ati.alen)
		return func(m *M, r []V) {
			p := x.get(r)
			o, ok := p.p.(*Obj)
			if !ok {
				if p.p == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				p = m.resolvePtr(p)
				o = p.p.(*Obj)
			}
			r[d] = m.elemAddr(o, int(p.n), n, i.get(r), eti, iti)
		}
	}
	eti = typeInfo(in.X.Type()).elem
	return func(m *M, r []V) {
		sl, _ := x.get(r).p.(*Slice)
		iv := i.get(r)
		if sl == nil {
			m.rtPanic("index out of range with length 0")
		}
		if iv.p == nil {
			if iv.n < 0 || iv.n >= int64(sl.len) {
				m.rtPanic("index out of range [%d] with length %d", iv.n, sl.len)
			}
			r[d] = V{n: int64(sl.off + int(iv.n)*eti.slots), p: sl.obj}
			return
		}
		r[d] = m.elemAddr(sl.obj, sl.off, sl.len, iv, eti, iti)
	}
}

func (m *M) elemAddr(o *Obj, base, n int, i V, eti, iti *TypeInfo) V {
	if i.p == nil {
		if i.n < 0 || i.n >= int64(n) {
			m.rtPanic("index out of range [%d] with length %d", i.n, n)
		}
		return V{n: int64(base + int(i.n)*eti.slots), p: o}
	}
	e := i.p.(*Expr)
	if !m.decide(inRange(e, n, iti)) {
		m.rtPanic("index out of range with length %d", n)
	}
	if eti.w != 255 {
		return V{p: &SymPtr{obj: o, base: base, n: n, stride: 1, idx: e}}
	}
	k := m.concretize(e)
	return V{n: int64(base + int(k)*eti.slots), p: o}
}

func (c *compiler) slice(in *ssa.Slice) instr {
	d := c.reg(in)
	x := c.op(in.X)
	var lo, hi, mx opnd
	hasLo, hasHi, hasMax := in.Low != nil, in.High != nil, in.Max != nil
	if hasLo {
		lo = c.op(in.Low)
	}
	if hasHi {
		hi = c.op(in.High)
	}
	if hasMax {
		mx = c.op(in.Max)
	}
	xti := typeInfo(in.X.Type())
	if xti.isStr {
		return func(m *M, r []V) {
			s := x.get(r)
			n := int64(strLen(s))
			l, h := int64(0), n
			if hasLo {
				l = m.cint(lo.get(r))
			}
			if hasHi {
				h = m.cint(hi.get(r))
			}
			if l < 0 || l > h || h > n {
				m.rtPanic("slice bounds out of range [%d:%d] with length %d", l, h, n)
			}
			r[d] = strSlice(s, int(l), int(h))
		}
	}
	var eti *TypeInfo
	alen := int64(-1)
	if pt, ok := xti.u.(*types.Pointer); ok {
		ati := typeInfo(pt.Elem())
		eti, alen = ati.elem, ati.alen
	} else {
		eti = xti.elem
	}
	return func(m *M, r []V) {
		v := x.get(r)
		var s Slice
		switch p := v.p.(type) {
		case *Slice:
			s = *p
		case *Obj:
			s = Slice{obj: p, off: int(v.n), len: int(alen), cap_: int(alen)}
		case nil:
			if alen >= 0 {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
		}
		l, h, k := int64(0), int64(s.len), int64(s.cap_)
		if hasLo {
			l = m.cint(lo.get(r))
		}
		if hasHi {
			h = m.cint(hi.get(r))
		}
		if hasMax {
			k = m.cint(mx.get(r))
			if k < 0 || k > int64(s.cap_) {
				m.rtPanic("slice bounds out of range [::%d]", k)
			}
		}
		if l < 0 || l > h || h > k {
			m.rtPanic("slice bounds out of range [%d:%d] with capacity %d", l, h, k)
		}
		if s.obj == nil {
			r[d] = V{}
			return
		}
		r[d] = V{p: &Slice{obj: s.obj, off: s.off + int(l)*eti.slots, len: int(h - l), cap_: int(k - l)}}
	}
}

func (c *compiler) next(in *ssa.Next) instr {
	d := c.reg(in)
	x := c.op(in.Iter)
	if in.IsString {
		return func(m *M, r []V) {
			it := x.get(r).p.(*Obj)
			s := it.slots[0]
			pos := int(it.slots[1].n)
			if pos >= strLen(s) {
				r[d] = V{p: &Agg{s: []V{{}, {}, {}}}}
				return
			}
			rv, sz := m.decodeRune(s, pos)
			it.slots[1].n = int64(pos + sz)
			r[d] = V{p: &Agg{s: []V{{n: 1}, {n: int64(pos)}, rv}}}
		}
	}
	mti := typeInfo(in.Iter.(*ssa.Range).X.Type())
	kz, vz := zeroV(keyOf(mti)), zeroV(elemOf(mti))
	return func(m *M, r []V) {
		it := x.get(r).p.(*Obj)
		mo, _ := it.slots[0].p.(*MapObj)
		pos := int(it.slots[1].n)
		if mo != nil {
			for pos < len(mo.entries) && mo.entries[pos].dead {
				pos++
			}
			if pos < len(mo.entries) {
				it.slots[1].n = int64(pos + 1)
				e := mo.entries[pos]
				r[d] = V{p: &Agg{s: []V{{n: 1}, e.k, e.v}}}
				return
			}
		}
		r[d] = V{p: &Agg{s: []V{{}, kz, vz}}}
	}
}

func (c *compiler) lookup(in *ssa.Lookup) instr {
	d := c.reg(in)
	x, i := c.op(in.X), c.op(in.Index)
	xti := typeInfo(in.X.Type())
	iti := typeInfo(in.Index.Type())
	if xti.isStr {
		return func(m *M, r []V) { r[d] = m.strIndex(x.get(r), i.get(r), iti) }
	}
	eti := elemOf(xti)
	zero := zeroV(eti)
	kti := keyOf(xti)
	ok := in.CommaOk
	return func(m *M, r []V) {
		mo, _ := x.get(r).p.(*MapObj)
		v, found := m.mapGet(mo, i.get(r), kti, eti, zero)
		if ok {
			r[d] = V{p: &Agg{s: []V{v, found}}}
		} else {
			r[d] = v
		}
	}
}

// mapKey gives a comparable Go value for a concrete key.
func mapKey(v V, ti *TypeInfo) (any, bool) {
	switch {
	case ti.w != 255 || ti.isFloat:
		if v.p != nil {
			return nil, false
		}
		return v.n, true
	case ti.isStr:
		s, ok := strConc(v)
		return s, ok
	case ti.isIface:
		if v.p == nil {
			return nil, true
		}
		ifc := v.p.(*Iface)
		k, ok := mapKey(ifc.v, ifc.t)
		return [2]any{ifc.t.id, k}, ok
	case ti.agg:
		a := v.p.(*Agg)
		var b strings.Builder
		var walk func(ti *TypeInfo, off int) bool
		walk = func(ti *TypeInfo, off int) bool {
			if st, is := ti.u.(*types.Struct); is {
				for i := 0; i < st.NumFields(); i++ {
					if !walk(ti.fields[i], off+ti.offs[i]) {
						return false
					}
				}
				return true
			}
			if _, is := ti.u.(*types.Array); is {
				for i := 0; i < int(ti.alen); i++ {
					if !walk(ti.elem, off+i*ti.elem.slots) {
						return false
					}
				}
				return true
			}
			k, ok := mapKey(a.s[off], ti)
			if !ok {
				return false
			}
			fmt.Fprintf(&b, "%T:%v;", k, k)
			return true
		}
		if !walk(ti, 0) {
			return nil, false
		}
		return "agg:" + b.String(), true
	}
	type ptrKey struct {
		p any
		n int64
	}
	return ptrKey{v.p, v.n}, true
}

func (m *M) mapGet(mo *MapObj, key V, kti, eti *TypeInfo, zero V) (V, V) {
	if mo == nil {
		return zero, V{}
	}
	k, conc := mapKey(key, kti)
	if conc && !mo.symKeys {
		if i, ok := mo.index[k]; ok {
			return mo.entries[i].v, V{n: 1}
		}
		return zero, V{}
	}
	// symbolic
	if eti.w != 255 {
		v, found := zero, eFalse
		for i := len(mo.entries) - 1; i >= 0; i-- {
			e := &mo.entries[i]
			if e.dead {
				continue
			}
			q := m.eqV(kti, key, e.k)
			v = mergeV(q, e.v, v, eti)
			found = eOr(q, found)
		}
		return v, eV(found)
	}
	for i := range mo.entries {
		e := &mo.entries[i]
		if e.dead {
			continue
		}
		if m.decide(m.eqV(kti, key, e.k)) {
			return e.v, V{n: 1}
		}
	}
	return zero, V{}
}

func (m *M) mapFind(mo *MapObj, key V, kti *TypeInfo) int {
	k, conc := mapKey(key, kti)
	if conc && !mo.symKeys {
		if i, ok := mo.index[k]; ok {
			return i
		}
		return -1
	}
	for i := range mo.entries {
		e := &mo.entries[i]
		if !e.dead && m.decide(m.eqV(kti, key, e.k)) {
			return i
		}
	}
	return -1
}

func (m *M) mapSet(mo *MapObj, key, val V, kti *TypeInfo) {
	i := m.mapFind(mo, key, kti)
	if i >= 0 {
		mo.entries[i].v = val
		return
	}
	k, conc := mapKey(key, kti)
	if conc {
		mo.index[k] = len(mo.entries)
	} else {
		mo.symKeys = true
	}
	mo.entries = append(mo.entries, mapEntry{k: key, v: val})
	mo.live++
}

func (m *M) mapDelete(mo *MapObj, key V, kti *TypeInfo) {
	i := m.mapFind(mo, key, kti)
	if i < 0 {
		return
	}
	if k, conc := mapKey(mo.entries[i].k, kti); conc {
		delete(mo.index, k)
	}
	mo.entries[i].dead = true
	mo.live--
}

func (c *compiler) typeAssert(in *ssa.TypeAssert) instr {
	d := c.reg(in)
	x := c.op(in.X)
	ti := typeInfo(in.AssertedType)
	commaOk := in.CommaOk
	zero := zeroV(ti)
	e := c.e
	return func(m *M, r []V) {
		v := x.get(r)
		ok := false
		var res V
		if v.p != nil {
			ifc := v.p.(*Iface)
			if ti.isIface {
				if e.implements(ifc.t, ti) {
					ok, res = true, v
				}
			} else if ifc.t == ti {
				ok, res = true, ifc.v
			}
		}
		if commaOk {
			if !ok {
				res = zero
			}
			r[d] = V{p: &Agg{s: []V{res, boolV(ok)}}}
			return
		}
		if !ok {
			m.rtPanic("interface conversion to %s failed", ti.t)
		}
		r[d] = res
	}
}

func (c *compiler) binop(in *ssa.BinOp) instr {
	d := c.reg(in)
	x, y := c.op(in.X), c.op(in.Y)
	ti := typeInfo(in.X.Type())
	yti := typeInfo(in.Y.Type())
	w := ti.w
	switch in.Op {
	case token.EQL, token.NEQ:
		neg := in.Op == token.NEQ
		// comparisons with nil of a mixed operand
		if ti.w != 255 {
			return func(m *M, r []V) {
				a, b := x.get(r), y.get(r)
				if a.p == nil && b.p == nil {
					r[d] = boolV((a.n == b.n) != neg)
					return
				}
				q := eEq(exprOf(a, w), exprOf(b, w))
				if neg {
					q = eNot(q)
				}
				r[d] = eV(q)
			}
		}
		cti := ti
		if !ti.isIface && yti.isIface {
			cti = yti
		}
		return func(m *M, r []V) {
			q := m.eqV(cti, x.get(r), y.get(r))
			if neg {
				q = eNot(q)
			}
			r[d] = eV(q)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := in.Op
		if ti.isStr {
			return func(m *M, r []V) { r[d] = m.strCmp(op, x.get(r), y.get(r)) }
		}
		if ti.isFloat {
			return func(m *M, r []V) {
				a, b := math.Float64frombits(uint64(x.get(r).n)), math.Float64frombits(uint64(y.get(r).n))
				var q bool
				switch op {
				case token.LSS:
					q = a < b
				case token.LEQ:
					q = a <= b
				case token.GTR:
					q = a > b
				default:
					q = a >= b
				}
				r[d] = boolV(q)
			}
		}
		signed := ti.signed
		return func(m *M, r []V) {
			a, b := x.get(r), y.get(r)
			if a.p == nil && b.p == nil {
				var q bool
				if signed {
					switch op {
					case token.LSS:
						q = a.n < b.n
					case token.LEQ:
						q = a.n <= b.n
					case token.GTR:
						q = a.n > b.n
					default:
						q = a.n >= b.n
					}
				} else {
					switch op {
					case token.LSS:
						q = uint64(a.n) < uint64(b.n)
					case token.LEQ:
						q = uint64(a.n) <= uint64(b.n)
					case token.GTR:
						q = uint64(a.n) > uint64(b.n)
					default:
						q = uint64(a.n) >= uint64(b.n)
					}
				}
				r[d] = boolV(q)
				return
			}
			ea, eb := exprOf(a, w), exprOf(b, w)
			lt, le := OUlt, OUle
			if signed {
				lt, le = OSlt, OSle
			}
			switch op {
			case token.LSS:
				r[d] = eV(eCmp(lt, ea, eb))
			case token.LEQ:
				r[d] = eV(eCmp(le, ea, eb))
			case token.GTR:
				r[d] = eV(eCmp(lt, eb, ea))
			default:
				r[d] = eV(eCmp(le, eb, ea))
			}
		}
	}
	if ti.isStr && in.Op == token.ADD {
		return func(m *M, r []V) { r[d] = strCat(x.get(r), y.get(r)) }
	}
	if ti.isFloat {
		op := in.Op
		f32 := ti.u.(*types.Basic).Kind() == types.Float32
		return func(m *M, r []V) {
			a, b := math.Float64frombits(uint64(x.get(r).n)), math.Float64frombits(uint64(y.get(r).n))
			var q float64
			switch op {
			case token.ADD:
				q = a + b
			case token.SUB:
				q = a - b
			case token.MUL:
				q = a * b
			case token.QUO:
				q = a / b
			}
			if f32 {
				q = float64(float32(q))
			}
			r[d] = V{n: int64(math.Float64bits(q))}
		}
	}
	if w == 255 {
		return func(m *M, r []V) { unsup("binary operator %v on %v", in.Op, ti.t) }
	}
	signed := ti.signed
	switch in.Op {
	case token.ADD:
		return func(m *M, r []V) {
			a, b := x.get(r), y.get(r)
			if a.p == nil && b.p == nil {
				r[d] = V{n: norm(uint64(a.n+b.n), ti)}
				return
			}
			r[d] = exprV(eBin(OAdd, exprOf(a, w), exprOf(b, w)), ti)
		}
	case token.SUB:
		return func(m *M, r []V) {
			a, b := x.get(r), y.get(r)
			if a.p == nil && b.p == nil {
				r[d] = V{n: norm(uint64(a.n-b.n), ti)}
				return
			}
			r[d] = exprV(eBin(OSub, exprOf(a, w), exprOf(b, w)), ti)
		}
	}
	var op Op
	div := false
	switch in.Op {
	case token.MUL:
		op = OMul
	case token.QUO:
		op, div = OUDiv, true
		if signed {
			op = OSDiv
		}
	case token.REM:
		op, div = OURem, true
		if signed {
			op = OSRem
		}
	case token.AND:
		op = OBAnd
		if w == 0 {
			op = OAnd
		}
	case token.OR:
		op = OBOr
		if w == 0 {
			op = OOr
		}
	case token.XOR:
		op = OBXor
	case token.AND_NOT:
		return func(m *M, r []V) {
			a, b := x.get(r), y.get(r)
			if a.p == nil && b.p == nil {
				r[d] = V{n: norm(uint64(a.n&^b.n), ti)}
				return
			}
			r[d] = exprV(eBin(OBAnd, exprOf(a, w), eUn(OBNot, exprOf(b, w))), ti)
		}
	case token.SHL, token.SHR:
		op = OShl
		if in.Op == token.SHR {
			op = OLShr
			if signed {
				op = OAShr
			}
		}
		return func(m *M, r []V) {
			a, b := x.get(r), y.get(r)
			if b.p == nil && yti.signed && b.n < 0 {
				m.rtPanic("negative shift amount")
			}
			var eb *Expr
			if b.p != nil {
				e := b.p.(*Expr)
				if yti.signed && !m.decide(eCmp(OSle, konst(e.w, 0), e)) {
					m.rtPanic("negative shift amount")
				}
				if e.w > w {
					big := eCmp(OUlt, e, konst(e.w, uint64(w)))
					if !m.decide(big) {
						b = V{n: int64(w)}
						eb = nil
					} else {
						eb = eConv(e, w, false)
					}
				} else {
					eb = eConv(e, w, false)
				}
			}
			if eb == nil {
				k := uint64(b.n)
				if k > 64 {
					k = 64
				}
				if a.p == nil {
					u := uint64(a.n) & mask(w)
					var q uint64
					switch op {
					case OShl:
						if k < 64 {
							q = u << k
						}
					case OLShr:
						if k < 64 {
							q = u >> k
						}
					default:
						if k > 63 {
							k = 63
						}
						q = uint64(a.n >> k)
					}
					r[d] = V{n: norm(q, ti)}
					return
				}
				if k >= uint64(w) {
					if op == OAShr {
						k = uint64(w) - 1
					} else {
						r[d] = V{}
						return
					}
				}
				eb = konst(w, k)
			}
			r[d] = exprV(eBin(op, exprOf(a, w), eb), ti)
		}
	default:
		return func(m *M, r []V) { unsup("binary operator %v", in.Op) }
	}
	return func(m *M, r []V) {
		a, b := x.get(r), y.get(r)
		if div {
			if b.p == nil {
				if b.n == 0 {
					m.rtPanic("integer divide by zero")
				}
			} else if !m.decide(eNot(eEq(exprOf(b, w), konst(w, 0)))) {
				m.rtPanic("integer divide by zero")
			}
		}
		if a.p == nil && b.p == nil {
			tmp := Expr{op: op, w: w}
			r[d] = V{n: norm(evalOp(&tmp, uint64(a.n)&mask(w), uint64(b.n)&mask(w), 0), ti)}
			return
		}
		if w == 0 {
			if op == OAnd {
				r[d] = eV(eAnd(exprOf(a, 0), exprOf(b, 0)))
			} else {
				r[d] = eV(eOr(exprOf(a, 0), exprOf(b, 0)))
			}
			return
		}
		r[d] = exprV(eBin(op, exprOf(a, w), exprOf(b, w)), ti)
	}
}

// eqV compares two values of a type.
func (m *M) eqV(ti *TypeInfo, a, b V) *Expr {
	switch {
	case ti.w != 255:
		return eEq(exprOf(a, ti.w), exprOf(b, ti.w))
	case ti.isFloat:
		return eBool(math.Float64frombits(uint64(a.n)) == math.Float64frombits(uint64(b.n)))
	case ti.isStr:
		return strEqE(a, b)
	case ti.isIface:
		x, ok1 := a.p.(*Iface)
		y, ok2 := b.p.(*Iface)
		if !ok1 || !ok2 {
			return eBool(ok1 == ok2)
		}
		if x.t != y.t {
			return eFalse
		}
		if !types.Comparable(x.t.t) {
			m.rtPanic("comparing uncomparable type %s", x.t.t)
		}
		return m.eqV(x.t, x.v, y.v)
	case ti.agg:
		if st, ok := ti.u.(*types.Struct); ok {
			r := eTrue
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "_" {
					continue
				}
				r = eAnd(r, m.eqV(ti.fields[i], aggField(a, ti.offs[i], ti.fields[i]), aggField(b, ti.offs[i], ti.fields[i])))
			}
			return r
		}
		r := eTrue
		for i := 0; i < int(ti.alen); i++ {
			r = eAnd(r, m.eqV(ti.elem, aggField(a, i*ti.elem.slots, ti.elem), aggField(b, i*ti.elem.slots, ti.elem)))
		}
		return r
	}
	// pointers, maps, funcs, chans, slices against nil
	if sa, ok := a.p.(*Slice); ok {
		return eBool(b.p != nil && sa == b.p)
	}
	return eBool(a.p == b.p && a.n == b.n)
}

func aggField(v V, off int, ti *TypeInfo) V {
	a := v.p.(*Agg)
	if ti.agg {
		return V{p: &Agg{s: a.s[off : off+ti.slots]}}
	}
	return a.s[off]
}

func (m *M) strCmp(op token.Token, a, b V) V {
	sa, ok1 := strConc(a)
	sb, ok2 := strConc(b)
	if ok1 && ok2 {
		c := strings.Compare(sa, sb)
		switch op {
		case token.LSS:
			return boolV(c < 0)
		case token.LEQ:
			return boolV(c <= 0)
		case token.GTR:
			return boolV(c > 0)
		}
		return boolV(c >= 0)
	}
	if op == token.GTR || op == token.GEQ {
		a, b = b, a
	}
	eqRes := op == token.LEQ || op == token.GEQ
	ca, cb := strCells(a), strCells(b)
	n := min(len(ca), len(cb))
	var res *Expr
	switch {
	case len(ca) < len(cb):
		res = eTrue
	case len(ca) > len(cb):
		res = eFalse
	default:
		res = eBool(eqRes)
	}
	for i := n - 1; i >= 0; i-- {
		x, y := exprOf(ca[i], 8), exprOf(cb[i], 8)
		res = eOr(eCmp(OUlt, x, y), eAnd(eEq(x, y), res))
	}
	return eV(res)
}

func (c *compiler) convert(in *ssa.Convert) instr {
	d := c.reg(in)
	x := c.op(in.X)
	from, to := typeInfo(in.X.Type()), typeInfo(in.Type())
	switch {
	case from.w != 255 && to.w != 255:
		return func(m *M, r []V) {
			v := x.get(r)
			if v.p == nil {
				r[d] = V{n: norm(uint64(v.n), to)}
				return
			}
			r[d] = exprV(eConv(v.p.(*Expr), to.w, from.signed), to)
		}
	case from.w != 255 && to.isStr:
		return func(m *M, r []V) {
			v := x.get(r)
			if v.p != nil {
				v = V{p: eConv(v.p.(*Expr), 32, from.signed)}
				r[d] = m.runeStr(v)
				return
			}
			n := v.n
			if n < 0 || n > 0x10ffff {
				n = 0xfffd
			}
			r[d] = strV(string(rune(n)))
		}
	case from.isStr && to.isStr:
		return func(m *M, r []V) { r[d] = x.get(r) }
	case from.isStr:
		if sl, ok := to.u.(*types.Slice); ok {
			eti := typeInfo(sl.Elem())
			if eti.w == 8 {
				return func(m *M, r []V) {
					r[d] = m.bytesFrom(strCells(x.get(r)))
				}
			}
			return func(m *M, r []V) {
				s := x.get(r)
				var out []V
				for i := 0; i < strLen(s); {
					rv, n := m.decodeRune(s, i)
					out = append(out, rv)
					i += n
				}
				r[d] = m.bytesFrom(out)
			}
		}
	case to.isStr:
		if sl, ok := from.u.(*types.Slice); ok {
			eti := typeInfo(sl.Elem())
			if eti.w == 8 {
				return func(m *M, r []V) {
					r[d] = m.bytesToStr(x.get(r))
				}
			}
			return func(m *M, r []V) {
				var out V
				for _, c := range m.sliceCells(x.get(r)) {
					out = strCat(out, m.runeStr(c))
				}
				r[d] = out
			}
		}
	case from.isFloat && to.isFloat:
		f32 := to.u.(*types.Basic).Kind() == types.Float32
		return func(m *M, r []V) {
			f := math.Float64frombits(uint64(x.get(r).n))
			if f32 {
				f = float64(float32(f))
			}
			r[d] = V{n: int64(math.Float64bits(f))}
		}
	case from.isFloat && to.w != 255:
		return func(m *M, r []V) {
			f := math.Float64frombits(uint64(x.get(r).n))
			if to.signed {
				r[d] = V{n: norm(uint64(int64(f)), to)}
			} else {
				r[d] = V{n: norm(uint64(f), to)}
			}
		}
	case from.w != 255 && to.isFloat:
		return func(m *M, r []V) {
			v := x.get(r)
			n := m.cint(v)
			f := float64(n)
			if !from.signed {
				f = float64(uint64(n))
			}
			r[d] = V{n: int64(math.Float64bits(f))}
		}
	}
	// unsafe.Pointer conversions and the like
	return func(m *M, r []V) { r[d] = x.get(r) }
}

func (m *M) bytesFrom(cells []V) V {
	o := m.newObj("converted string", len(cells))
	copy(o.slots, cells)
	return V{p: &Slice{obj: o, len: len(cells), cap_: len(cells)}}
}

func (m *M) sliceCells(v V) []V {
	s, _ := v.p.(*Slice)
	if s == nil {
		return nil
	}
	return s.obj.slots[s.off : s.off+s.len]
}

func (m *M) bytesToStr(v V) V {
	c := m.sliceCells(v)
	for _, x := range c {
		if x.p != nil {
			return V{p: &Str{sym: append([]V(nil), c...)}}
		}
	}
	if len(c) == 0 {
		return V{}
	}
	b := make([]byte, len(c))
	for i, x := range c {
		b[i] = byte(x.n)
	}
	return strV(string(b))
}

// ---------------------------------------------------------------- calls

func (c *compiler) callee(cc *ssa.CallCommon) func(m *M, r []V) (fn *Fn, recv V, hasRecv bool, binds []V) {
	if cc.IsInvoke() {
		x := c.op(cc.Value)
		meth := cc.Method
		return func(m *M, r []V) (*Fn, V, bool, []V) {
			v := x.get(r)
			if v.p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			ifc := v.p.(*Iface)
			return m.eng.lookupMethod(ifc.t, meth), ifc.v, true, nil
		}
	}
	if f := cc.StaticCallee(); f != nil {
		if _, ok := cc.Value.(*ssa.Function); ok {
			fn := c.e.fn(f)
			return func(m *M, r []V) (*Fn, V, bool, []V) { return fn, V{}, false, nil }
		}
	}
	x := c.op(cc.Value)
	return func(m *M, r []V) (*Fn, V, bool, []V) {
		v := x.get(r)
		if v.p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		cl := v.p.(*Closure)
		return cl.fn, V{}, false, cl.binds
	}
}

func (c *compiler) call(in *ssa.Call) instr {
	d := c.reg(in)
	cc := &in.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(in, b, cc.Args, d)
	}
	ops := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		ops[i] = c.op(a)
	}
	if !cc.IsInvoke() {
		if f, ok := cc.Value.(*ssa.Function); ok {
			fn := c.e.fn(f)
			pure := c.e.isPure(fn)
			return func(m *M, r []V) {
				if fn.intr != nil || pure && anySymOps(ops, r) {
					args := make([]V, len(ops))
					for i := range ops {
						args[i] = ops[i].get(r)
					}
					if pure {
						if v, ok := m.callPure(fn, args); ok {
							r[d] = v
							return
						}
					}
					r[d] = m.call(fn, args, nil)
					return
				}
				nr, osp := m.enter(fn)
				for i := range ops {
					nr[i] = ops[i].get(r)
				}
				r[d] = m.finish(fn, nr, osp)
			}
		}
	}
	ce := c.callee(cc)
	return func(m *M, r []V) {
		fn, recv, hasRecv, binds := ce(m, r)
		if fn.intr != nil {
			var args []V
			if hasRecv {
				args = append(args, recv)
			}
			for i := range ops {
				args = append(args, ops[i].get(r))
			}
			r[d] = fn.intr(m, args)
			return
		}
		nr, osp := m.enter(fn)
		k := 0
		if hasRecv {
			nr[0] = recv
			k = 1
		}
		for i := range ops {
			nr[k] = ops[i].get(r)
			k++
		}
		copy(nr[k:], binds)
		r[d] = m.finish(fn, nr, osp)
	}
}

func (c *compiler) deferI(in *ssa.Defer) instr {
	cc := &in.Call
	fn := c.fn
	ops := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		ops[i] = c.op(a)
	}
	push := func(m *M, r []V, f func(m *M)) {
		dl := r[fn.deferReg].p.(*deferList)
		dl.l = append(dl.l, deferred{f})
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		name := b.Name()
		bi := c.builtinFn(b, cc.Args, nil)
		return func(m *M, r []V) {
			args := make([]V, len(ops))
			for i := range ops {
				args[i] = ops[i].get(r)
			}
			_ = name
			push(m, r, func(m *M) { bi(m, args) })
		}
	}
	ce := c.callee(cc)
	return func(m *M, r []V) {
		f, recv, hasRecv, binds := ce(m, r)
		var args []V
		if hasRecv {
			args = append(args, recv)
		}
		for i := range ops {
			args = append(args, ops[i].get(r))
		}
		push(m, r, func(m *M) { m.call(f, args, binds) })
	}
}

func (c *compiler) builtin(in *ssa.Call, b *ssa.Builtin, args []ssa.Value, d int32) instr {
	ops := make([]opnd, len(args))
	for i, a := range args {
		ops[i] = c.op(a)
	}
	f := c.builtinFn(b, args, in.Type())
	n := len(ops)
	return func(m *M, r []V) {
		var buf [6]V
		as := buf[:0]
		for i := 0; i < n; i++ {
			as = append(as, ops[i].get(r))
		}
		r[d] = f(m, as)
	}
}

func (c *compiler) builtinFn(b *ssa.Builtin, args []ssa.Value, resT types.Type) func(m *M, a []V) V {
	fn := c.fn
	switch b.Name() {
	case "len", "cap":
		isCap := b.Name() == "cap"
		ti := typeInfo(args[0].Type())
		return func(m *M, a []V) V {
			switch p := a[0].p.(type) {
			case nil:
				return V{}
			case *Str:
				return V{n: int64(strLen(a[0]))}
			case *Slice:
				if isCap {
					return V{n: int64(p.cap_)}
				}
				return V{n: int64(p.len)}
			case *MapObj:
				return V{n: int64(p.live)}
			case *Agg, *Obj:
				if pt, ok := ti.u.(*types.Pointer); ok {
					return V{n: typeInfo(pt.Elem()).alen}
				}
				return V{n: ti.alen}
			}
			unsup("len of %T", a[0].p)
			return V{}
		}
	case "append":
		sti := typeInfo(args[0].Type())
		es := sti.elem.slots
		fromStr := typeInfo(args[1].Type()).isStr
		what := "slice grown in " + fn.name
		return func(m *M, a []V) V {
			var add []V
			na := 0
			if fromStr {
				add = strCells(a[1])
				na = len(add)
			} else if s2, _ := a[1].p.(*Slice); s2 != nil {
				add = s2.obj.slots[s2.off : s2.off+s2.len*es]
				na = s2.len
			}
			if na == 0 {
				return a[0]
			}
			var s Slice
			if p, _ := a[0].p.(*Slice); p != nil {
				s = *p
			}
			if s.len+na <= s.cap_ {
				m.touchIf(s.obj, fn)
				copy(s.obj.slots[s.off+s.len*es:], add)
				return V{p: &Slice{obj: s.obj, off: s.off, len: s.len + na, cap_: s.cap_}}
			}
			nc := 2 * s.cap_
			if nc < s.len+na {
				nc = s.len + na
			}
			if nc < 4 {
				nc = 4
			}
			o := m.newObj(what, nc*es)
			if s.obj != nil {
				copy(o.slots, s.obj.slots[s.off:s.off+s.len*es])
			}
			copy(o.slots[s.len*es:], add)
			return V{p: &Slice{obj: o, len: s.len + na, cap_: nc}}
		}
	case "copy":
		es := typeInfo(args[0].Type()).elem.slots
		fromStr := typeInfo(args[1].Type()).isStr
		return func(m *M, a []V) V {
			dst, _ := a[0].p.(*Slice)
			var src []V
			n := 0
			if fromStr {
				src = strCells(a[1])
				n = len(src)
			} else if s2, _ := a[1].p.(*Slice); s2 != nil {
				src = s2.obj.slots[s2.off : s2.off+s2.len*es]
				n = s2.len
			}
			if dst == nil {
				return V{}
			}
			if n > dst.len {
				n = dst.len
			}
			if n > 0 {
				m.touchIf(dst.obj, fn)
				copy(dst.obj.slots[dst.off:dst.off+n*es], src[:n*es])
			}
			return V{n: int64(n)}
		}
	case "delete":
		kti := keyOf(typeInfo(args[0].Type()))
		return func(m *M, a []V) V {
			if mo, _ := a[0].p.(*MapObj); mo != nil {
				m.touchMap(mo, fn)
				m.mapDelete(mo, a[1], kti)
			}
			return V{}
		}
	case "clear":
		ti := typeInfo(args[0].Type())
		return func(m *M, a []V) V {
			switch p := a[0].p.(type) {
			case *MapObj:
				m.touchMap(p, fn)
				p.entries, p.index, p.live, p.symKeys = nil, map[any]int{}, 0, false
			case *Slice:
				m.touchIf(p.obj, fn)
				clear(p.obj.slots[p.off : p.off+p.len*ti.elem.slots])
			}
			return V{}
		}
	case "panic":
		return func(m *M, a []V) V {
			if m.spec > 0 {
				panic(subAbort{"panic"})
			}
			panic(&targetPanic{v: a[0], msg: "panic: " + m.showPanic(a[0]), stack: m.backtrace()})
		}
	case "recover":
		return func(m *M, a []V) V { return m.recoverCall() }
	case "print", "println":
		return func(m *M, a []V) V { return V{} }
	case "min", "max":
		ti := typeInfo(resT)
		isMin := b.Name() == "min"
		return func(m *M, a []V) V {
			if ti.w == 255 {
				unsup("min/max of %s", ti.t)
			}
			v := a[0]
			lt := OUlt
			if ti.signed {
				lt = OSlt
			}
			for _, x := range a[1:] {
				q := eCmp(lt, exprOf(x, ti.w), exprOf(v, ti.w))
				if !isMin {
					q = eCmp(lt, exprOf(v, ti.w), exprOf(x, ti.w))
				}
				v = mergeV(q, x, v, ti)
				if q.isConst() {
					if q.k != 0 {
						v = x
					}
				}
			}
			return v
		}
	case "ssa:wrapnilchk":
		return func(m *M, a []V) V {
			if a[0].p == nil {
				m.rtPanic("value method called using nil pointer")
			}
			return a[0]
		}
	case "String": // unsafe.String(ptr, len)
		return func(m *M, a []V) V {
			n := int(m.cint(a[1]))
			if n == 0 {
				return V{}
			}
			o := a[0].p.(*Obj)
			return cellsStr(append([]V(nil), o.slots[a[0].n:int(a[0].n)+n]...))
		}
	case "SliceData":
		return func(m *M, a []V) V {
			s, _ := a[0].p.(*Slice)
			if s == nil {
				return V{}
			}
			return V{n: int64(s.off), p: s.obj}
		}
	case "StringData":
		return func(m *M, a []V) V {
			c := strCells(a[0])
			if len(c) == 0 {
				return V{}
			}
			s := m.bytesFrom(c).p.(*Slice)
			return V{p: s.obj}
		}
	case "Slice":
		return func(m *M, a []V) V {
			n := int(m.cint(a[1]))
			if a[0].p == nil {
				return V{}
			}
			return V{p: &Slice{obj: a[0].p.(*Obj), off: int(a[0].n), len: n, cap_: n}}
		}
	}
	return func(m *M, a []V) V { unsup("builtin %s", b.Name()); return V{} }
}

func (m *M) touchIf(o *Obj, fn *Fn) {
	if o.base || o.id < m.mark || m.spec > 0 || m.sub > 0 {
		m.touch(o, fn)
	}
}

func anySymOps(ops []opnd, r []V) bool {
	for i := range ops {
		switch p := ops[i].get(r).p.(type) {
		case *Expr:
			return true
		case *Str:
			if p.sym != nil {
				return true
			}
		}
	}
	return false
}
