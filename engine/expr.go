package main

import (
	"fmt"
	"math/bits"
	"sort"
	"sync"
	"sync/atomic"
)

// Op is an expression operator. Width 0 denotes a boolean.
type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OZExt
	OSExt
	OTrunc
	OIte
	OTbl // a = index (w<=64), tbl = constant table, result width w
	OU8  // a = rune (w 32), k = i | L<<8 : i-th byte of the L-byte UTF-8 encoding
	// booleans
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAnd
	OOr
	ONot
)

// Var is a symbolic input.
type Var struct {
	name  string
	w     uint8
	small bool      // domain is a subset of 0..255 held in dom
	dom   [4]uint64 // allowed values when small
	lo    uint64    // range for wide variables
	hi    uint64
	excl  [][2]uint64
	expr  *Expr
	idx   int32
	fullp atomic.Pointer[ivset]
}

// Expr is a hash-consed expression node.
type Expr struct {
	op      Op
	w       uint8
	id      uint32
	k       uint64
	a, b, c *Expr
	tbl     []uint64
	vars    []int32 // sorted support
	tabp    atomic.Pointer[[]uint64]
	bitsp   atomic.Pointer[[4]uint64]
}

type exprKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c uint32
	tblID   string
}

const nShards = 64

type internShard struct {
	mu sync.Mutex
	m  map[exprKey]*Expr
	_  [40]byte
}

var (
	shards  [nShards]internShard
	nextEID uint32
	varsMu  sync.RWMutex
	allVars []*Var
	varByNm = map[string]*Var{}
	eTrue   *Expr
	eFalse  *Expr
)

func init() {
	for i := range shards {
		shards[i].m = make(map[exprKey]*Expr)
	}
	eTrue = mk(exprKey{op: OConst, w: 0, k: 1}, nil, nil, nil, nil)
	eFalse = mk(exprKey{op: OConst, w: 0, k: 0}, nil, nil, nil, nil)
}

func eid(e *Expr) uint32 {
	if e == nil {
		return 0
	}
	return e.id
}

func mk(k exprKey, a, b, c *Expr, tbl []uint64) *Expr {
	k.a, k.b, k.c = eid(a), eid(b), eid(c)
	h := (uint64(k.op)*31+uint64(k.w))*1000003 ^ k.k*0x9E3779B97F4A7C15 ^ uint64(k.a)*0xC2B2AE3D27D4EB4F ^ uint64(k.b)*0x165667B19E3779F9 ^ uint64(k.c)*0x27D4EB2F165667C5
	sh := &shards[(h>>32)%nShards]
	sh.mu.Lock()
	if e, ok := sh.m[k]; ok {
		sh.mu.Unlock()
		return e
	}
	e := &Expr{op: k.op, w: k.w, k: k.k, a: a, b: b, c: c, tbl: tbl, id: atomic.AddUint32(&nextEID, 1)}
	e.vars = mergeVars(a, b, c)
	if k.op == OVar {
		e.vars = []int32{int32(k.k)}
	}
	sh.m[k] = e
	sh.mu.Unlock()
	return e
}

func mergeVars(es ...*Expr) []int32 {
	var out []int32
	for _, e := range es {
		if e == nil || len(e.vars) == 0 {
			continue
		}
		if out == nil {
			out = e.vars
			continue
		}
		if len(out) == len(e.vars) && &out[0] == &e.vars[0] {
			continue
		}
		same := len(out) == len(e.vars)
		if same {
			for i := range out {
				if out[i] != e.vars[i] {
					same = false
					break
				}
			}
		}
		if same {
			continue
		}
		m := make([]int32, 0, len(out)+len(e.vars))
		i, j := 0, 0
		for i < len(out) || j < len(e.vars) {
			switch {
			case j >= len(e.vars) || (i < len(out) && out[i] < e.vars[j]):
				m = append(m, out[i])
				i++
			case i >= len(out) || e.vars[j] < out[i]:
				m = append(m, e.vars[j])
				j++
			default:
				m = append(m, out[i])
				i++
				j++
			}
		}
		out = m
	}
	return out
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func konst(w uint8, v uint64) *Expr {
	if w == 0 {
		if v&1 != 0 {
			return eTrue
		}
		return eFalse
	}
	return mk(exprKey{op: OConst, w: w, k: v & mask(w)}, nil, nil, nil, nil)
}

func eBool(b bool) *Expr {
	if b {
		return eTrue
	}
	return eFalse
}

func (e *Expr) isConst() bool { return e.op == OConst }

// newSmallVar declares (or finds) a small-domain variable.
func newSmallVar(name string, w uint8, dom [4]uint64) *Expr {
	varsMu.Lock()
	defer varsMu.Unlock()
	key := fmt.Sprintf("%s/%d/%x", name, w, dom)
	if v, ok := varByNm[key]; ok {
		return v.expr
	}
	v := &Var{name: name, w: w, small: true, dom: dom, idx: int32(len(allVars))}
	allVars = append(allVars, v)
	varByNm[key] = v
	v.expr = mk(exprKey{op: OVar, w: w, k: uint64(v.idx)}, nil, nil, nil, nil)
	return v.expr
}

func newWideVar(name string, w uint8, lo, hi uint64, excl [][2]uint64) *Expr {
	varsMu.Lock()
	defer varsMu.Unlock()
	key := fmt.Sprintf("%s/%d/%d-%d/%v", name, w, lo, hi, excl)
	if v, ok := varByNm[key]; ok {
		return v.expr
	}
	v := &Var{name: name, w: w, lo: lo, hi: hi, excl: excl, idx: int32(len(allVars))}
	allVars = append(allVars, v)
	varByNm[key] = v
	v.expr = mk(exprKey{op: OVar, w: w, k: uint64(v.idx)}, nil, nil, nil, nil)
	return v.expr
}

func varOf(i int32) *Var {
	varsMu.RLock()
	v := allVars[i]
	varsMu.RUnlock()
	return v
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func utf8Byte(r uint64, i, l uint64) uint64 {
	sh := 6 * (l - 1 - i)
	v := (r >> sh)
	if i > 0 {
		return 0x80 | (v & 0x3F)
	}
	switch l {
	case 1:
		return v & 0x7F
	case 2:
		return 0xC0 | (v & 0x1F)
	case 3:
		return 0xE0 | (v & 0x0F)
	default:
		return 0xF0 | (v & 0x07)
	}
}

// evalOp computes an operator on concrete operand values.
func evalOp(e *Expr, a, b, c uint64) uint64 {
	switch e.op {
	case OAdd:
		return (a + b) & mask(e.w)
	case OSub:
		return (a - b) & mask(e.w)
	case OMul:
		return (a * b) & mask(e.w)
	case OUDiv:
		if b == 0 {
			return mask(e.w)
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, e.w), sext(b, e.w)
		if y == 0 {
			if x >= 0 {
				return mask(e.w)
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & mask(e.w)
		}
		return uint64(x/y) & mask(e.w)
	case OSRem:
		x, y := sext(a, e.w), sext(b, e.w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(e.w)
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OBNot:
		return ^a & mask(e.w)
	case ONeg:
		return -a & mask(e.w)
	case OShl:
		if b >= uint64(e.w) {
			return 0
		}
		return (a << b) & mask(e.w)
	case OLShr:
		if b >= uint64(e.w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(e.w) {
			b = uint64(e.w) - 1
		}
		return uint64(sext(a, e.w)>>b) & mask(e.w)
	case OZExt:
		return a
	case OSExt:
		return uint64(sext(a, e.a.w)) & mask(e.w)
	case OTrunc:
		return a & mask(e.w)
	case OIte:
		if a != 0 {
			return b
		}
		return c
	case OTbl:
		if a < uint64(len(e.tbl)) {
			return e.tbl[a]
		}
		return 0
	case OU8:
		return utf8Byte(a, e.k&0xff, e.k>>8)
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, e.a.w) < sext(b, e.a.w))
	case OSle:
		return b2u(sext(a, e.a.w) <= sext(b, e.a.w))
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case ONot:
		return a ^ 1
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// smallVar returns the only variable of e if it is a small one.
func (e *Expr) smallVar() *Var {
	if len(e.vars) != 1 {
		return nil
	}
	v := varOf(e.vars[0])
	if v.small {
		return v
	}
	return nil
}

// table returns the value of e for each value of its single small variable.
func (e *Expr) table() []uint64 {
	if t := e.tabp.Load(); t != nil {
		return *t
	}
	t := make([]uint64, 256)
	get := func(x *Expr) ([]uint64, uint64) {
		if x == nil {
			return nil, 0
		}
		if x.op == OConst {
			return nil, x.k
		}
		return x.table(), 0
	}
	switch e.op {
	case OConst:
		for i := range t {
			t[i] = e.k
		}
	case OVar:
		for i := range t {
			t[i] = uint64(i) & mask(e.w)
		}
	default:
		ta, ka := get(e.a)
		tb, kb := get(e.b)
		tc, kc := get(e.c)
		for i := range t {
			a, b, c := ka, kb, kc
			if ta != nil {
				a = ta[i]
			}
			if tb != nil {
				b = tb[i]
			}
			if tc != nil {
				c = tc[i]
			}
			t[i] = evalOp(e, a, b, c)
		}
	}
	e.tabp.Store(&t)
	return t
}

// bitset returns, for a boolean over one small variable, the satisfying values within its domain.
func (e *Expr) bitset() [4]uint64 {
	if p := e.bitsp.Load(); p != nil {
		return *p
	}
	v := e.smallVar()
	t := e.table()
	var bs [4]uint64
	for i := 0; i < 256; i++ {
		if v.dom[i>>6]>>(uint(i)&63)&1 != 0 && t[i]&1 != 0 {
			bs[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	e.bitsp.Store(&bs)
	return bs
}

func bsAnd(a, b [4]uint64) [4]uint64 {
	return [4]uint64{a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]}
}
func bsEmpty(a [4]uint64) bool { return a[0]|a[1]|a[2]|a[3] == 0 }
func bsCount(a [4]uint64) int {
	return bits.OnesCount64(a[0]) + bits.OnesCount64(a[1]) + bits.OnesCount64(a[2]) + bits.OnesCount64(a[3])
}
func bsFirst(a [4]uint64) int {
	for i := 0; i < 4; i++ {
		if a[i] != 0 {
			return i*64 + bits.TrailingZeros64(a[i])
		}
	}
	return -1
}

// simp builds a node after simplification; small single-variable nodes whose
// table is constant fold to constants.
func simp(op Op, w uint8, k uint64, a, b, c *Expr) *Expr {
	allC := (a == nil || a.isConst()) && (b == nil || b.isConst()) && (c == nil || c.isConst())
	if allC {
		tmp := Expr{op: op, w: w, k: k, a: a, b: b, c: c}
		var av, bv, cv uint64
		if a != nil {
			av = a.k
		}
		if b != nil {
			bv = b.k
		}
		if c != nil {
			cv = c.k
		}
		return konst(w, evalOp(&tmp, av, bv, cv))
	}
	return mk(exprKey{op: op, w: w, k: k}, a, b, c, nil)
}

func eNot(a *Expr) *Expr {
	if a.isConst() {
		return eBool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return mk(exprKey{op: ONot}, a, nil, nil, nil)
}

func eAnd(a, b *Expr) *Expr {
	if a.isConst() {
		if a.k == 0 {
			return eFalse
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return eFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return eFalse
	}
	return foldBool(mk(exprKey{op: OAnd}, a, b, nil, nil))
}

func eOr(a, b *Expr) *Expr {
	if a.isConst() {
		if a.k != 0 {
			return eTrue
		}
		return b
	}
	if b.isConst() {
		if b.k != 0 {
			return eTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return eTrue
	}
	return foldBool(mk(exprKey{op: OOr}, a, b, nil, nil))
}

// foldBool is the identity: feasibility under a domain is decided in State.decide,
// and recorded there as an obligation for the solver.
func foldBool(e *Expr) *Expr { return e }

func eIte(c, a, b *Expr) *Expr {
	if c.isConst() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return eIte(c.a, b, a)
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.k != 0 {
				return c
			}
			return eNot(c)
		}
		if a.isConst() {
			if a.k != 0 {
				return eOr(c, b)
			}
			return eAnd(eNot(c), b)
		}
		if b.isConst() {
			if b.k != 0 {
				return eOr(eNot(c), a)
			}
			return eAnd(c, a)
		}
	}
	return mk(exprKey{op: OIte, w: a.w}, c, a, b, nil)
}

func eEq(a, b *Expr) *Expr {
	if a == b {
		return eTrue
	}
	if a.isConst() && b.isConst() {
		return eBool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k != 0 {
				return a
			}
			return eNot(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OU8:
			if a.k>>8 > 1 && b.k < 0x80 { // bytes of longer encodings have the top bit set
				return eFalse
			}
		case OZExt, OSExt:
			in := a.a
			k := b.k & mask(in.w)
			tmp := Expr{op: a.op, w: a.w, a: in}
			if evalOp(&tmp, k, 0, 0) == b.k {
				return eEq(in, konst(in.w, k))
			}
			return eFalse
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				return eIte(a.a, eBool(a.b.k == b.k), eBool(a.c.k == b.k))
			}
			// chains of constants: push the comparison inside
			if a.b.isConst() || a.c.isConst() {
				return eIte(a.a, eEq(a.b, b), eEq(a.c, b))
			}
		case OAdd:
			if a.b.isConst() {
				return eEq(a.a, konst(a.w, b.k-a.b.k))
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return mk(exprKey{op: OEq}, a, b, nil, nil)
}

func eCmp(op Op, a, b *Expr) *Expr {
	if a == b {
		return eBool(op == OUle || op == OSle)
	}
	if a.isConst() && b.isConst() {
		return simp(op, 0, 0, a, b, nil)
	}
	if (op == OUlt || op == OUle) && a.op == OU8 && a.k>>8 > 1 && b.isConst() && b.k <= 0x80 && (op == OUlt || b.k < 0x80) {
		return eFalse
	}
	if (op == OUlt || op == OUle) && b.op == OU8 && b.k>>8 > 1 && a.isConst() && a.k <= 0x80 && (op == OUle || a.k < 0x80) {
		return eTrue
	}
	// compare through zero extension when the constant fits
	if a.op == OZExt && b.isConst() && b.k <= mask(a.a.w) && (op == OUlt || op == OUle || (sext(b.k, b.w) >= 0)) {
		uop := op
		if op == OSlt {
			uop = OUlt
		} else if op == OSle {
			uop = OUle
		}
		return eCmp(uop, a.a, konst(a.a.w, b.k))
	}
	if b.op == OZExt && a.isConst() && a.k <= mask(b.a.w) && (op == OUlt || op == OUle || (sext(a.k, a.w) >= 0)) {
		uop := op
		if op == OSlt {
			uop = OUlt
		} else if op == OSle {
			uop = OUle
		}
		return eCmp(uop, konst(b.a.w, a.k), b.a)
	}
	return mk(exprKey{op: op}, a, b, nil, nil)
}

func eBin(op Op, a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return simp(op, a.w, 0, a, b, nil)
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return eBin(OAdd, a.a, konst(a.w, a.b.k+b.k))
			}
		} else {
			// keep constants outermost so that cursors compare syntactically
			if a.op == OAdd && a.b.isConst() {
				return eBin(OAdd, eBin(OAdd, a.a, b), a.b)
			}
			if b.op == OAdd && b.b.isConst() {
				return eBin(OAdd, eBin(OAdd, a, b.a), b.b)
			}
		}
	case OSub:
		if b.isConst() {
			return eBin(OAdd, a, konst(a.w, -b.k))
		}
		if a == b {
			return konst(a.w, 0)
		}
		if a.op == OAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
			if a.b.isConst() {
				return eBin(OAdd, eBin(OSub, a.a, b), a.b)
			}
		}
		if b.op == OAdd && b.b.isConst() {
			return eBin(OAdd, eBin(OSub, a, b.a), konst(a.w, -b.b.k))
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == mask(b.w) {
				return a
			}
		}
	case OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OShl, OLShr, OAShr:
		if b.isConst() && b.k == 0 {
			return a
		}
	}
	return mk(exprKey{op: op, w: a.w}, a, b, nil, nil)
}

func eUn(op Op, a *Expr) *Expr {
	return simp(op, a.w, 0, a, nil, nil)
}

func eConv(a *Expr, w uint8, signed bool) *Expr {
	if a.w == w {
		return a
	}
	if w < a.w {
		if a.op == OZExt || a.op == OSExt {
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return eConv(a.a, w, signed)
			}
			return simp(a.op, w, 0, a.a, nil, nil)
		}
		return simp(OTrunc, w, 0, a, nil, nil)
	}
	if signed {
		if a.op == OZExt { // zero-extended values are non-negative
			return simp(OZExt, w, 0, a.a, nil, nil)
		}
		return simp(OSExt, w, 0, a, nil, nil)
	}
	if a.op == OZExt {
		return simp(OZExt, w, 0, a.a, nil, nil)
	}
	return simp(OZExt, w, 0, a, nil, nil)
}

func eTbl(idx *Expr, w uint8, tbl []uint64) *Expr {
	if idx.isConst() {
		if idx.k < uint64(len(tbl)) {
			return konst(w, tbl[idx.k])
		}
		return konst(w, 0)
	}
	same := true
	for _, v := range tbl {
		if v != tbl[0] {
			same = false
		}
	}
	if same && len(tbl) > 0 {
		// the index is checked to be in range before the table is read
		return konst(w, tbl[0])
	}
	return mk(exprKey{op: OTbl, w: w, tblID: fmt.Sprint(tbl)}, idx, nil, nil, tbl)
}

func eU8(r *Expr, i, l int) *Expr {
	return simp(OU8, 8, uint64(i)|uint64(l)<<8, r, nil, nil)
}

// evalExpr evaluates e under a full assignment.
func evalExpr(e *Expr, asg map[int32]uint64, memo map[*Expr]uint64) uint64 {
	switch e.op {
	case OConst:
		return e.k
	case OVar:
		return asg[int32(e.k)]
	}
	if v, ok := memo[e]; ok {
		return v
	}
	var a, b, c uint64
	if e.a != nil {
		a = evalExpr(e.a, asg, memo)
	}
	if e.b != nil {
		b = evalExpr(e.b, asg, memo)
	}
	if e.c != nil {
		c = evalExpr(e.c, asg, memo)
	}
	v := evalOp(e, a, b, c)
	memo[e] = v
	return v
}

func disjoint(a, b []int32) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			return false
		case a[i] < b[j]:
			i++
		default:
			j++
		}
	}
	return true
}

func hasVar(a []int32, v int32) bool {
	i := sort.Search(len(a), func(i int) bool { return a[i] >= v })
	return i < len(a) && a[i] == v
}
