package main

import (
	"fmt"
	"sync"
	"sync/atomic"
)

// The domain of a wide variable is a list of intervals; conditions on one wide
// variable are decided on it, with lemmas for the solver as for small variables.

type ivset struct {
	iv [][2]uint64 // sorted, disjoint, not adjacent
	id int64
}

var (
	ivMu    sync.Mutex
	ivByKey = map[string]*ivset{}
	wsets   sync.Map // *Expr -> *ivset (nil: unknown)
)

func mkIv(iv [][2]uint64) *ivset {
	k := fmt.Sprint(iv)
	ivMu.Lock()
	defer ivMu.Unlock()
	if s := ivByKey[k]; s != nil {
		return s
	}
	s := &ivset{iv, int64(len(ivByKey) + 1)}
	ivByKey[k] = s
	return s
}

func ivAnd(a, b *ivset) *ivset {
	var r [][2]uint64
	i, j := 0, 0
	for i < len(a.iv) && j < len(b.iv) {
		lo, hi := max(a.iv[i][0], b.iv[j][0]), min(a.iv[i][1], b.iv[j][1])
		if lo <= hi {
			r = append(r, [2]uint64{lo, hi})
		}
		if a.iv[i][1] < b.iv[j][1] {
			i++
		} else {
			j++
		}
	}
	return mkIv(r)
}

// wideVar is the only variable of e, if it is wide.
func (e *Expr) wideVar() *Var {
	if len(e.vars) != 1 {
		return nil
	}
	if v := varOf(e.vars[0]); !v.small {
		return v
	}
	return nil
}

func (v *Var) full() *ivset {
	if s := v.fullp.Load(); s != nil {
		return s
	}
	s := v.computeFull()
	v.fullp.Store(s)
	return s
}

func (v *Var) computeFull() *ivset {
	iv := [][2]uint64{}
	lo := v.lo
	for _, x := range v.excl {
		if x[0] > lo {
			iv = append(iv, [2]uint64{lo, x[0] - 1})
		}
		lo = x[1] + 1
	}
	if lo <= v.hi {
		iv = append(iv, [2]uint64{lo, v.hi})
	}
	return mkIv(iv)
}

// wideSet is the set of values of the wide variable for which e holds.
func (e *Expr) wideSet() *ivset {
	if x, ok := wsets.Load(e); ok {
		return x.(*ivset)
	}
	v := e.wideVar()
	var r *ivset
	switch e.op {
	case ONot:
		if a := e.a.wideSet(); a != nil {
			r = ivMinus(v.full(), a)
		}
	case OAnd, OOr:
		a, b := e.a.wideSet(), e.b.wideSet()
		if a != nil && b != nil {
			if e.op == OAnd {
				r = ivAnd(a, b)
			} else {
				r = ivMinus(v.full(), ivAnd(ivMinus(v.full(), a), ivMinus(v.full(), b)))
			}
		}
	default:
		r = e.bruteSet(v)
	}
	wsets.Store(e, r)
	return r
}

func ivMinus(a, b *ivset) *ivset {
	var r [][2]uint64
	j := 0
	for _, x := range a.iv {
		lo := x[0]
		for j < len(b.iv) && b.iv[j][1] < lo {
			j++
		}
		for k := j; k < len(b.iv) && b.iv[k][0] <= x[1] && lo <= x[1]; k++ {
			if b.iv[k][0] > lo {
				r = append(r, [2]uint64{lo, b.iv[k][0] - 1})
			}
			lo = b.iv[k][1] + 1
		}
		if lo <= x[1] {
			r = append(r, [2]uint64{lo, x[1]})
		}
	}
	return mkIv(r)
}

// bruteSet evaluates a comparison for every value (and is cached).
func (e *Expr) bruteSet(v *Var) *ivset {
	n := uint64(0)
	for _, x := range v.full().iv {
		n += x[1] - x[0] + 1
	}
	if n > 1<<21 {
		return nil
	}
	var r [][2]uint64
	asg := map[int32]uint64{v.idx: 0}
	// a comparison of the variable itself with a constant needs no enumeration
	if lo, hi, ok := e.simpleRange(v); ok {
		if lo > hi {
			return mkIv(nil)
		}
		return ivAnd(v.full(), mkIv([][2]uint64{{lo, hi}}))
	}
	for _, x := range v.full().iv {
		for y := x[0]; y <= x[1]; y++ {
			asg[v.idx] = y
			if evalDirect(e, y) == 0 {
				continue
			}
			if k := len(r); k > 0 && r[k-1][1]+1 == y {
				r[k-1][1] = y
			} else {
				r = append(r, [2]uint64{y, y})
			}
		}
	}
	return mkIv(r)
}

// simpleRange handles v op constant, where v may be extended and is small enough not to be negative.
func (e *Expr) simpleRange(v *Var) (uint64, uint64, bool) {
	if e.a == nil || e.b == nil {
		return 0, 0, false
	}
	isV := func(x *Expr) bool {
		for x.op == OZExt || x.op == OSExt {
			x = x.a
		}
		return x.op == OVar
	}
	if v.hi >= 1<<31 {
		return 0, 0, false
	}
	const top = uint64(1)<<63 - 1
	switch {
	case isV(e.a) && e.b.isConst():
		k := sext(e.b.k, e.b.w)
		u := e.b.k
		switch e.op {
		case OEq:
			return u, u, true
		case OUlt:
			if u == 0 {
				return 1, 0, true
			}
			return 0, u - 1, true
		case OUle:
			return 0, u, true
		case OSlt:
			if k <= 0 {
				return 1, 0, true
			}
			return 0, uint64(k) - 1, true
		case OSle:
			if k < 0 {
				return 1, 0, true
			}
			return 0, uint64(k), true
		}
	case isV(e.b) && e.a.isConst():
		k := sext(e.a.k, e.a.w)
		u := e.a.k
		switch e.op {
		case OEq:
			return u, u, true
		case OUlt:
			if u >= top {
				return 1, 0, true
			}
			return u + 1, top, true
		case OUle:
			return u, top, true
		case OSlt:
			if k < 0 {
				return 0, top, true
			}
			return uint64(k) + 1, top, true
		case OSle:
			if k < 0 {
				return 0, top, true
			}
			return uint64(k), top, true
		}
	}
	return 0, 0, false
}

// evalDirect evaluates an expression over one variable.
func evalDirect(e *Expr, x uint64) uint64 {
	switch e.op {
	case OConst:
		return e.k
	case OVar:
		return x
	case OIte:
		if evalDirect(e.a, x) != 0 {
			return evalDirect(e.b, x)
		}
		return evalDirect(e.c, x)
	}
	var a, b, c uint64
	if e.a != nil {
		a = evalDirect(e.a, x)
	}
	if e.b != nil {
		b = evalDirect(e.b, x)
	}
	if e.c != nil {
		c = evalDirect(e.c, x)
	}
	return evalOp(e, a, b, c)
}

func (c *CState) wideDom(v *Var) *ivset {
	if int(v.idx) < len(c.wdom) && c.wdom[v.idx] != nil {
		return c.wdom[v.idx]
	}
	return v.full()
}

func (c *CState) setWide(v *Var, s *ivset) {
	for int(v.idx) >= len(c.wdom) {
		c.wdom = append(c.wdom, nil)
	}
	c.wdom[v.idx] = s
}

type wlemma struct {
	v    *Var
	d    *ivset
	cond *Expr
}

type wlemmaKey struct {
	v    int32
	d    int64
	cond uint32
}

var wlemmaSeen sync.Map

func (m *M) wlemma(v *Var, d *ivset, cond *Expr) {
	if _, dup := wlemmaSeen.LoadOrStore(wlemmaKey{v.idx, d.id, cond.id}, true); dup {
		return
	}
	atomic.AddInt64(&nLemmas, 1)
	m.wlemmas = append(m.wlemmas, wlemma{v, d, cond})
	if len(m.wlemmas) >= 64 {
		m.flushLemmas()
	}
}

func (l wlemma) negation() *Expr {
	in := eFalse
	w := l.v.expr.w
	for _, x := range l.d.iv {
		in = eOr(in, eAnd(eCmp(OUle, konst(w, x[0]), l.v.expr), eCmp(OUle, l.v.expr, konst(w, x[1]))))
	}
	return eAnd(in, eNot(l.cond))
}
