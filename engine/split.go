package main

// A condition over several small variables is split on the value of a part that
// can take few values, so that what remains concerns one variable and is decided
// by its domain.

const splitMark = -1000

// parts lists the maximal subexpressions of c over one small variable, in a fixed order.
func parts(c *Expr) []*Expr {
	var out []*Expr
	seen := map[*Expr]bool{}
	var walk func(e *Expr)
	walk = func(e *Expr) {
		if e == nil || len(e.vars) == 0 || seen[e] {
			return
		}
		seen[e] = true
		if e.smallVar() != nil {
			out = append(out, e)
			return
		}
		walk(e.a)
		walk(e.b)
		walk(e.c)
	}
	walk(c)
	return out
}

func subst(e, from, to *Expr) *Expr {
	memo := map[*Expr]*Expr{from: to}
	var rec func(e *Expr) *Expr
	rec = func(e *Expr) *Expr {
		if e == nil || e.op == OConst || e.op == OVar {
			if r, ok := memo[e]; ok && e != nil {
				return r
			}
			return e
		}
		if r, ok := memo[e]; ok {
			return r
		}
		a, b, c := rec(e.a), rec(e.b), rec(e.c)
		r := e
		if a != e.a || b != e.b || c != e.c {
			switch e.op {
			case ONot:
				r = eNot(a)
			case OAnd:
				r = eAnd(a, b)
			case OOr:
				r = eOr(a, b)
			case OIte:
				r = eIte(a, b, c)
			case OEq:
				r = eEq(a, b)
			case OUlt, OUle, OSlt, OSle:
				r = eCmp(e.op, a, b)
			case OZExt, OSExt, OTrunc:
				r = simp(e.op, e.w, e.k, a, nil, nil)
			case OTbl:
				r = eTbl(a, e.w, e.tbl)
			case OU8:
				r = simp(OU8, e.w, e.k, a, nil, nil)
			case OBNot, ONeg:
				r = eUn(e.op, a)
			default:
				r = eBin(e.op, a, b)
			}
		}
		memo[e] = r
		return r
	}
	return rec(e)
}

// split reduces c, or returns it as it is.
func (m *M) split(c *Expr) *Expr {
	for len(c.vars) > 1 && len(c.vars) <= 4 {
		var ps []*Expr
		k := -1
		if m.pos < len(m.prefix) {
			x := m.prefix[m.pos]
			if x > splitMark {
				return c
			}
			m.pos++
			k = int(splitMark - x)
			ps = parts(c)
		} else {
			for _, v := range c.vars {
				if !varOf(v).small {
					return c
				}
			}
			ps = parts(c)
			best := 5
			for i, p := range ps {
				if p.w == 0 {
					continue
				}
				d := m.cs.domOf(p.smallVar())
				t := p.table()
				seen := map[uint64]bool{}
				for j := 0; j < 256 && len(seen) < best; j++ {
					if d[j>>6]>>(uint(j)&63)&1 != 0 {
						seen[t[j]] = true
					}
				}
				if len(seen) < best {
					best, k = len(seen), i
				}
			}
			if k < 0 {
				return c
			}
			m.trace = append(m.trace, int64(splitMark-k))
		}
		p := ps[k]
		x := m.concretize(p)
		c = subst(c, p, konst(p.w, x))
	}
	return c
}
