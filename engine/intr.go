package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// intrinsics model functions without Go bodies, and those whose behaviour is
// not part of any claim (formatting, logging, caller information).
var intrinsics map[string]func(m *M, a []V) V

func noop(m *M, a []V) V { return V{} }

func init() {
	S := harnessMod + "/sym."
	intrinsics = map[string]func(m *M, a []V) V{
		// ---- harness interface
		S + "Byte":       symByte,
		S + "ByteRange":  symByteRange,
		S + "Rune":       symRune,
		S + "Bool":       symBool,
		S + "Pick":       symPick,
		S + "Choice":     symChoice,
		S + "Slot":       symSlot,
		S + "Assume":     symAssume,
		S + "Assert":     symAssert,
		S + "Reach":      symReach,
		S + "Observe":    symObserve,
		S + "ObserveInt": symObserveInt,
		S + "Param":      symParam,
		S + "Frozen": func(m *M, a []V) V {
			m.mark = m.nextID
			m.frozen = ""
			c := a[1].p.(*Closure)
			m.call(c.fn, []V{{n: 1}}, c.binds)
			m.mark = 0
			if m.frozen != "" {
				msg := m.frozen
				m.frozen = ""
				lbl, _ := strConc(a[0])
				m.hr.violation(m, "isolation", lbl+": "+msg, nil)
			}
			return V{}
		},
		S + "Native": noop,
		S + "Input":  noop,
		S + "Deep":   nil,

		// ---- run-time and low-level
		"runtime.Caller": func(m *M, a []V) V {
			return tupleV(V{}, strV("source.go"), V{n: 1}, V{n: 1})
		},
		"runtime.Callers":                           func(m *M, a []V) V { return V{} },
		"runtime.KeepAlive":                         noop,
		"runtime.Gosched":                           noop,
		"runtime.GC":                                noop,
		"internal/abi.NoEscape":                     func(m *M, a []V) V { return a[0] },
		"internal/abi.Escape":                       func(m *M, a []V) V { return a[0] },
		"(*strings.Builder).copyCheck":              noop,
		"internal/race.Enabled":                     noop,
		"internal/reflectlite.TypeOf":               noop,
		"internal/godebug.New":                      noop,
		"(*internal/godebug.Setting).Value":         noop,
		"(*internal/godebug.Setting).IncNonDefault": noop,
		"(*sync.Mutex).Lock":                        noop,
		"(*sync.Mutex).Unlock":                      noop,
		"(*sync.Mutex).TryLock":                     func(m *M, a []V) V { return V{n: 1} },
		"(*sync.RWMutex).Lock":                      noop,
		"(*sync.RWMutex).Unlock":                    noop,
		"(*sync.RWMutex).RLock":                     noop,
		"(*sync.RWMutex).RUnlock":                   noop,
		"(*sync.WaitGroup).Add":                     noop,
		"(*sync.WaitGroup).Done":                    noop,
		"(*sync.WaitGroup).Wait":                    noop,
		"(*sync.Once).Do": func(m *M, a []V) V {
			o := a[0].p.(*Obj)
			if o.slots[a[0].n].n == 0 && o.slots[a[0].n].p == nil {
				m.touchIf(o, nil)
				o.slots[a[0].n] = V{n: 1}
				if c, ok := a[1].p.(*Closure); ok {
					m.call(c.fn, nil, c.binds)
				}
			}
			return V{}
		},
		"(*sync.Pool).Get": poolGet,
		"(*sync.Pool).Put": poolPut,
		"(*sync.Map).Load": func(m *M, a []V) V {
			v, ok := m.mapGet(syncMap(m, a, false), a[1], tiAny(), tiAny(), V{})
			return tupleV(v, ok)
		},
		"(*sync.Map).Store": func(m *M, a []V) V {
			m.mapSet(syncMap(m, a, true), a[1], a[2], tiAny())
			return V{}
		},
		"(*sync.Map).LoadOrStore": func(m *M, a []V) V {
			v, ok := m.mapGet(syncMap(m, a, false), a[1], tiAny(), tiAny(), V{})
			if m.truth(ok) {
				return tupleV(v, V{n: 1})
			}
			m.mapSet(syncMap(m, a, true), a[1], a[2], tiAny())
			return tupleV(a[2], V{})
		},
		"(*sync.Map).Swap": func(m *M, a []V) V {
			v, ok := m.mapGet(syncMap(m, a, false), a[1], tiAny(), tiAny(), V{})
			m.mapSet(syncMap(m, a, true), a[1], a[2], tiAny())
			return tupleV(v, ok)
		},
		"(*sync.Map).LoadAndDelete": func(m *M, a []V) V {
			v, ok := m.mapGet(syncMap(m, a, false), a[1], tiAny(), tiAny(), V{})
			if m.truth(ok) {
				m.mapDelete(syncMap(m, a, true), a[1], tiAny())
				return tupleV(v, V{n: 1})
			}
			return tupleV(V{}, V{})
		},
		"(*sync.Map).Delete": func(m *M, a []V) V {
			if mo := syncMap(m, a, true); mo != nil {
				m.mapDelete(mo, a[1], tiAny())
			}
			return V{}
		},
		"(*sync.Map).Clear": func(m *M, a []V) V {
			o := a[0].p.(*Obj)
			m.touchIf(o, nil)
			o.slots[a[0].n] = V{}
			return V{}
		},
		"(*sync.Map).Range": func(m *M, a []V) V {
			mo := syncMap(m, a, false)
			c, ok := a[1].p.(*Closure)
			for i := 0; mo != nil && ok && i < len(mo.entries); i++ {
				if e := mo.entries[i]; !e.dead && !m.truth(m.call(c.fn, []V{e.k, e.v}, c.binds)) {
					break
				}
			}
			return V{}
		},
		"(*sync/atomic.Value).Load": func(m *M, a []V) V { return a[0].p.(*Obj).slots[a[0].n] },
		"(*sync/atomic.Value).Store": func(m *M, a []V) V {
			o := a[0].p.(*Obj)
			m.touchIf(o, nil)
			o.slots[a[0].n] = a[1]
			return V{}
		},
		"(*sync/atomic.Value).Swap":         atomicSwap,
		"sync/atomic.LoadPointer":           atomicLoad,
		"sync/atomic.StorePointer":          atomicStore,
		"sync/atomic.SwapPointer":           atomicSwap,
		"sync/atomic.SwapInt32":             atomicSwap,
		"sync/atomic.SwapInt64":             atomicSwap,
		"sync/atomic.SwapUint32":            atomicSwap,
		"sync/atomic.SwapUint64":            atomicSwap,
		"sync/atomic.CompareAndSwapInt32":   atomicCAS(&TypeInfo{w: 32, signed: true}),
		"sync/atomic.CompareAndSwapInt64":   atomicCAS(&TypeInfo{w: 64, signed: true}),
		"sync/atomic.CompareAndSwapUint32":  atomicCAS(&TypeInfo{w: 32}),
		"sync/atomic.CompareAndSwapUint64":  atomicCAS(&TypeInfo{w: 64}),
		"sync/atomic.CompareAndSwapPointer": atomicCAS(nil),
		"sync/atomic.LoadUintptr":           atomicLoad,
		"sync/atomic.StoreUintptr":          atomicStore,
		"sync/atomic.LoadInt32":             atomicLoad,
		"sync/atomic.LoadInt64":             atomicLoad,
		"sync/atomic.LoadUint32":            atomicLoad,
		"sync/atomic.LoadUint64":            atomicLoad,
		"sync/atomic.StoreInt32":            atomicStore,
		"sync/atomic.StoreInt64":            atomicStore,
		"sync/atomic.StoreUint32":           atomicStore,
		"sync/atomic.StoreUint64":           atomicStore,
		"sync/atomic.AddInt32":              atomicAdd(32, true),
		"sync/atomic.AddInt64":              atomicAdd(64, true),
		"sync/atomic.AddUint32":             atomicAdd(32, false),
		"sync/atomic.AddUint64":             atomicAdd(64, false),
		"math.Float64bits":                  func(m *M, a []V) V { return a[0] },
		"math.Float64frombits":              func(m *M, a []V) V { return a[0] },
		"math.Float32bits": func(m *M, a []V) V {
			return V{n: int64(math.Float32bits(float32(math.Float64frombits(uint64(a[0].n)))))}
		},
		"math.Float32frombits": func(m *M, a []V) V {
			return V{n: int64(math.Float64bits(float64(math.Float32frombits(uint32(a[0].n)))))}
		},
		"math/bits.Len64":           func(m *M, a []V) V { return V{n: int64(bits.Len64(uint64(m.cint(a[0]))))} },
		"math/bits.TrailingZeros64": func(m *M, a []V) V { return V{n: int64(bits.TrailingZeros64(uint64(m.cint(a[0]))))} },

		// ---- bytealg
		"internal/bytealg.MakeNoZero": func(m *M, a []V) V {
			n := int(m.cint(a[0]))
			return V{p: &Slice{obj: m.newObj("buffer", n), len: n, cap_: n}}
		},
		"internal/bytealg.IndexByte":           func(m *M, a []V) V { return m.indexByte(m.sliceCells(a[0]), a[1]) },
		"internal/bytealg.IndexByteString":     func(m *M, a []V) V { return m.indexByte(strCells(a[0]), a[1]) },
		"internal/bytealg.LastIndexByte":       func(m *M, a []V) V { return m.lastIndexByte(m.sliceCells(a[0]), a[1]) },
		"internal/bytealg.LastIndexByteString": func(m *M, a []V) V { return m.lastIndexByte(strCells(a[0]), a[1]) },
		"internal/bytealg.Count":               func(m *M, a []V) V { return m.countByte(m.sliceCells(a[0]), a[1]) },
		"internal/bytealg.CountString":         func(m *M, a []V) V { return m.countByte(strCells(a[0]), a[1]) },
		"internal/bytealg.Equal": func(m *M, a []V) V {
			return eV(strEqE(m.bytesToStr(a[0]), m.bytesToStr(a[1])))
		},
		"bytes.Equal": func(m *M, a []V) V {
			return eV(strEqE(m.bytesToStr(a[0]), m.bytesToStr(a[1])))
		},
		"internal/bytealg.Compare":       func(m *M, a []V) V { return m.compare(m.bytesToStr(a[0]), m.bytesToStr(a[1])) },
		"internal/bytealg.CompareString": func(m *M, a []V) V { return m.compare(a[0], a[1]) },
		"internal/bytealg.Index":         func(m *M, a []V) V { return m.index(m.bytesToStr(a[0]), m.bytesToStr(a[1])) },
		"internal/bytealg.IndexString":   func(m *M, a []V) V { return m.index(a[0], a[1]) },
		"internal/bytealg.Cutover":       func(m *M, a []V) V { return V{n: 64} },
		"strings.Index":                  func(m *M, a []V) V { return m.index(a[0], a[1]) },
		"internal/stringslite.Index":     func(m *M, a []V) V { return m.index(a[0], a[1]) },
		"bytes.Index":                    func(m *M, a []V) V { return m.index(m.bytesToStr(a[0]), m.bytesToStr(a[1])) },
		"strings.Clone":                  func(m *M, a []V) V { return a[0] },
		"internal/stringslite.Clone":     func(m *M, a []V) V { return a[0] },

		// ---- formatting
		"fmt.Sprintf":  func(m *M, a []V) V { s, _ := m.sprintf(a[0], m.sliceCells(a[1])); return s },
		"fmt.Errorf":   fmtErrorf,
		"fmt.Sprint":   func(m *M, a []V) V { return m.sprint(m.sliceCells(a[0]), false) },
		"fmt.Sprintln": func(m *M, a []V) V { return m.sprint(m.sliceCells(a[0]), true) },
		"fmt.Printf":   func(m *M, a []V) V { return tupleV(V{}, V{}) },
		"fmt.Println":  func(m *M, a []V) V { return tupleV(V{}, V{}) },
		"fmt.Print":    func(m *M, a []V) V { return tupleV(V{}, V{}) },
		"fmt.Fprintf":  fmtFprintf,
		"fmt.Fprintln": func(m *M, a []V) V { return tupleV(V{}, V{}) },
		"fmt.Fprint":   func(m *M, a []V) V { return tupleV(V{}, V{}) },
		"errors.Is":    errorsIs,
		"errors.As":    errorsAs,
		"os.Getenv":    noop,
	}
	delete(intrinsics, S+"Deep")
	preIntr = map[string]func(m *M, a []V) (V, bool){
		"unicode/utf8.DecodeRune": func(m *M, a []V) (V, bool) { return decodePre(m.sliceCells(a[0])) },
		"unicode/utf8.DecodeRuneInString": func(m *M, a []V) (V, bool) {
			if !strSym(a[0]) {
				return V{}, false
			}
			return decodePre(strCells(a[0]))
		},
		"unicode/utf8.FullRune":         func(m *M, a []V) (V, bool) { return fullPre(m.sliceCells(a[0])) },
		"unicode/utf8.FullRuneInString": func(m *M, a []V) (V, bool) { return fullPre(strCells(a[0])) },
		"unicode/utf8.AppendRune": func(m *M, a []V) (V, bool) {
			if a[1].p == nil {
				return V{}, false
			}
			cells := m.runeCells(a[1].p.(*Expr))
			old := m.sliceCells(a[0])
			return m.bytesFrom(append(append([]V(nil), old...), cells...)), true
		},
		"unicode/utf8.EncodeRune": func(m *M, a []V) (V, bool) {
			if a[1].p == nil {
				return V{}, false
			}
			cells := m.runeCells(a[1].p.(*Expr))
			sl, _ := a[0].p.(*Slice)
			if sl == nil || sl.len < len(cells) {
				m.rtPanic("index out of range")
			}
			m.touchIf(sl.obj, nil)
			copy(sl.obj.slots[sl.off:], cells)
			return V{n: int64(len(cells))}, true
		},
	}
}

// preIntr handle special cases of functions that are otherwise interpreted.
var preIntr map[string]func(m *M, a []V) (V, bool)

func decodePre(c []V) (V, bool) {
	if len(c) == 0 {
		return V{}, false
	}
	e, ok := c[0].p.(*Expr)
	if !ok {
		return V{}, false
	}
	r, n, ok := provRune(e, func(k int) V {
		if k < len(c) {
			return c[k]
		}
		return V{}
	})
	if !ok {
		return V{}, false
	}
	return tupleV(r, V{n: int64(n)}), true
}

func fullPre(c []V) (V, bool) {
	if len(c) == 0 {
		return V{}, false
	}
	e, ok := c[0].p.(*Expr)
	if !ok || e.op != OU8 || e.k&0xff != 0 || e.k>>8 == 1 {
		return V{}, false
	}
	return boolV(len(c) >= int(e.k>>8)), true
}

// ---------------------------------------------------------------- inputs

func (m *M) uniq(v V) string {
	n, ok := strConc(v)
	if !ok {
		unsup("symbolic variable name")
	}
	if m.nvars == nil {
		m.nvars = map[string]int{}
	}
	m.nvars[n]++
	if k := m.nvars[n]; k > 1 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (m *M) nv(e *Expr) *Expr {
	m.pathVars = append(m.pathVars, varOf(int32(e.k)))
	return e
}

func symByte(m *M, a []V) V {
	name := m.uniq(a[0])
	set, ok := strConc(a[1])
	if !ok {
		unsup("symbolic domain")
	}
	var d bs4
	for i := 0; i < len(set); i++ {
		d[set[i]>>6] |= 1 << (set[i] & 63)
	}
	if bsCount(d) == 1 {
		return V{n: int64(bsFirst(d))}
	}
	return V{p: m.nv(newSmallVar(name, 8, d))}
}

func symByteRange(m *M, a []V) V {
	name := m.uniq(a[0])
	var d bs4
	for i := a[1].n; i <= a[2].n; i++ {
		d[i>>6] |= 1 << (uint(i) & 63)
	}
	return V{p: m.nv(newSmallVar(name, 8, d))}
}

func symRune(m *M, a []V) V {
	name := m.uniq(a[0])
	lo, hi := uint64(a[1].n), uint64(a[2].n)
	var ex [][2]uint64
	if lo <= 0xdfff && hi >= 0xd800 {
		ex = append(ex, [2]uint64{0xd800, 0xdfff})
	}
	if hi < 256 {
		return V{p: m.nv(newSmallVar(name, 32, rangeDom(lo, hi)))}
	}
	return V{p: m.nv(newWideVar(name, 32, lo, hi, ex))}
}

func rangeDom(lo, hi uint64) (d bs4) {
	for i := lo; i <= hi; i++ {
		d[i>>6] |= 1 << (i & 63)
	}
	return
}

func symBool(m *M, a []V) V {
	v := m.nv(newSmallVar(m.uniq(a[0]), 8, rangeDom(0, 1)))
	return eV(eEq(v, konst(8, 1)))
}

func symPick(m *M, a []V) V {
	name := m.uniq(a[0])
	n := m.cint(a[1])
	if n <= 0 || n > 256 {
		unsup("Pick out of range")
	}
	if n == 1 {
		return V{}
	}
	return V{p: eConv(m.nv(newSmallVar(name, 8, rangeDom(0, uint64(n-1)))), 64, false)}
}

func symChoice(m *M, a []V) V {
	v := symPick(m, a)
	return V{n: m.cint(v)}
}

// symSlot(name, toks) (index int, text string): a symbolic member of a list of
// texts of equal length.
func symSlot(m *M, a []V) V {
	name := m.uniq(a[0])
	var toks []string
	for _, c := range m.sliceCells(a[1]) {
		s, ok := strConc(c)
		if !ok {
			unsup("symbolic vocabulary")
		}
		toks = append(toks, s)
	}
	if len(toks) == 1 {
		return tupleV(V{}, strV(toks[0]))
	}
	w := 0
	for _, t := range toks {
		w = max(w, len(t))
	}
	v := m.nv(newSmallVar(name, 8, rangeDom(0, uint64(len(toks)-1))))
	cells := make([]V, w)
	for i := range cells {
		tbl := make([]uint64, len(toks))
		for k, t := range toks {
			tbl[k] = ' '
			if i < len(t) {
				tbl[k] = uint64(t[i])
			}
		}
		cells[i] = eV8(eTbl(v, 8, tbl))
	}
	return tupleV(V{p: eConv(v, 64, false)}, cellsStr(cells))
}

func (m *M) replaying() bool {
	// in a prefix the outcome is already in the recorded constraints
	if m.pos < len(m.prefix) {
		m.pos++
		if m.pos == len(m.prefix) {
			m.endPrefix()
		}
		return true
	}
	m.trace = append(m.trace, 1)
	return false
}

func symAssume(m *M, a []V) V {
	if a[0].p == nil {
		if a[0].n == 0 {
			panic(pathEnd{"assume"})
		}
		return V{}
	}
	if m.replaying() {
		return V{}
	}
	c := a[0].p.(*Expr)
	switch m.classify(c) {
	case kTrue:
		return V{}
	case kFalse:
		panic(pathEnd{"assume"})
	case kUnknown:
		if !m.feasible(c) {
			panic(pathEnd{"assume"})
		}
	}
	m.assume(c)
	return V{}
}

func symAssert(m *M, a []V) V {
	lbl := showStr(a[1])
	m.hr.noteAssert(lbl)
	if a[0].p == nil {
		if a[0].n == 0 {
			m.hr.violation(m, "assert", lbl, nil)
			panic(pathEnd{"violation"})
		}
		return V{}
	}
	if m.replaying() {
		return V{}
	}
	c := a[0].p.(*Expr)
	k := m.classify(c)
	if k == kTrue {
		return V{}
	}
	if k == kUnknown {
		if !m.feasible(eNot(c)) {
			m.cs.facts.add(c)
			return V{}
		}
	}
	m.hr.violation(m, "assert", lbl, eNot(c))
	if k == kFalse || !m.feasible(c) {
		panic(pathEnd{"violation"})
	}
	m.assume(c)
	return V{}
}

func symReach(m *M, a []V) V {
	s, _ := strConc(a[0])
	m.reached = append(m.reached, s)
	return V{}
}

func symObserve(m *M, a []V) V {
	s, _ := strConc(a[0])
	m.observed = append(m.observed, obsItem{label: s, v: a[1], str: true})
	return V{}
}

func symObserveInt(m *M, a []V) V {
	s, _ := strConc(a[0])
	m.observed = append(m.observed, obsItem{label: s, v: a[1], w: 64, signed: true})
	return V{}
}

func symParam(m *M, a []V) V {
	s, _ := strConc(a[0])
	v, ok := m.hr.params[s]
	if !ok {
		v = int(a[1].n)
	}
	return V{n: int64(v)}
}

// ---------------------------------------------------------------- sync

var poolItems = map[string]V{}

func poolGet(m *M, a []V) V {
	o := a[0].p.(*Obj)
	st := typeInfo(o.poolType(m))
	off := int(a[0].n)
	n := len(st.fields)
	// the local field, opaque to callers, holds the pooled value
	if v := o.slots[off+1]; v.p != nil {
		if st := v.p; st != nil {
			m.touchIf(o, nil)
			o.slots[off+1] = V{}
			return v
		}
	}
	nf := o.slots[off+st.offs[n-1]]
	if c, ok := nf.p.(*Closure); ok {
		return m.call(c.fn, nil, c.binds)
	}
	return V{}
}

func (o *Obj) poolType(m *M) types.Type {
	return m.eng.pkgs["sync"].Type("Pool").Type()
}

func poolPut(m *M, a []V) V {
	o := a[0].p.(*Obj)
	m.touchIf(o, nil)
	o.slots[int(a[0].n)+1] = a[1]
	return V{}
}

var anyOnce = sync.OnceValue(func() *TypeInfo { return typeInfo(types.NewInterfaceType(nil, nil)) })

func tiAny() *TypeInfo { return anyOnce() }

// syncMap is the map behind a sync.Map, kept in its first slot.
func syncMap(m *M, a []V, write bool) *MapObj {
	o, ok := a[0].p.(*Obj)
	if !ok {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	mo, _ := o.slots[a[0].n].p.(*MapObj)
	if write {
		if mo == nil {
			m.touchIf(o, nil)
			mo = m.newMap()
			o.slots[a[0].n] = V{p: mo}
		} else {
			m.touchMap(mo, nil)
		}
	}
	return mo
}

func atomicSwap(m *M, a []V) V {
	v := atomicLoad(m, a)
	atomicStore(m, a)
	return v
}

func atomicCAS(ti *TypeInfo) func(m *M, a []V) V {
	return func(m *M, a []V) V {
		v := atomicLoad(m, a)
		same := false
		if ti == nil {
			same = v.p == a[1].p && v.n == a[1].n
		} else {
			same = m.decide(m.eqV(ti, v, a[1]))
		}
		if same {
			o := a[0].p.(*Obj)
			m.touchIf(o, nil)
			o.slots[a[0].n] = a[2]
		}
		return V{n: map[bool]int64{true: 1}[same]}
	}
}

func atomicLoad(m *M, a []V) V {
	o, ok := a[0].p.(*Obj)
	if !ok {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return o.slots[a[0].n]
}

func atomicStore(m *M, a []V) V {
	o := a[0].p.(*Obj)
	m.touchIf(o, nil)
	o.slots[a[0].n] = a[1]
	return V{}
}

func atomicAdd(w uint8, signed bool) func(m *M, a []V) V {
	ti := &TypeInfo{w: w, signed: signed}
	return func(m *M, a []V) V {
		o := a[0].p.(*Obj)
		m.touchIf(o, nil)
		v := exprV(eBin(OAdd, exprOf(o.slots[a[0].n], w), exprOf(a[1], w)), ti)
		o.slots[a[0].n] = v
		return v
	}
}

// ---------------------------------------------------------------- strings

func (m *M) indexByte(c []V, b V) V {
	for i, x := range c {
		if m.decide(eEq(exprOf(x, 8), exprOf(b, 8))) {
			return V{n: int64(i)}
		}
	}
	return V{n: -1}
}

func (m *M) lastIndexByte(c []V, b V) V {
	for i := len(c) - 1; i >= 0; i-- {
		if m.decide(eEq(exprOf(c[i], 8), exprOf(b, 8))) {
			return V{n: int64(i)}
		}
	}
	return V{n: -1}
}

var tiInt = &TypeInfo{w: 64, signed: true}

func (m *M) countByte(c []V, b V) V {
	v := V{}
	for _, x := range c {
		q := eEq(exprOf(x, 8), exprOf(b, 8))
		v = exprV(eBin(OAdd, exprOf(v, 64), eIte(q, konst(64, 1), konst(64, 0))), tiInt)
	}
	return v
}

func (m *M) compare(a, b V) V {
	sa, ok1 := strConc(a)
	sb, ok2 := strConc(b)
	if ok1 && ok2 {
		return V{n: int64(strings.Compare(sa, sb))}
	}
	if m.decide(strEqE(a, b)) {
		return V{}
	}
	if m.truth(m.strCmp(40 /* token.LSS */, a, b)) {
		return V{n: -1}
	}
	return V{n: 1}
}

func (m *M) index(a, b V) V {
	sa, ok1 := strConc(a)
	sb, ok2 := strConc(b)
	if ok1 && ok2 {
		return V{n: int64(strings.Index(sa, sb))}
	}
	n, k := strLen(a), strLen(b)
	for i := 0; i+k <= n; i++ {
		if m.decide(strEqE(strSlice(a, i, i+k), b)) {
			return V{n: int64(i)}
		}
	}
	return V{n: -1}
}

// decodeRune decodes the rune of s at byte i.
func (m *M) decodeRune(s V, i int) (V, int) {
	c := strAt(s, i)
	if c.p == nil {
		if c.n < 0x80 {
			return c, 1
		}
		var buf [4]byte
		n := 0
		for n < 4 && i+n < strLen(s) {
			x := strAt(s, i+n)
			if x.p != nil {
				break
			}
			buf[n] = byte(x.n)
			n++
		}
		if n == 4 || i+n == strLen(s) || utf8.FullRune(buf[:n]) {
			r, sz := utf8.DecodeRune(buf[:n])
			return V{n: int64(r)}, sz
		}
	} else {
		e := c.p.(*Expr)
		if r, n, ok := provRune(e, func(k int) V {
			if i+k < strLen(s) {
				return strAt(s, i+k)
			}
			return V{}
		}); ok {
			return r, n
		}
		if m.decide(eCmp(OUlt, e, konst(8, 0x80))) {
			return exprV(eConv(e, 32, false), &TypeInfo{w: 32, signed: true}), 1
		}
	}
	hi := min(i+4, strLen(s))
	v := m.call(m.eng.fn(m.eng.pkgs["unicode/utf8"].Func("DecodeRuneInString")), []V{strSlice(s, i, hi)}, nil)
	a := v.p.(*Agg)
	return a.s[0], int(m.cint(a.s[1]))
}

// provRune recognises the bytes of an encoded symbolic rune.
func provRune(e *Expr, at func(int) V) (V, int, bool) {
	if e.op != OU8 || e.k&0xff != 0 || e.k>>8 == 1 {
		return V{}, 0, false
	}
	l := int(e.k >> 8)
	for k := 1; k < l; k++ {
		x, ok := at(k).p.(*Expr)
		if !ok || x.op != OU8 || x.a != e.a || int(x.k&0xff) != k || int(x.k>>8) != l {
			return V{}, 0, false
		}
	}
	return V{p: e.a}, l, true
}

// runeStr is string(rune).
func (m *M) runeStr(v V) V {
	if v.p == nil {
		n := v.n
		if n < 0 || n > 0x10ffff {
			n = 0xfffd
		}
		return strV(string(rune(n)))
	}
	c := m.runeCells(v.p.(*Expr))
	return cellsStr(c)
}

func (m *M) runeCells(e *Expr) []V {
	if m.decide(eCmp(OUlt, e, konst(32, 0x80))) {
		return []V{eV8(eConv(e, 8, false))}
	}
	l := 4
	switch {
	case m.decide(eCmp(OUlt, e, konst(32, 0x800))):
		l = 2
	case m.decide(eOr(eCmp(OUlt, konst(32, 0x10ffff), e), eAnd(eCmp(OUle, konst(32, 0xd800), e), eCmp(OUle, e, konst(32, 0xdfff))))):
		return strCells(strV("\uFFFD"))
	case m.decide(eCmp(OUlt, e, konst(32, 0x10000))):
		l = 3
	}
	out := make([]V, l)
	for i := range out {
		out[i] = eV8(eU8(e, i, l))
	}
	return out
}

// ---------------------------------------------------------------- formatting

func (m *M) fmtArg(verb byte, v V) V {
	if v.p == nil {
		return strV("<nil>")
	}
	ifc, ok := v.p.(*Iface)
	if !ok {
		return strV("?")
	}
	return m.fmtVal(verb, ifc.t, ifc.v, 0)
}

func (m *M) fmtVal(verb byte, t *TypeInfo, v V, depth int) V {
	if verb == 'T' {
		return strV(t.t.String())
	}
	if t.isIface {
		if v.p == nil {
			return strV("<nil>")
		}
		ifc := v.p.(*Iface)
		return m.fmtVal(verb, ifc.t, ifc.v, depth)
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, name := range []string{"Error", "String"} {
			if _, isPtr := t.u.(*types.Pointer); isPtr && v.p == nil {
				break
			}
			f := m.eng.methodByName(t, name)
			if f == nil || f.ssa.Signature.Params().Len() != 0 || len(f.resTI) != 1 || !f.resTI[0].isStr {
				continue
			}
			s := m.call(f, []V{v}, nil)
			if verb == 'q' {
				return m.quote(s)
			}
			return s
		}
	}
	switch {
	case t.isStr:
		if verb == 'q' {
			return m.quote(v)
		}
		return v
	case t.w == 0:
		if m.truth(v) {
			return strV("true")
		}
		return strV("false")
	case t.w != 255:
		if verb == 'c' {
			return m.runeStr(v)
		}
		if verb == 'q' {
			return strCat(strCat(strV("'"), m.runeStr(v)), strV("'"))
		}
		if v.p != nil {
			e := v.p.(*Expr)
			if e.smallVar() == nil {
				return strV("<num>")
			}
			v = V{n: norm(m.concretize(e), t)}
		}
		b := 10
		if verb == 'x' {
			b = 16
		}
		if t.signed {
			return strV(strconv.FormatInt(v.n, b))
		}
		return strV(strconv.FormatUint(uint64(v.n), b))
	case t.isFloat:
		return strV(fmt.Sprint(math.Float64frombits(uint64(v.n))))
	}
	if st, ok := t.u.(*types.Struct); ok && depth < 4 {
		a, _ := v.p.(*Agg)
		out := strV("{")
		for i := 0; i < st.NumFields() && a != nil; i++ {
			if i > 0 {
				out = strCat(out, strV(" "))
			}
			out = strCat(out, m.fmtVal(verb, t.fields[i], aggField(v, t.offs[i], t.fields[i]), depth+1))
		}
		return strCat(out, strV("}"))
	}
	if v.p == nil {
		return strV("<nil>")
	}
	return strV("<value>")
}

func (m *M) quote(s V) V {
	if c, ok := strConc(s); ok {
		return strV(strconv.Quote(c))
	}
	return strCat(strCat(strV("\""), s), strV("\""))
}

// sprintf formats; the second result is the operand of a %w, if any.
func (m *M) sprintf(f V, args []V) (V, V) {
	fs, ok := strConc(f)
	if !ok {
		return strV("<fmt>"), V{}
	}
	var out, wrapped V
	i, ai := 0, 0
	for i < len(fs) {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			out = strCat(out, strV(fs[i:]))
			break
		}
		out = strCat(out, strV(fs[i:i+j]))
		i += j + 1
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) {
			break
		}
		verb := fs[i]
		i++
		if verb == '%' {
			out = strCat(out, strV("%"))
			continue
		}
		if ai >= len(args) {
			out = strCat(out, strV("%!"+string(verb)+"(MISSING)"))
			continue
		}
		v := args[ai]
		ai++
		if verb == 'w' {
			wrapped = v
			verb = 'v'
		}
		out = strCat(out, m.fmtArg(verb, v))
	}
	return out, wrapped
}

func (m *M) sprint(args []V, ln bool) V {
	var out V
	for i, v := range args {
		if i > 0 && ln {
			out = strCat(out, strV(" "))
		}
		out = strCat(out, m.fmtArg('v', v))
	}
	if ln {
		out = strCat(out, strV("\n"))
	}
	return out
}

func fmtErrorf(m *M, a []V) V {
	s, w := m.sprintf(a[0], m.sliceCells(a[1]))
	if w.p != nil {
		o := m.newObj("error", 2)
		o.slots[0] = s
		o.slots[1] = w
		return V{p: &Iface{t: typeInfo(types.NewPointer(m.eng.tiWrapError.t)), v: V{p: o}}}
	}
	o := m.newObj("error", 1)
	o.slots[0] = s
	return V{p: &Iface{t: typeInfo(types.NewPointer(m.eng.tiFmtError.t)), v: V{p: o}}}
}

func fmtFprintf(m *M, a []V) V {
	s, _ := m.sprintf(a[1], m.sliceCells(a[2]))
	if a[0].p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	ifc := a[0].p.(*Iface)
	f := m.eng.methodByName(ifc.t, "Write")
	return m.call(f, []V{ifc.v, m.bytesFrom(strCells(s))}, nil)
}

func (m *M) unwrap(err V) V {
	ifc := err.p.(*Iface)
	f := m.eng.methodByName(ifc.t, "Unwrap")
	if f == nil || len(f.resTI) != 1 || !f.resTI[0].isIface {
		return V{}
	}
	return m.call(f, []V{ifc.v}, nil)
}

func errorsIs(m *M, a []V) V {
	err, target := a[0], a[1]
	if err.p == nil || target.p == nil {
		return boolV(err.p == nil && target.p == nil)
	}
	tt := target.p.(*Iface)
	for err.p != nil {
		x := err.p.(*Iface)
		if x.t == tt.t && types.Comparable(x.t.t) && m.decide(m.eqV(x.t, x.v, tt.v)) {
			return V{n: 1}
		}
		if f := m.eng.methodByName(x.t, "Is"); f != nil && len(f.resTI) == 1 {
			if m.truth(m.call(f, []V{x.v, target}, nil)) {
				return V{n: 1}
			}
		}
		err = m.unwrap(err)
	}
	return V{}
}

func errorsAs(m *M, a []V) V {
	err := a[0]
	if a[1].p == nil {
		m.rtPanic("errors: target cannot be nil")
	}
	tp := a[1].p.(*Iface)
	pt, ok := tp.t.u.(*types.Pointer)
	if !ok || tp.v.p == nil {
		m.rtPanic("errors: target must be a non-nil pointer")
	}
	want := typeInfo(pt.Elem())
	for err.p != nil {
		x := err.p.(*Iface)
		if want.isIface && m.eng.implements(x.t, want) {
			o := tp.v.p.(*Obj)
			m.touchIf(o, nil)
			o.slots[tp.v.n] = err
			return V{n: 1}
		}
		if !want.isIface && x.t == want {
			o := tp.v.p.(*Obj)
			m.touchIf(o, nil)
			m.storeAt(o, int(tp.v.n), x.v, want)
			return V{n: 1}
		}
		err = m.unwrap(err)
	}
	return V{}
}

var _ = bytes.Equal
