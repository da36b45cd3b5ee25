package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// V is a run-time value. Concrete scalars have p == nil and their bits in n
// (sign- or zero-extended according to their type). Symbolic scalars have a
// *Expr in p. For every non-aggregate type the zero V is the zero value.
type V struct {
	n int64
	p any
}

// Obj is a heap object: a run of slots. Pointers are an object and a slot offset.
type Obj struct {
	slots []V
	id    int32
	base  bool // created by package initialisation; restored after every path
	saved bool
	std   bool // belongs to the standard library
	what  string
}

// MapObj is a map; entries keep insertion order.
type MapObj struct {
	id      int32
	base    bool
	saved   bool
	std     bool
	entries []mapEntry
	index   map[any]int // concrete keys
	live    int
	symKeys bool
}

// SymPtr is an address of an element chosen by a symbolic index.
type SymPtr struct {
	obj    *Obj
	base   int
	n      int
	stride int
	idx    *Expr
}

// Str is an immutable string: concrete (sym == nil) or a list of byte values.
type Str struct {
	s   string
	sym []V
}

type Slice struct {
	obj       *Obj
	off       int // slot offset of element 0
	len, cap_ int
}

type Iface struct {
	t *TypeInfo
	v V
}

type Closure struct {
	fn    *Fn
	binds []V
}

// Agg is a struct, array or tuple value, flattened for struct/array.
type Agg struct{ s []V }

type mapEntry struct {
	k, v V
	dead bool
}

// TypeInfo caches what the interpreter needs to know of a type.
type TypeInfo struct {
	t       types.Type
	u       types.Type // underlying
	id      int32
	slots   int
	agg     bool
	w       uint8 // scalar integer/bool width; 255 if not an integer scalar
	signed  bool
	isFloat bool
	isStr   bool
	elem    *TypeInfo // array/slice elem
	elemP   *TypeInfo // pointer elem, map value (lazily, see elemOf)
	key     *TypeInfo // map key (lazily)
	alen    int64
	fields  []*TypeInfo
	offs    []int
	isIface bool
}

var (
	tiMu  sync.Mutex
	tiMap typeutil.Map
	tiN   int32
)

func typeInfo(t types.Type) *TypeInfo {
	tiMu.Lock()
	defer tiMu.Unlock()
	return typeInfoL(t)
}

func typeInfoL(t types.Type) *TypeInfo {
	t = types.Unalias(t)
	if x := tiMap.At(t); x != nil {
		return x.(*TypeInfo)
	}
	tiN++
	ti := &TypeInfo{t: t, u: t.Underlying(), id: tiN, slots: 1, w: 255}
	tiMap.Set(t, ti)
	switch u := ti.u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.w = 0
		case types.Int8:
			ti.w, ti.signed = 8, true
		case types.Int16:
			ti.w, ti.signed = 16, true
		case types.Int32, types.UntypedRune:
			ti.w, ti.signed = 32, true
		case types.Int, types.Int64, types.UntypedInt:
			ti.w, ti.signed = 64, true
		case types.Uint8:
			ti.w = 8
		case types.Uint16:
			ti.w = 16
		case types.Uint32:
			ti.w = 32
		case types.Uint, types.Uint64, types.Uintptr:
			ti.w = 64
		case types.Float32, types.Float64, types.UntypedFloat:
			ti.isFloat = true
		case types.String, types.UntypedString:
			ti.isStr = true
		}
	case *types.Struct:
		ti.agg = true
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			f := typeInfoL(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.offs = append(ti.offs, n)
			n += f.slots
		}
		ti.slots = n
	case *types.Array:
		ti.agg = true
		ti.elem = typeInfoL(u.Elem())
		ti.alen = u.Len()
		ti.slots = int(u.Len()) * ti.elem.slots
	case *types.Slice:
		ti.elem = typeInfoL(u.Elem())
	case *types.Pointer:
		// laid out lazily through elemOf to allow recursive types
	case *types.Map:
		ti.key = nil
	case *types.Interface:
		ti.isIface = true
	case *types.Tuple:
		ti.agg = true
	}
	return ti
}

// intOf gives a concrete integer V for a type.
func intV(n int64) V { return V{n: n} }

func boolV(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}

func exprV(e *Expr, ti *TypeInfo) V {
	if e.isConst() {
		return V{n: norm(e.k, ti)}
	}
	return V{p: e}
}

func norm(k uint64, ti *TypeInfo) int64 {
	if ti.signed {
		return sext(k, ti.w)
	}
	return int64(k & mask(ti.w))
}

// exprOf gives the expression of a scalar value.
func exprOf(v V, w uint8) *Expr {
	if v.p != nil {
		return v.p.(*Expr)
	}
	return konst(w, uint64(v.n))
}

func isSym(v V) bool {
	_, ok := v.p.(*Expr)
	return ok
}

func boolE(v V) *Expr { return exprOf(v, 0) }

func eV(e *Expr) V { // boolean or unsigned expression value
	if e.isConst() {
		return V{n: int64(e.k)}
	}
	return V{p: e}
}

func strV(s string) V {
	if s == "" {
		return V{}
	}
	return V{p: &Str{s: s}}
}

func strLen(v V) int {
	if v.p == nil {
		return 0
	}
	s := v.p.(*Str)
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

func strAt(v V, i int) V {
	s := v.p.(*Str)
	if s.sym != nil {
		return s.sym[i]
	}
	return V{n: int64(s.s[i])}
}

func strSym(v V) bool {
	if v.p == nil {
		return false
	}
	return v.p.(*Str).sym != nil
}

func strCells(v V) []V {
	if v.p == nil {
		return nil
	}
	s := v.p.(*Str)
	if s.sym != nil {
		return s.sym
	}
	out := make([]V, len(s.s))
	for i := range out {
		out[i].n = int64(s.s[i])
	}
	return out
}

func cellsStr(c []V) V {
	if len(c) == 0 {
		return V{}
	}
	for _, x := range c {
		if x.p != nil {
			return V{p: &Str{sym: c}}
		}
	}
	b := make([]byte, len(c))
	for i, x := range c {
		b[i] = byte(x.n)
	}
	return strV(string(b))
}

func strConc(v V) (string, bool) {
	if v.p == nil {
		return "", true
	}
	s := v.p.(*Str)
	if s.sym != nil {
		return "", false
	}
	return s.s, true
}

func strCat(a, b V) V {
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	if !strSym(a) && !strSym(b) {
		return strV(a.p.(*Str).s + b.p.(*Str).s)
	}
	ca, cb := strCells(a), strCells(b)
	out := make([]V, 0, len(ca)+len(cb))
	out = append(append(out, ca...), cb...)
	return V{p: &Str{sym: out}}
}

func strSlice(v V, lo, hi int) V {
	if lo == hi {
		return V{}
	}
	s := v.p.(*Str)
	if s.sym != nil {
		return cellsStr(s.sym[lo:hi:hi])
	}
	return strV(s.s[lo:hi])
}

func strEqE(a, b V) *Expr {
	if strLen(a) != strLen(b) {
		return eFalse
	}
	if !strSym(a) && !strSym(b) {
		return eBool(a.p == nil || a.p.(*Str).s == b.p.(*Str).s)
	}
	r := eTrue
	n := strLen(a)
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		r = eAnd(r, eEq(exprOf(x, 8), exprOf(y, 8)))
		if r == eFalse {
			return r
		}
	}
	return r
}

func showStr(v V) string {
	if s, ok := strConc(v); ok {
		return s
	}
	var b strings.Builder
	for _, c := range strCells(v) {
		if c.p != nil {
			fmt.Fprintf(&b, "<e%d>", c.p.(*Expr).id)
		} else {
			b.WriteByte(byte(c.n))
		}
	}
	return b.String()
}

// zero returns the zero value of a type.
func zeroV(ti *TypeInfo) V {
	if !ti.agg {
		return V{}
	}
	return V{p: &Agg{s: make([]V, ti.slots)}}
}

// tupleZero is used for multi-value results.
func tupleV(vs ...V) V { return V{p: &Agg{s: vs}} }

// elemOf gives the element type of a pointer, slice, array or map.
func elemOf(ti *TypeInfo) *TypeInfo {
	if ti.elem != nil {
		return ti.elem
	}
	tiMu.Lock()
	defer tiMu.Unlock()
	if ti.elemP != nil {
		return ti.elemP
	}
	switch u := ti.u.(type) {
	case *types.Pointer:
		ti.elemP = typeInfoL(u.Elem())
	case *types.Map:
		ti.elemP = typeInfoL(u.Elem())
		ti.key = typeInfoL(u.Key())
	case *types.Chan:
		ti.elemP = typeInfoL(u.Elem())
	}
	return ti.elemP
}

func keyOf(ti *TypeInfo) *TypeInfo {
	elemOf(ti)
	return ti.key
}
