// Package sym is the harness side of the symbolic engine. The engine intercepts
// these functions; the bodies below run when a harness is compiled natively to
// replay an assignment found by the solver.
package sym

import "fmt"

// RuntimeError is the type of run-time panics inside the engine.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }

// FmtError and WrapError are what fmt.Errorf yields inside the engine.
type FmtError struct{ S string }

func (e *FmtError) Error() string { return e.S }

type WrapError struct {
	S string
	E error
}

func (e *WrapError) Error() string { return e.S }
func (e *WrapError) Unwrap() error { return e.E }

// Run is the state of one native execution.
type Run struct {
	Asg     map[string]uint64
	Params  map[string]int
	Obs     [][2]string
	Fails   []string
	Reached []string
	Input   [][2]string
	seen    map[string]int
}

// Cur is the current native execution.
var Cur *Run

// Stop ends a native run after a failed assertion or assumption.
type Stop struct{ Why string }

func uniq(n string) string {
	if Cur.seen == nil {
		Cur.seen = map[string]int{}
	}
	Cur.seen[n]++
	if k := Cur.seen[n]; k > 1 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

// Byte is an arbitrary byte of the set.
func Byte(name string, set string) byte {
	n := uniq(name)
	if v, ok := Cur.Asg[n]; ok {
		return byte(v)
	}
	return set[0]
}

// ByteRange is an arbitrary byte in lo..hi.
func ByteRange(name string, lo, hi byte) byte {
	n := uniq(name)
	if v, ok := Cur.Asg[n]; ok {
		return byte(v)
	}
	return lo
}

// Rune is an arbitrary rune in lo..hi, surrogates excluded.
func Rune(name string, lo, hi rune) rune {
	n := uniq(name)
	if v, ok := Cur.Asg[n]; ok {
		return rune(v)
	}
	return lo
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return Cur.Asg[uniq(name)] != 0 }

// Pick is an arbitrary number in 0..n-1, kept symbolic.
func Pick(name string, n int) int { return int(Cur.Asg[uniq(name)]) }

// Choice is an arbitrary number in 0..n-1; the engine forks on it.
func Choice(name string, n int) int { return int(Cur.Asg[uniq(name)]) }

// Slot is an arbitrary member of toks, padded with blanks to a common length.
func Slot(name string, toks []string) (int, string) {
	i := int(Cur.Asg[uniq(name)])
	w := 0
	for _, t := range toks {
		if len(t) > w {
			w = len(t)
		}
	}
	s := toks[i]
	for len(s) < w {
		s += " "
	}
	return i, s
}

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(Stop{"assume"})
	}
}

// Assert states a property.
func Assert(b bool, label string) {
	if !b {
		Cur.Fails = append(Cur.Fails, label)
		panic(Stop{"assert"})
	}
}

// Reach marks a point that must be reachable.
func Reach(label string) { Cur.Reached = append(Cur.Reached, label) }

// Observe records a value that the engine and the native run must agree on.
func Observe(label string, s string) { Cur.Obs = append(Cur.Obs, [2]string{label, s}) }

// ObserveInt is Observe for integers.
func ObserveInt(label string, n int) {
	Cur.Obs = append(Cur.Obs, [2]string{label, fmt.Sprint(n)})
}

// Param is a bound chosen by the tier.
func Param(name string, def int) int {
	if v, ok := Cur.Params[name]; ok {
		return v
	}
	return def
}

// Race makes Frozen run its function twice at once, for the race detector.
var Race bool

// Frozen runs f, during which nothing that exists before may be written.
func Frozen(label string, f func(keep bool)) {
	if !Race {
		f(true)
		return
	}
	done := make(chan bool)
	for i := 0; i < 2; i++ {
		keep := i == 0
		go func() {
			f(keep)
			done <- true
		}()
	}
	<-done
	<-done
}

// Native tells whether the harness runs natively.
func Native() bool { return true }

// Input shows an input in the report of a violation.
func Input(label, s string) { Cur.Input = append(Cur.Input, [2]string{label, s}) }
