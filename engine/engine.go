package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/yoheimuta/go-protoparser/v4"
const harnessMod = "verifharness"

// Engine holds what all workers share.
type Engine struct {
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package
	solverArgv []string

	fnMu  sync.Mutex
	fns   map[*ssa.Function]*Fn
	notes []*Fn

	pureMu        sync.Mutex
	storedGlobals map[*ssa.Global]bool

	methMu sync.Mutex
	meths  map[methKey]*Fn
	impls  map[[2]int32]bool

	globMu sync.Mutex
	globs  map[*ssa.Global]int

	tiRuntimeErr *TypeInfo
	tiFmtError   *TypeInfo
	tiWrapError  *TypeInfo
	harnessDir   string
}

type methKey struct {
	ti   int32
	name string
	pkg  *types.Package
}

func loadEngine(dir string, patterns ...string) *Engine {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off")}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		fatalf("load: %v", err)
	}
	bad := false
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, repoMod) || strings.HasPrefix(p.PkgPath, harnessMod) {
				fmt.Fprintln(os.Stderr, e)
				bad = true
			}
		}
	})
	if bad {
		fatalf("the code does not compile")
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, fns: map[*ssa.Function]*Fn{}, storedGlobals: map[*ssa.Global]bool{},
		meths: map[methKey]*Fn{}, impls: map[[2]int32]bool{}, globs: map[*ssa.Global]int{}, solverArgv: []string{"z3-new", "-in"}}
	if s := os.Getenv("VERIF_SOLVER"); s != "" {
		e.solverArgv = strings.Fields(s)
	}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	e.tiRuntimeErr = typeInfo(e.pkgs[harnessMod+"/sym"].Type("RuntimeError").Type())
	e.tiFmtError = typeInfo(e.pkgs[harnessMod+"/sym"].Type("FmtError").Type())
	e.tiWrapError = typeInfo(e.pkgs[harnessMod+"/sym"].Type("WrapError").Type())
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || f.Name() == "init" || !e.ownPkg(f.Pkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				// any use of a global's address other than a plain load may write it
				if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "*" {
					continue
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						e.storedGlobals[g] = true
					}
				}
			}
		}
	}
	return e
}

func (e *Engine) ownPkg(p *ssa.Package) bool {
	if p == nil {
		return false
	}
	return isOwn(p.Pkg.Path())
}

func isOwn(path string) bool {
	return strings.HasPrefix(path, repoMod) || path == harnessMod || strings.HasPrefix(path, harnessMod+"/")
}

func (e *Engine) globalIdx(g *ssa.Global) int {
	e.globMu.Lock()
	defer e.globMu.Unlock()
	i, ok := e.globs[g]
	if !ok {
		i = len(e.globs)
		e.globs[g] = i
	}
	return i
}

func (e *Engine) noteFn(f *Fn) {
	e.fnMu.Lock()
	e.notes = append(e.notes, f)
	e.fnMu.Unlock()
}

var initPkgs = map[string]bool{
	"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "strings": true, "bytes": true, "bufio": true, "io": true,
	"errors": false, "strconv": true, "sort": true, "slices": true, "maps": true, "math": true, "math/bits": true, "cmp": true,
	"iter": true, "path": true, "path/filepath": false, "container/list": true, "container/ring": true, "container/heap": true,
	"internal/stringslite": true, "internal/bytealg": true, "text/scanner": true,
}

func (e *Engine) fn(f *ssa.Function) *Fn {
	e.fnMu.Lock()
	defer e.fnMu.Unlock()
	if x, ok := e.fns[f]; ok {
		return x
	}
	x := &Fn{ssa: f, name: f.String()}
	pk := f.Pkg
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	path := ""
	if pk != nil {
		path = pk.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	x.repo = strings.HasPrefix(path, repoMod)
	x.harness = path == harnessMod || strings.HasPrefix(path, harnessMod+"/")
	x.std = !x.repo && !x.harness
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		x.resTI = append(x.resTI, typeInfo(res.At(i).Type()))
	}
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if pre, ok := preIntr[name]; ok {
		raw := &Fn{ssa: f, name: name, std: x.std, resTI: x.resTI}
		x.intr = func(m *M, a []V) V {
			if v, ok := pre(m, a); ok {
				return v
			}
			return m.call(raw, a, nil)
		}
	} else if in, ok := intrinsics[name]; ok {
		x.intr = in
	} else if f.Name() == "init" && f.Pkg != nil && f.Synthetic == "package initializer" && !isOwn(path) && !initPkgs[path] {
		x.intr = func(m *M, a []V) V { return V{} }
	} else if x.std {
		switch path {
		case "log":
			zero := x
			x.intr = func(m *M, a []V) V { return zero.zeroRes() }
		}
	}
	e.fns[f] = x
	return x
}

func (e *Engine) lookupMethod(ti *TypeInfo, meth *types.Func) *Fn {
	k := methKey{ti: ti.id, name: meth.Name()}
	if !meth.Exported() {
		k.pkg = meth.Pkg()
	}
	e.methMu.Lock()
	defer e.methMu.Unlock()
	if f, ok := e.meths[k]; ok {
		return f
	}
	sf := e.prog.LookupMethod(ti.t, meth.Pkg(), meth.Name())
	if sf == nil {
		unsup("no method %s on %s", meth.Name(), ti.t)
	}
	f := e.fn(sf)
	e.meths[k] = f
	return f
}

// methodByName finds an exported method, or nil.
func (e *Engine) methodByName(ti *TypeInfo, name string) *Fn {
	ms := e.prog.MethodSets.MethodSet(ti.t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f := e.prog.MethodValue(sel)
	if f == nil {
		return nil
	}
	return e.fn(f)
}

func (e *Engine) implements(t, iface *TypeInfo) bool {
	k := [2]int32{t.id, iface.id}
	e.methMu.Lock()
	defer e.methMu.Unlock()
	if b, ok := e.impls[k]; ok {
		return b
	}
	b := types.Implements(t.t, iface.u.(*types.Interface))
	e.impls[k] = b
	return b
}

// initMachine runs the package initialisers.
func (m *M) initMachine() {
	m.initing = true
	m.cs = &CState{}
	m.pushAlt = func(*work) { panic("fork during initialisation") }
	var paths []string
	for p := range initPkgs {
		if initPkgs[p] && m.eng.pkgs[p] != nil {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	m.initStd = true
	for _, p := range paths {
		m.call(m.eng.fn(m.eng.pkgs[p].Func("init")), nil, nil)
	}
	m.initStd = false
	var own []string
	for p := range m.eng.pkgs {
		if isOwn(p) {
			own = append(own, p)
		}
	}
	sort.Strings(own)
	for _, p := range own {
		m.call(m.eng.fn(m.eng.pkgs[p].Func("init")), nil, nil)
	}
	m.initing = false
	m.baseID = m.nextID
	m.inited = true
}

func (e *Engine) encodedFns() (repo, std []string) {
	e.fnMu.Lock()
	defer e.fnMu.Unlock()
	for _, f := range e.notes {
		if f.ssa == nil || f.ssa.Synthetic != "" {
			continue
		}
		n := strings.ReplaceAll(f.name, repoMod, "")
		switch {
		case f.repo:
			repo = append(repo, n)
		case f.std:
			std = append(std, n)
		}
	}
	sort.Strings(repo)
	sort.Strings(std)
	return
}

func verifRoot() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(d, "harness", "go.mod")); err == nil {
			return d
		}
	}
	return "/verif"
}
