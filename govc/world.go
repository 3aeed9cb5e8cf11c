package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program, shared read-only between verification tasks.
type World struct {
	fset     *token.FileSet
	pkgs     []*packages.Package
	prog     *ssa.Program
	funcs    map[string]*ssa.Function
	mu       sync.Mutex
	cfgs     map[*ssa.Function]*cfgInfo
	tags     map[string]int
	tagTypes map[int]types.Type
	globals  map[string]int
	rec      map[*ssa.Function]bool
	maxSteps int
	dir      string
}

func LoadWorld(dir string) (*World, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off")
	for i, e := range env {
		if strings.HasPrefix(e, "PATH=") {
			env[i] = "PATH=/opt/veriftools/go1.24.13/bin:" + strings.TrimPrefix(e, "PATH=")
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax &^ packages.NeedDeps, Dir: dir, Env: env, BuildFlags: []string{"-tags=fts5"}}
	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile
	pkgs, err := packages.Load(cfg, "./ddl", "./internal/pqarray")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	w := &World{pkgs: pkgs, fset: pkgs[0].Fset, cfgs: map[*ssa.Function]*cfgInfo{}, rec: map[*ssa.Function]bool{}, tags: map[string]int{}, tagTypes: map[int]types.Type{}, globals: map[string]int{}, funcs: map[string]*ssa.Function{}, maxSteps: 400000, dir: dir}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	w.prog = prog
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil || !w.inRepo(fn) {
			continue
		}
		w.funcs[short(fn.String())] = fn
	}
	return w, nil
}

func (w *World) inRepo(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Parent() != nil {
		p = fn.Parent().Pkg
	}
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		// wrappers
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), repoPrefix)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path()+"/", repoPrefix)
}

func (w *World) cfg(fn *ssa.Function) *cfgInfo {
	w.mu.Lock()
	defer w.mu.Unlock()
	if c, ok := w.cfgs[fn]; ok {
		return c
	}
	c := analyseCFG(fn)
	w.cfgs[fn] = c
	return c
}

func (w *World) tag(t types.Type) int {
	k := types.TypeString(t, nil)
	w.mu.Lock()
	defer w.mu.Unlock()
	if n, ok := w.tags[k]; ok {
		return n
	}
	n := len(w.tags) + 10
	w.tags[k] = n
	w.tagTypes[n] = t
	return n
}

func (w *World) tagByName(s string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	for k, n := range w.tags {
		if k == s || short(k) == s {
			return n
		}
	}
	n := len(w.tags) + 10
	full := s
	if i := strings.Index(s, "ddl."); i >= 0 && !strings.Contains(s, repoPrefix) {
		full = s[:i] + repoPrefix + s[i:]
	}
	w.tags[full] = n
	return n
}

func (w *World) typeOfTag(t *Term) types.Type {
	n, ok := t.isInt()
	if !ok {
		return nil
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.tagTypes[int(n)]
}

func (w *World) method(t types.Type, m *types.Func) *ssa.Function {
	w.mu.Lock()
	defer w.mu.Unlock()
	sel := w.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

func (w *World) globalNum(name string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if n, ok := w.globals[name]; ok {
		return n
	}
	n := len(w.globals)
	w.globals[name] = n
	return n
}

func (w *World) bufferPtr() types.Type {
	for _, p := range w.prog.AllPackages() {
		if p.Pkg.Path() == "bytes" {
			return types.NewPointer(p.Pkg.Scope().Lookup("Buffer").Type())
		}
	}
	panic("no bytes package")
}

func (w *World) lookupConst(name string) *types.Const {
	for _, p := range w.pkgs {
		if o := p.Types.Scope().Lookup(name); o != nil {
			if c, ok := o.(*types.Const); ok {
				return c
			}
		}
	}
	return nil
}

func (x *Exec) constOf(c *types.Const) Val {
	switch c.Val().Kind() {
	case constant.String:
		return x.b.Str(constant.StringVal(c.Val()))
	case constant.Bool:
		return x.b.Bool(constant.BoolVal(c.Val()))
	case constant.Int:
		return x.b.BigInt(c.Val().ExactString())
	}
	return x.b.Fresh("const", "Int")
}

// qualified resolves pkg.Name in specs (external error values such as io.EOF).
func (w *World) qualified(x *Exec, pkg, name string) (Val, types.Type, bool) {
	for _, p := range w.prog.AllPackages() {
		if p.Pkg.Name() == pkg {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				t := deref(g.Type())
				s := x.b.Sym("ext:"+short(g.String()), leafSort(t))
				if s.sort == "Iface" {
					b := x.b
					x.factOnce(b.And(b.Eq(b.ITag(s), b.Int(1)), b.Eq(b.IVal(s), b.Int(int64(x.w.globalNum(g.String())+1000000)))))
				}
				return s, t, true
			}
		}
	}
	return nil, nil, false
}

func errFunc(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() > 0 && isError(r.At(r.Len()-1).Type())
}

// recursive reports whether fn can call itself.
func (w *World) recursive(fn *ssa.Function) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	if v, ok := w.rec[fn]; ok {
		return v
	}
	seen := map[*ssa.Function]bool{}
	found := false
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if g == fn {
						found = true
						return
					}
					if !seen[g] && w.inRepo(g) {
						seen[g] = true
						visit(g)
					}
				}
			}
		}
	}
	visit(fn)
	w.rec[fn] = found
	return found
}

// returnsFunc: the result carries behaviour, so calls are executed in place.
func returnsFunc(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if _, ok := r.At(i).Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// contractFor returns the contract for calls of fn under spec: a specific one
// or one generated from a schema.
func (w *World) contractFor(sp *Spec, fn *ssa.Function) *Contract {
	name := short(fn.String())
	if matchAny(sp.Inline, name) {
		return nil
	}
	ct := sp.Funcs[name]
	if fn.Parent() != nil {
		return nil // closures are executed in place
	}
	var sc []*Contract
	known := sp.Known == nil || sp.Known[name] || w.recursive(fn)
	if !matchAny(sp.Skip, name) && fn.Synthetic == "" && known && (ct == nil || !ct.NoSchema) {
		for _, s := range sp.Schemas {
			switch s.Kind {
			case "errfunc":
				if errFunc(fn) && !returnsFunc(fn) {
					sc = append(sc, s.C)
				}
			case "other":
				if !errFunc(fn) && !returnsFunc(fn) {
					sc = append(sc, s.C)
				}
			case "loopfunc":
				// other functions with loops
				if !errFunc(fn) && len(w.cfg(fn).back) > 0 {
					sc = append(sc, s.C)
				}
			case "all":
				sc = append(sc, s.C)
			}
		}
	}
	if ct == nil && len(sc) == 0 {
		return nil
	}
	if ct != nil && len(ct.Ensures) == 0 && len(ct.Requires) == 0 && len(sc) == 0 {
		return nil // only loop invariants: inlined
	}
	m := &Contract{Name: name}
	if ct != nil {
		m.Ghost = ct.Ghost
		m.Defs, m.LocalDefs = ct.Defs, ct.LocalDefs
		m.Requires = append(m.Requires, ct.Requires...)
		m.Ensures = append(m.Ensures, ct.Ensures...)
	}
	for _, s := range sc {
		m.Requires = append(m.Requires, s.Requires...)
		m.Ensures = append(m.Ensures, s.Ensures...)
	}
	return m
}

// typeByName finds a named type or a pointer to one, e.g. *database/sql.Tx.
func (w *World) typeByName(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		if t := w.typeByName(s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	i := strings.LastIndexByte(s, '.')
	if i < 0 {
		if o, ok := types.Universe.Lookup(s).(*types.TypeName); ok {
			return o.Type()
		}
		return nil
	}
	for _, p := range w.prog.AllPackages() {
		if short(p.Pkg.Path()) == s[:i] || p.Pkg.Path() == s[:i] {
			if o := p.Pkg.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}
