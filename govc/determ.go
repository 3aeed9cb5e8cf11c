package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// deterministic reports why the result of fn may depend on something other
// than its arguments ("" if it cannot): reads of variables that change after
// initialisation, iteration over a map, concurrency, or calls of functions that
// are not known to be deterministic.
func (w *World) deterministic(fn *ssa.Function) string {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) string
	visit = func(f *ssa.Function) string {
		if seen[f] {
			return ""
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				at := " at " + w.pos(in.Pos())
				switch in := in.(type) {
				case *ssa.UnOp:
					if g, ok := in.X.(*ssa.Global); ok && in.Op == token.MUL && !w.fixedGlobal(g) {
						return "reads variable " + g.Name() + at
					}
					if in.Op == token.ARROW {
						return "receives from a channel" + at
					}
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok {
						return "writes variable " + g.Name() + at
					}
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						return "iterates over a map" + at
					}
				case *ssa.Go, *ssa.Select, *ssa.Send:
					return "concurrency" + at
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if c.Common().IsInvoke() {
					return "calls method " + c.Common().Method.Name() + " of an interface" + at
				}
				switch v := c.Common().Value.(type) {
				case *ssa.Builtin:
				case *ssa.MakeClosure:
					if why := visit(v.Fn.(*ssa.Function)); why != "" {
						return why
					}
				case *ssa.Function:
					if v.Blocks != nil && w.inRepo(v) {
						if why := visit(v); why != "" {
							return why
						}
					} else if !determExtern(v) {
						return "calls " + v.String() + at
					}
				default:
					return "calls a function value" + at
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if why := visit(a); why != "" {
				return why
			}
		}
		return ""
	}
	return visit(fn)
}

// fixedGlobal reports whether g is only written by initialisation.
func (w *World) fixedGlobal(g *ssa.Global) bool {
	for _, f := range w.everyFunc() {
		if f.Synthetic == "package initializer" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					return false
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op == ssa.Value(g) {
						switch u := in.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							_ = u
						default:
							return false // address taken
						}
					}
				}
			}
		}
	}
	return true
}

func determExtern(f *ssa.Function) bool {
	p := ""
	if f.Pkg != nil {
		p = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		p = o.Pkg().Path()
	}
	switch p {
	case "strings", "bytes", "strconv", "unicode", "unicode/utf8", "sort", "errors", "path", "math", "slices", "math/bits", "crypto/sha256", "encoding/hex":
		return true
	case "fmt":
		return strings.HasPrefix(f.Name(), "Sprint") || f.Name() == "Errorf"
	case "path/filepath":
		switch f.Name() {
		case "ToSlash", "Base", "Dir", "Ext", "Join", "Clean":
			return true
		}
	}
	return false
}

func (w *World) everyFunc() []*ssa.Function {
	var out []*ssa.Function
	for _, n := range sortedKeys(w.funcs) {
		out = append(out, w.funcs[n])
	}
	return out
}
