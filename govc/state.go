package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const repoPrefix = "github.com/bokwoon95/sqddl/"

// Val is a symbolic value: *Term, *Tuple, *PtrVal or *FuncVal.
type Val interface{}

type Tuple struct{ elems []Val }

// PtrVal is an address: object base, element index, and a path inside the element.
type PtrVal struct {
	base, idx *Term
	root      types.Type // type of the element at (base, idx)
	path      string
	arr       bool // root is an array whose elements are the cells of the object
}

// FuncVal is a set of statically known function values with the conditions
// under which each is the value.
type FuncVal struct {
	alts    []FuncAlt
	unknown bool // may also be something else
}
type FuncAlt struct {
	cond *Term
	fn   *ssa.Function
	bind []Val
}

// State maps memory keys (and ghost variables "g:x") to terms.
type State struct {
	mem  map[string]*Term
	next *Term
}

func (s *State) clone() *State {
	m := make(map[string]*Term, len(s.mem))
	for k, v := range s.mem {
		m[k] = v
	}
	return &State{mem: m, next: s.next}
}

type Leaf struct {
	path string
	sort string
	typ  types.Type
}

type Types struct {
	leafCache map[types.Type][]Leaf
	tags      map[string]int
	tagTypes  []types.Type
}

func short(s string) string { return strings.ReplaceAll(s, repoPrefix, "") }

func typeKey(t types.Type) string { return short(types.TypeString(t, nil)) }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// special structs with an abstract content
func specialStruct(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	full := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	switch full {
	case "bytes.Buffer", "strings.Builder":
		return "Str"
	}
	if strings.HasPrefix(full, repoPrefix) {
		return ""
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Exported() {
			return ""
		}
	}
	return "Int"
}

const maxFlatArray = 8

func leafSort(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return "Flt"
		}
		if u.Kind() == types.UntypedNil {
			return "Ptr"
		}
		return "Int"
	case *types.Pointer:
		return "Ptr"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Tuple:
		return "?"
	}
	return "?"
}

func (ts *Types) flatten(t types.Type) []Leaf {
	if l, ok := ts.leafCache[t]; ok {
		return l
	}
	var out []Leaf
	if sp := specialStruct(t); sp != "" {
		out = []Leaf{{"$", sp, t}}
	} else {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				for _, l := range ts.flatten(u.Field(i).Type()) {
					out = append(out, Leaf{"." + u.Field(i).Name() + l.path, l.sort, l.typ})
				}
			}
			if u.NumFields() == 0 {
				out = nil
			}
		case *types.Array:
			if u.Len() <= maxFlatArray {
				for i := int64(0); i < u.Len(); i++ {
					for _, l := range ts.flatten(u.Elem()) {
						out = append(out, Leaf{fmt.Sprintf("[%d]%s", i, l.path), l.sort, l.typ})
					}
				}
			} else {
				out = []Leaf{{"$", "Int", t}}
			}
		default:
			out = []Leaf{{"", leafSort(t), t}}
		}
	}
	ts.leafCache[t] = out
	return out
}

func isOpaqueArr(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	return ok && a.Len() > maxFlatArray
}

// build assembles a value of type t from a function giving each leaf.
func (x *Exec) build(t types.Type, path string, leaf func(l Leaf) *Term) Val {
	if sp := specialStruct(t); sp != "" {
		return leaf(Leaf{path + "$", sp, t})
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		tu := &Tuple{}
		for i := 0; i < u.NumFields(); i++ {
			tu.elems = append(tu.elems, x.build(u.Field(i).Type(), path+"."+u.Field(i).Name(), leaf))
		}
		return tu
	case *types.Array:
		if u.Len() <= maxFlatArray {
			tu := &Tuple{}
			for i := int64(0); i < u.Len(); i++ {
				tu.elems = append(tu.elems, x.build(u.Elem(), fmt.Sprintf("%s[%d]", path, i), leaf))
			}
			return tu
		}
		return leaf(Leaf{path + "$", "Int", t})
	case *types.Tuple:
		tu := &Tuple{}
		for i := 0; i < u.Len(); i++ {
			tu.elems = append(tu.elems, x.build(u.At(i).Type(), fmt.Sprintf("%s#%d", path, i), leaf))
		}
		return tu
	}
	return leaf(Leaf{path, leafSort(t), t})
}

// leaves flattens a value of type t into its leaf terms, in flatten order.
func (x *Exec) leaves(v Val, t types.Type) []*Term {
	if specialStruct(t) != "" || isOpaqueArr(t) {
		return []*Term{x.term(v)}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		tu, ok := v.(*Tuple)
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			if !ok {
				out = append(out, x.leaves(x.freshVal("lost", u.Field(i).Type()), u.Field(i).Type())...)
				continue
			}
			out = append(out, x.leaves(tu.elems[i], u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		tu := v.(*Tuple)
		var out []*Term
		for i := range tu.elems {
			out = append(out, x.leaves(tu.elems[i], u.Elem())...)
		}
		return out
	}
	return []*Term{x.term(v)}
}

func (x *Exec) zero(sort string) *Term {
	b := x.b
	switch sort {
	case "Int":
		return b.Int(0)
	case "Bool":
		return b.False()
	case "Str":
		return b.Str("")
	case "Ptr":
		return b.MkPtr(b.Int(0), b.Int(0))
	case "Slice":
		return b.MkSlice(b.Int(0), b.Int(0), b.Int(0), b.Int(0))
	case "Iface":
		return b.MkIf(b.Int(0), b.Int(0))
	case "Flt":
		return b.App("flt0", "Flt")
	}
	panic("zero of " + sort)
}

func (x *Exec) zeroVal(t types.Type) Val {
	return x.build(t, "", func(l Leaf) *Term { return x.zero(l.sort) })
}

func (x *Exec) freshVal(hint string, t types.Type) Val {
	return x.build(t, "", func(l Leaf) *Term {
		s := x.b.Fresh(hint+l.path, l.sort)
		x.typeFact(s, l.typ, nil)
		return s
	})
}

// typeFact assumes what the Go type guarantees about a scalar.
func (x *Exec) typeFact(t *Term, typ types.Type, st *State) {
	b := x.b
	if t.bound {
		return
	}
	if bt, ok := typ.Underlying().(*types.Basic); ok && t.sort == "Int" && t.op != "int" {
		switch bt.Kind() {
		case types.Uint8:
			x.fact(b.And(b.Ge(t, b.Int(0)), b.Le(t, b.Int(255))))
		case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			x.fact(b.Ge(t, b.Int(0)))
		case types.Int32:
			x.fact(b.And(b.Ge(t, b.Int(-2147483648)), b.Le(t, b.Int(2147483647))))
		case types.Int, types.Int64:
			if x.opt.overflow {
				x.fact(b.And(b.Ge(t, b.BigInt("-9223372036854775808")), b.Le(t, b.BigInt("9223372036854775807"))))
			}
		}
	}
	if x.opt.overflow && t.sort == "Slice" && t.op != "app" {
		// no slice has more elements than there is memory
		x.fact(b.Le(b.SCap(t), b.BigInt("140737488355328")))
	}
	if st != nil {
		var base *Term
		switch t.sort {
		case "Ptr":
			base = b.PBase(t)
		case "Slice":
			base = b.SBase(t)
		case "Int":
			if _, ok := typ.Underlying().(*types.Map); ok {
				base = t
			}
		}
		if base != nil && base.op != "int" && !base.alloc {
			x.fact(b.Lt(base, st.next))
		}
	}
}

// term turns a scalar value into a term.
func (x *Exec) term(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *PtrVal:
		if v.path == "" || v.path == "$" {
			return x.b.MkPtr(v.base, v.idx)
		}
		p := x.b.MkPtr(x.b.App("interior:"+typeKey(v.root)+v.path, "Int", v.base, v.idx), x.b.Int(0))
		x.interior[p] = v
		return p
	case *FuncVal:
		if len(v.alts) == 1 && !v.unknown {
			return x.funcID(v.alts[0].fn)
		}
		return x.b.Fresh("fn", "Int")
	case *Tuple:
		// composite key
		var args []*Term
		var ss []string
		for _, e := range v.elems {
			t := x.term(e)
			args = append(args, t)
			ss = append(ss, t.sort)
		}
		if len(args) == 0 {
			return x.b.Int(0)
		}
		return x.b.mk("mktup", "", "Tup<"+strings.Join(ss, ",")+">", args...)
	case nil:
		return x.b.Fresh("undef", "Int")
	}
	panic(fmt.Sprintf("term of %T", v))
}

func (x *Exec) funcID(fn *ssa.Function) *Term {
	t := x.b.Sym("fn:"+short(fn.String()), "Int")
	x.factOnce(x.b.Gt(t, x.b.Int(0)))
	return t
}

// ptr views a pointer value of type *T as an address.
func (x *Exec) ptr(v Val, pt types.Type) *PtrVal {
	switch v := v.(type) {
	case *PtrVal:
		return v
	case *Term:
		if in, ok := x.interior[v]; ok {
			return in
		}
		root := deref(pt)
		return &PtrVal{base: x.b.PBase(v), idx: x.b.PIdx(v), root: root, arr: isOpaqueArr(root)}
	}
	panic(fmt.Sprintf("ptr of %T", v))
}

func memSort(leaf string) string { return ArrSort("Int", ArrSort("Int", leaf)) }

func (x *Exec) getMem(st *State, key, sort string) *Term {
	if t, ok := st.mem[key]; ok {
		return t
	}
	t := x.initMem(key, sort)
	return t
}

func (x *Exec) initMem(key, sort string) *Term {
	k := x.initPrefix + key
	if t, ok := x.init0[k]; ok {
		if t.sort != sort {
			panic("sort clash for " + k + ": " + t.sort + " vs " + sort)
		}
		return t
	}
	t := x.b.mk("sym", clean("M0:"+k), sort)
	x.init0[k] = t
	x.keySort[key] = sort
	return t
}

func (x *Exec) setMem(st *State, key string, t *Term) {
	x.keySort[key] = t.sort
	st.mem[key] = t
}

// writeBase updates the cells of one object under a key.
func (x *Exec) writeBase(st *State, key, sort string, base, inner *Term) {
	m := x.getMem(st, key, sort)
	x.logWrite(st, key, base)
	x.setMem(st, key, x.b.Store(m, base, inner))
}

func (x *Exec) writeGhost(st *State, key string, t *Term) {
	x.logWrite(st, key, nil)
	x.setMem(st, key, t)
}

func (x *Exec) readCell(st *State, key, sort string, base, idx *Term) *Term {
	m := x.getMem(st, key, memSort(sort))
	return x.b.Select(x.b.Select(m, base), idx)
}

func (x *Exec) writeCell(st *State, key, sort string, base, idx, v *Term) {
	ms := memSort(sort)
	m := x.getMem(st, key, ms)
	inner := x.b.Select(m, base)
	x.writeBase(st, key, ms, base, x.b.Store(inner, idx, v))
}

// load reads a value of type t at address p.
func (x *Exec) load(st *State, p *PtrVal, t types.Type) Val {
	if p.arr {
		a := p.root.Underlying().(*types.Array)
		if a.Len() > maxFlatArray {
			return x.b.App("arrval", "Int", p.base, x.b.Fresh("t", "Int"))
		}
		tu := &Tuple{}
		for i := int64(0); i < a.Len(); i++ {
			tu.elems = append(tu.elems, x.load(st, &PtrVal{base: p.base, idx: x.b.Int(i), root: a.Elem()}, a.Elem()))
		}
		return tu
	}
	rk := typeKey(p.root)
	return x.build(t, p.path, func(l Leaf) *Term {
		r := x.readCell(st, rk+l.path, l.sort, p.base, p.idx)
		x.typeFact(r, l.typ, st)
		return r
	})
}

// store writes a value of type t at address p.
func (x *Exec) store(st *State, p *PtrVal, t types.Type, v Val) {
	if p.arr {
		a := p.root.Underlying().(*types.Array)
		tu, ok := v.(*Tuple)
		if !ok {
			return
		}
		for i := int64(0); i < a.Len(); i++ {
			x.store(st, &PtrVal{base: p.base, idx: x.b.Int(i), root: a.Elem()}, a.Elem(), tu.elems[i])
		}
		return
	}
	rk := typeKey(p.root)
	if fv, ok := v.(*FuncVal); ok {
		// remember statically known functions stored in memory
		id := x.b.Fresh("fnv", "Int")
		x.fact(x.b.Gt(id, x.b.Int(0)))
		x.funcs[id] = fv
		v = id
	}
	ls := x.ts.flatten(t)
	vs := x.leaves(v, t)
	if len(ls) != len(vs) {
		panic(fmt.Sprintf("store arity %s: %d vs %d", t, len(ls), len(vs)))
	}
	for i, l := range ls {
		x.writeCell(st, rk+p.path+l.path, l.sort, p.base, p.idx, vs[i])
	}
}

func (x *Exec) newObj(st *State, hint string) *Term {
	o := x.b.Fresh("obj_"+hint, "Int")
	o.alloc = true
	x.fact(x.b.Ge(o, st.next))
	st.next = x.b.Add(o, x.b.Int(1))
	return o
}

func (x *Exec) zeroObj(st *State, base *Term, t types.Type) {
	for _, l := range x.ts.flatten(t) {
		x.writeBase(st, typeKey(t)+l.path, memSort(l.sort), base, x.b.ConstArr(ArrSort("Int", l.sort), x.zero(l.sort)))
	}
}

// mergeVal chooses between two values.
func (x *Exec) mergeVal(c *Term, a, b Val) Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	switch av := a.(type) {
	case *Term:
		if bt, ok := b.(*Term); ok {
			return x.b.Ite(c, av, bt)
		}
		if fb, ok := b.(*FuncVal); ok {
			fa := x.asFunc(av)
			return x.mergeFunc(c, fa, fb)
		}
		return x.b.Ite(c, av, x.term(b))
	case *Tuple:
		bv := b.(*Tuple)
		r := &Tuple{}
		for i := range av.elems {
			r.elems = append(r.elems, x.mergeVal(c, av.elems[i], bv.elems[i]))
		}
		return r
	case *PtrVal:
		if bv, ok := b.(*PtrVal); ok && bv.path == av.path && bv.arr == av.arr && types.Identical(av.root, bv.root) {
			return &PtrVal{base: x.b.Ite(c, av.base, bv.base), idx: x.b.Ite(c, av.idx, bv.idx), root: av.root, path: av.path, arr: av.arr}
		}
		return x.b.Ite(c, x.term(a), x.term(b))
	case *FuncVal:
		return x.mergeFunc(c, av, x.asFunc(b))
	}
	panic(fmt.Sprintf("merge %T", a))
}

func (x *Exec) asFunc(v Val) *FuncVal {
	switch v := v.(type) {
	case *FuncVal:
		return v
	case *Term:
		if f, ok := x.funcs[v]; ok {
			return f
		}
		if v.op == "int" {
			return &FuncVal{} // nil func
		}
		if v.op == "ite" {
			return x.mergeFunc(v.args[0], x.asFunc(v.args[1]), x.asFunc(v.args[2]))
		}
	}
	return &FuncVal{unknown: true}
}

func (x *Exec) mergeFunc(c *Term, a, b *FuncVal) *FuncVal {
	r := &FuncVal{unknown: a.unknown || b.unknown}
	for _, t := range a.alts {
		r.alts = append(r.alts, FuncAlt{x.b.And(c, t.cond), t.fn, t.bind})
	}
	for _, t := range b.alts {
		r.alts = append(r.alts, FuncAlt{x.b.And(x.b.Not(c), t.cond), t.fn, t.bind})
	}
	return r
}

func (x *Exec) mergeState(c *Term, a, b *State) *State {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	r := &State{mem: make(map[string]*Term, len(a.mem)), next: x.b.Ite(c, a.next, b.next)}
	for k, v := range a.mem {
		w, ok := b.mem[k]
		if !ok {
			w = x.initMem(k, v.sort)
		}
		r.mem[k] = x.mergeMem(c, v, w)
	}
	for k, w := range b.mem {
		if _, ok := a.mem[k]; !ok {
			r.mem[k] = x.mergeMem(c, x.initMem(k, w.sort), w)
		}
	}
	return r
}

// mergeMem merges two memories; stores to objects allocated on only one side
// are kept unconditionally since the other side cannot observe them.
func (x *Exec) mergeMem(c *Term, a, b *Term) *Term {
	if a == b {
		return a
	}
	// strip common prefix: if one is a chain of stores on top of the other
	if r := x.mergeChain(c, a, b); r != nil {
		return r
	}
	return x.b.Ite(c, a, b)
}

func (x *Exec) mergeChain(c *Term, a, b *Term) *Term {
	if !strings.HasPrefix(a.sort, "(Array") {
		return nil
	}
	// collect store chains
	chain := func(t *Term) []*Term {
		var out []*Term
		for t.op == "store" && len(out) < 64 {
			out = append(out, t)
			t = t.args[0]
		}
		return append(out, t)
	}
	ca, cb := chain(a), chain(b)
	pos := map[*Term]int{}
	for i, t := range ca {
		pos[t] = i
	}
	for j, t := range cb {
		if i, ok := pos[t]; ok {
			// common ancestor t
			idxs := []*Term{}
			seen := map[*Term]bool{}
			for k := i - 1; k >= 0; k-- {
				if ix := ca[k].args[1]; !seen[ix] {
					seen[ix] = true
					idxs = append(idxs, ix)
				}
			}
			for k := j - 1; k >= 0; k-- {
				if ix := cb[k].args[1]; !seen[ix] {
					seen[ix] = true
					idxs = append(idxs, ix)
				}
			}
			if len(idxs) > 1 {
				for p := range idxs {
					for q := p + 1; q < len(idxs); q++ {
						if !x.b.distinctTerms(idxs[p], idxs[q]) {
							return nil
						}
					}
				}
			}
			r := t
			for _, ix := range idxs {
				va, vb := x.b.Select(a, ix), x.b.Select(b, ix)
				r = x.b.Store(r, ix, x.mergeMem(c, va, vb))
			}
			return r
		}
	}
	return nil
}
