package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Summary describes what a function may write, in terms of its parameters.
type Summary struct {
	fn     *ssa.Function
	params []Val
	prefix string
	writes map[string]map[*Term]bool // bases over parameters; nil entry = anything
	mark   int
	busy   bool
	rec    bool
	next0  *Term
}

func (x *Exec) doCall(fr *Frame, in ssa.CallInstruction, c *ssa.CallCommon, g *Term, stp **State) (Val, *Term) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	var recv Val
	var fv *FuncVal
	if c.IsInvoke() {
		recv = x.val(fr, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		if f := c.StaticCallee(); f != nil && len(f.FreeVars) == 0 {
			fv = &FuncVal{alts: []FuncAlt{{x.b.True(), f, nil}}}
		} else {
			fv = x.asFunc(x.val(fr, c.Value))
		}
	}
	return x.callResolved(fr, in, c, args, fv, recv, g, stp)
}

func (x *Exec) callResolved(fr *Frame, in ssa.CallInstruction, c *ssa.CallCommon, args []Val, fv *FuncVal, recv Val, g *Term, stp **State) (Val, *Term) {
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, in, bi, args, g, stp)
	}
	if c.IsInvoke() {
		return x.invoke(fr, in, c, recv, args, g, stp)
	}
	if fv == nil || (len(fv.alts) == 0) {
		return x.dynCall(fr, in, c, args, g, stp)
	}
	if len(fv.alts) == 1 && !fv.unknown {
		return x.callFn(fr, in, fv.alts[0].fn, args, fv.alts[0].bind, g, stp)
	}
	// several possible functions
	var res Val
	st0 := *stp
	var acc *State
	rest := x.b.True()
	ng := x.b.False()
	any := false
	for _, a := range fv.alts {
		ag := x.b.And(g, a.cond)
		if ag.isFalse() {
			continue
		}
		s2 := st0.clone()
		x.curGuard = ag
		v, g2 := x.callFn(fr, in, a.fn, args, a.bind, ag, &s2)
		if g2 == nil {
			g2 = ag
		}
		if !any {
			res, acc = v, s2
			any = true
		} else {
			res = x.mergeVal(a.cond, v, res)
			acc = x.mergeState(a.cond, s2, acc)
		}
		ng = x.b.Or(ng, g2)
		rest = x.b.And(rest, x.b.Not(a.cond))
	}
	if fv.unknown || !any {
		s2 := st0.clone()
		x.curGuard = x.b.And(g, rest)
		v, _ := x.dynCall(fr, in, c, args, x.b.And(g, rest), &s2)
		if !any {
			res, acc = v, s2
		} else {
			res = x.mergeVal(rest, v, res)
			acc = x.mergeState(rest, s2, acc)
		}
		ng = x.b.Or(ng, x.b.And(g, rest))
	}
	x.curGuard = g
	*stp = acc
	return res, ng
}

// dynCall is a call of an unknown function value; it is modelled by the
// contract "dyn:<field or variable name>" if there is one.
func (x *Exec) dynCall(fr *Frame, in ssa.CallInstruction, c *ssa.CallCommon, args []Val, g *Term, stp **State) (Val, *Term) {
	name := "dyn:"
	v := c.Value
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			name += deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
		} else if gl, ok := u.X.(*ssa.Global); ok {
			name += gl.Name()
		}
	} else if f, ok := v.(*ssa.Field); ok {
		name += f.X.Type().Underlying().(*types.Struct).Field(f.Field).Name()
	} else if p, ok := v.(*ssa.Parameter); ok {
		name += p.Name()
	}
	return x.extern(fr, in, name, c.Signature(), nil, args, g, stp)
}

func (x *Exec) invoke(fr *Frame, in ssa.CallInstruction, c *ssa.CallCommon, recv Val, args []Val, g *Term, stp **State) (Val, *Term) {
	it := x.term(recv)
	if x.opt.safety && !x.opt.nonil {
		nn := x.b.Not(x.b.Eq(x.b.ITag(it), x.b.Int(0)))
		x.oblige("nil-interface-call", in.Pos(), g, nn)
	}
	// statically known repo type?
	if tg := x.b.ITag(it); tg.op == "int" {
		if t := x.w.typeOfTag(tg); t != nil {
			if fn := x.w.method(t, c.Method); fn != nil && fn.Blocks != nil && x.w.inRepo(fn) {
				rv := x.unbox(x.b.IVal(it), t)
				return x.callFn(fr, in, fn, append([]Val{rv}, args...), nil, g, stp)
			}
		}
	}
	name := "(" + short(types.TypeString(c.Value.Type(), nil)) + ")." + c.Method.Name()
	return x.extern(fr, in, name, c.Method.Type().(*types.Signature), recv, args, g, stp)
}

func (x *Exec) onStack(fn *ssa.Function) bool {
	for _, f := range x.stack {
		if f == fn {
			return true
		}
	}
	return false
}

func matchAny(pats []string, name string) bool {
	for _, p := range pats {
		if p == name {
			return true
		}
		if strings.ContainsAny(p, "*?") && !strings.HasPrefix(p, "(*") {
			if ok, _ := path.Match(p, name); ok {
				return true
			}
		}
		if strings.HasSuffix(p, "...") && strings.HasPrefix(name, strings.TrimSuffix(p, "...")) {
			return true
		}
	}
	return false
}

// contractFor returns the contract governing calls of fn, or nil.
func (x *Exec) contractFor(fn *ssa.Function) *Contract {
	return x.w.contractFor(x.spec, fn)
}

func (x *Exec) callFn(fr *Frame, in ssa.CallInstruction, fn *ssa.Function, args, bind []Val, g *Term, stp **State) (Val, *Term) {
	if fn.Origin() != nil && fn.Origin() != fn && fn.Blocks == nil {
		fn = fn.Origin()
	}
	name := short(fn.String())
	if _, ok := x.spec.Externs[name]; ok || fn.Blocks == nil || !x.w.inRepo(fn) || x.w.hasHook(x, name) {
		return x.extern(fr, in, name, fn.Signature, nil, args, g, stp)
	}
	if ct := x.contractFor(fn); ct != nil && len(x.stack) > 0 {
		return x.contractCall(fr, in, fn, ct, args, bind, g, stp)
	}
	if x.onStack(fn) {
		if s := x.summaries[fn]; s != nil && s.busy {
			s.rec = true
			return x.tupleOf(fn.Signature, name), nil
		}
		// recursion without contract: unknown effect
		x.warn["recursive call without contract: "+name]++
		return x.havocCall(fr, in, fn, args, bind, g, stp), nil
	}
	x.inlined[name]++
	id := fmt.Sprintf("%s>%s@%d", fr.id, name, x.instrNum(in))
	f2, res, st, ng := x.runFunc(fn, args, bind, *stp, g, id)
	_ = f2
	*stp = st
	if !x.b.Not(ng).isFalse() && ng == g {
		ng = nil
	}
	return x.pack(res, fn.Signature), ng
}

func (x *Exec) instrNum(in ssa.CallInstruction) int {
	b := in.Block()
	if b == nil {
		return 0
	}
	for i, k := range b.Instrs {
		if k == in.(ssa.Instruction) {
			return b.Index*1000 + i
		}
	}
	return b.Index * 1000
}

func (x *Exec) pack(res []Val, sig *types.Signature) Val {
	n := sig.Results().Len()
	for i := range res {
		if res[i] == nil {
			res[i] = x.freshVal("res", sig.Results().At(i).Type())
		}
	}
	if n == 1 {
		return res[0]
	}
	return &Tuple{res}
}

func (x *Exec) tupleOf(sig *types.Signature, hint string) Val {
	n := sig.Results().Len()
	if i := strings.LastIndexByte(hint, '.'); i >= 0 {
		hint = hint[i+1:]
	}
	if n == 1 {
		return x.freshVal("r_"+hint, sig.Results().At(0).Type())
	}
	tu := &Tuple{}
	for i := 0; i < n; i++ {
		tu.elems = append(tu.elems, x.freshVal("r_"+hint, sig.Results().At(i).Type()))
	}
	return tu
}

// summary computes (once) what fn may write.
func (x *Exec) summary(fn *ssa.Function, bind []Val) *Summary {
	if s, ok := x.summaries[fn]; ok {
		return s
	}
	s := &Summary{fn: fn, prefix: fmt.Sprintf("S%d:", len(x.summaries)), busy: true}
	x.summaries[fn] = s
	x.mute++
	saveLogs, saveLoops, savePrefix, saveStack, saveFn, saveG := x.logs, x.loops, x.initPrefix, x.stack, x.curFn, x.curGuard
	x.loops = nil
	x.initPrefix = s.prefix
	x.stack = []*ssa.Function{saveStack[0]}
	for _, p := range fn.Params {
		s.params = append(s.params, x.freshVal("sp_"+p.Name(), p.Type()))
	}
	var free []Val
	for _, f := range fn.FreeVars {
		free = append(free, x.freshVal("sf_"+f.Name(), f.Type()))
	}
	_ = bind
	for range [1]int{} {
		l := &wlog{keys: map[string]map[*Term]bool{}}
		x.logs = []*wlog{l}
		s.next0 = x.b.Fresh("snext", "Int")
		s.mark = x.b.nsym
		st := &State{mem: map[string]*Term{}, next: s.next0}
		x.runFunc(fn, s.params, free, st, x.b.True(), "sum:"+short(fn.String()))
		s.writes = map[string]map[*Term]bool{}
		for k, bs := range l.keys {
			if strings.HasPrefix(k, "g:iter:") {
				continue
			}
			out := map[*Term]bool{}
			for b := range bs {
				switch {
				case b == nil:
					out[nil] = true
				case b.alloc && b.maxSym > s.mark:
				case b.maxSym <= s.mark && len(fn.FreeVars) == 0:
					out[b] = true
				default:
					out[nil] = true
				}
			}
			if len(out) > 0 {
				s.writes[k] = out
			}
		}
	}
	if s.rec {
		for k := range s.writes {
			s.writes[k] = map[*Term]bool{nil: true}
		}
	}
	x.logs, x.loops, x.initPrefix, x.stack, x.curFn, x.curGuard = saveLogs, saveLoops, savePrefix, saveStack, saveFn, saveG
	x.mute--
	s.busy = false
	return s
}

// applyFrame havocs what the callee may write at this call site.
func (x *Exec) applyFrame(s *Summary, args []Val, st *State) {
	// substitution from summary symbols to call-site terms
	sub := map[*Term]*Term{}
	for i, p := range s.fn.Params {
		if i >= len(args) {
			break
		}
		x.bindSub(sub, s.params[i], args[i], p.Type())
	}
	sub[s.next0] = st.next
	pre := st.clone()
	memo := map[*Term]*Term{}
	keys := sortedKeys(s.writes)
	// evaluate all bases in the pre-state first
	type wr struct {
		key   string
		bases []*Term
		all   bool
	}
	var ws []wr
	for _, k := range keys {
		w := wr{key: k}
		for b := range s.writes[k] {
			if b == nil {
				w.all = true
				continue
			}
			t := x.subst(b, sub, s.prefix, pre, memo)
			if t == nil {
				w.all = true
				continue
			}
			w.bases = append(w.bases, t)
		}
		ws = append(ws, w)
	}
	nn := x.b.Fresh("next", "Int")
	x.fact(x.b.Ge(nn, pre.next))
	for _, w := range ws {
		srt := x.keySort[w.key]
		if srt == "" {
			continue
		}
		if strings.HasPrefix(w.key, "g:") {
			x.writeGhost(st, w.key, x.b.Fresh("G:"+w.key, srt))
			continue
		}
		if w.all {
			m := x.b.Fresh("C:"+w.key, srt)
			x.logWrite(st, w.key, x.b.Fresh("anybase", "Int"))
			x.setMem(st, w.key, m)
			continue
		}
		for _, b := range w.bases {
			x.writeBase(st, w.key, srt, b, x.b.Fresh("C:"+w.key, innerSort(srt)))
		}
	}
	st.next = nn
}

func (x *Exec) bindSub(sub map[*Term]*Term, formal, actual Val, t types.Type) {
	switch f := formal.(type) {
	case *Term:
		if f.op == "sym" {
			sub[f] = x.term(actual)
		}
	case *Tuple:
		if a, ok := actual.(*Tuple); ok {
			for i := range f.elems {
				x.bindSub(sub, f.elems[i], a.elems[i], nil)
			}
		}
	}
}

// subst rewrites a summary term to the call site; nil if it cannot.
func (x *Exec) subst(t *Term, sub map[*Term]*Term, prefix string, pre *State, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if r, ok := sub[t]; ok {
		return r
	}
	var r *Term
	switch {
	case t.op == "sym":
		for k, v := range x.init0 {
			if v == t && strings.HasPrefix(k, prefix) {
				r = x.getMem(pre, strings.TrimPrefix(k, prefix), t.sort)
			}
		}
		if r == nil && strings.HasPrefix(t.name, "ext:") {
			r = t
		}
	case len(t.args) == 0:
		r = t
	default:
		args := make([]*Term, len(t.args))
		ok := true
		for i, a := range t.args {
			args[i] = x.subst(a, sub, prefix, pre, memo)
			if args[i] == nil {
				ok = false
				break
			}
		}
		if ok {
			r = x.rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

func (x *Exec) rebuild(t *Term, a []*Term) *Term {
	b := x.b
	switch t.op {
	case "pbase":
		return b.PBase(a[0])
	case "pidx":
		return b.PIdx(a[0])
	case "sbase":
		return b.SBase(a[0])
	case "soff":
		return b.SOff(a[0])
	case "slen":
		return b.SLen(a[0])
	case "scap":
		return b.SCap(a[0])
	case "itag":
		return b.ITag(a[0])
	case "ival":
		return b.IVal(a[0])
	case "select":
		return b.Select(a[0], a[1])
	case "store":
		return b.Store(a[0], a[1], a[2])
	case "ite":
		return b.Ite(a[0], a[1], a[2])
	case "+":
		return b.Add(a[0], a[1])
	case "=":
		return b.Eq(a[0], a[1])
	case "and":
		return b.And(a...)
	case "or":
		return b.Or(a...)
	case "not":
		return b.Not(a[0])
	}
	return b.mk(t.op, t.name, t.sort, a...)
}

func (x *Exec) havocCall(fr *Frame, in ssa.CallInstruction, fn *ssa.Function, args, bind []Val, g *Term, stp **State) Val {
	st := *stp
	s := x.summary(fn, bind)
	if !s.busy {
		x.applyFrame(s, args, st)
	}
	return x.tupleOf(fn.Signature, fn.Name())
}

// paramEnv builds a name environment for a function's contract.
func (x *Exec) paramEnv(fn *ssa.Function, args []Val, res []Val, st, old *State) *Env {
	sig := fn.Signature
	lookup := func(name string, st *State) (Val, types.Type, bool) {
		for i, p := range fn.Params {
			if p.Name() == name {
				return args[i], p.Type(), true
			}
		}
		if res != nil {
			n := sig.Results().Len()
			if name == "err" && n > 0 && isError(sig.Results().At(n-1).Type()) {
				return res[n-1], sig.Results().At(n - 1).Type(), true
			}
			if name == "result" && n > 0 {
				return res[0], sig.Results().At(0).Type(), true
			}
			if strings.HasPrefix(name, "result") && len(name) == 7 {
				k := int(name[6] - '0')
				if k >= 0 && k < n {
					return res[k], sig.Results().At(k).Type(), true
				}
			}
			for i := 0; i < n; i++ {
				if sig.Results().At(i).Name() == name && name != "" {
					return res[i], sig.Results().At(i).Type(), true
				}
			}
		}
		if strings.HasPrefix(name, "arg") && len(name) == 4 {
			k := int(name[3] - '0')
			if k >= 0 && k < len(args) {
				return args[k], fn.Params[k].Type(), true
			}
		}
		return nil, nil, false
	}
	return &Env{x: x, lookup: lookup, st: st, old: old, vars: map[string]*Term{}}
}

func isError(t types.Type) bool { return types.TypeString(t, nil) == "error" }

func (x *Exec) contractCall(fr *Frame, in ssa.CallInstruction, fn *ssa.Function, ct *Contract, args, bind []Val, g *Term, stp **State) (Val, *Term) {
	st := *stp
	name := short(fn.String())
	x.assumed[name]++
	pre := st.clone()
	env := x.paramEnv(fn, args, nil, st, st)
	for _, c := range ct.Requires {
		t, err := env.goal(c)
		if err != nil {
			x.specIssue(name, err)
			continue
		}
		x.oblige("requires "+name+"."+c.Name, in.Pos(), g, t)
		if t, err := env.known(c); err == nil {
			x.assume(g, t)
		}
	}
	for _, c := range ct.Defs {
		if t, err := env.Bool(c); err == nil {
			x.assume(g, t)
		}
	}
	s := x.summary(fn, bind)
	if s.busy {
		// recursive use while computing the summary itself
		s.rec = true
		return x.tupleOf(fn.Signature, fn.Name()), nil
	}
	x.applyFrame(s, args, st)
	// captured variables of closures
	rv := x.tupleOf(fn.Signature, fn.Name())
	var res []Val
	if fn.Signature.Results().Len() == 1 {
		res = []Val{rv}
	} else {
		res = rv.(*Tuple).elems
	}
	for i, r := range res {
		x.resultFacts(r, fn.Signature.Results().At(i).Type(), st)
	}
	env = x.paramEnv(fn, args, res, st, pre)
	x.ghostEffects(name, ct, env, st)
	for _, c := range ct.Ensures {
		t, err := env.known(c)
		if err != nil {
			x.specIssue(name, err)
			continue
		}
		x.assume(g, t)
	}
	return rv, nil
}

// ghostEffects performs the ghost assignments of a contract in parallel.
func (x *Exec) ghostEffects(name string, ct *Contract, env *Env, st *State) {
	upd := make([]*Term, len(ct.Ghost))
	for i, c := range ct.Ghost {
		t, err := env.Term(c)
		if err != nil {
			x.specIssue(name, err)
			continue
		}
		upd[i] = t
	}
	for i, c := range ct.Ghost {
		if upd[i] != nil {
			k := "g:" + c.Var
			x.getMem(st, k, upd[i].sort)
			x.writeGhost(st, k, upd[i])
		}
	}
}

func (x *Exec) resultFacts(v Val, t types.Type, st *State) {
	if tm, ok := v.(*Term); ok {
		x.typeFact(tm, t, st)
	}
}

func (x *Exec) specIssue(fn string, err error) {
	x.warn["spec: "+fn+": "+err.Error()]++
}

// specCands adds the invariants and steps the contract gives for loops of fr.fn.
func (x *Exec) specCands(fr *Frame, ci *cfgInfo, h *ssa.BasicBlock, lc *loopCtx, id string) {
	name := short(fr.fn.String())
	var cts []*Contract
	if c := x.spec.Funcs[short(fr.ctx.fn.String())]; c != nil {
		cts = append(cts, c)
	}
	for _, s := range x.spec.Schemas {
		cts = append(cts, s.C)
	}
	ord := loopOrdinal(ci, h)
	for _, ct := range cts {
		for ki, list := range [][]Clause{ct.Invs, ct.Steps} {
			for i, c := range list {
				if c.Loop >= 0 && c.Loop != ord {
					continue
				}
				c := c
				for vi, inst := range x.instances(c, fr, ci, h, lc) {
					inst := inst
					envOf := func(val func(*ssa.Phi) Val, st *State) *Env {
						env := x.loopEnv(fr, ci, h, lc, val, st)
						if inst != nil {
							base := env.lookup
							env.lookup = func(name string, st *State) (Val, types.Type, bool) {
								if f, ok := inst[name]; ok {
									v, t := f(val, st)
									return v, t, true
								}
								return base(name, st)
							}
						}
						return env
					}
					mk := func(val func(*ssa.Phi) Val, st *State) (*Term, error) {
						env := envOf(val, st)
						env.entry = envOf(func(p *ssa.Phi) Val { return lc.entry[p] }, lc.entrySt)
						return env.Bool(c)
					}
					if _, err := mk(func(p *ssa.Phi) Val { return lc.entry[p] }, lc.entrySt); err != nil {
						x.warn["invariant not applicable: "+name+": "+err.Error()]++
						continue
					}
					if c.Name != "" {
						x.usedSpec[name+":"+c.Name] = true
					}
					lc.cands = append(lc.cands, cand{
						id: fmt.Sprintf("%s|spec%d.%d.%d|%s", id, ki, i, vi, c.Name), must: ki == 1, name: "step " + name + "." + c.Name, pos: h.Instrs[0].Pos(),
						eval: func(val func(*ssa.Phi) Val, st *State) *Term {
							t, err := mk(val, st)
							if err != nil {
								return x.b.True()
							}
							return t
						},
					})
				}
			}
		}
	}
}

type tmplVal func(val func(*ssa.Phi) Val, st *State) (Val, types.Type)

// instances expands the template variables of an invariant: i_, j_ stand for
// every integer that the loop advances (and its successor), s_, t_ for every
// slice and r_ for every text it rebuilds, u_ for every slice and m_ for every
// map that it uses and that comes from outside the loop, w_ for every slice
// from outside the loop whose elements it assigns, b_ for every buffer from
// outside the loop that it uses, f_ for every file opened before the loop,
// x_ for every text from outside the loop that it uses, a_ for every struct
// variable declared outside the loop, p_ for every truth value that the loop
// sets.
func (x *Exec) instances(c Clause, fr *Frame, ci *cfgInfo, h *ssa.BasicBlock, lc *loopCtx) []map[string]tmplVal {
	uses := map[string]bool{}
	ast.Inspect(c.Expr, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			switch id.Name {
			case "i_", "j_", "s_", "t_", "r_", "u_", "m_", "w_", "b_", "f_", "x_", "a_", "p_":
				uses[id.Name] = true
			}
		}
		return true
	})
	if len(uses) == 0 {
		return []map[string]tmplVal{nil}
	}
	b := x.b
	var ints, slices, strs, bools []tmplVal
	for _, p := range lc.phis {
		p := p
		switch e := lc.entry[p].(type) {
		case *Term:
			v := func(val func(*ssa.Phi) Val, st *State) (Val, types.Type) { return val(p), p.Type() }
			switch {
			case e.sort == "Int" && isInteger(p.Type()):
				ints = append(ints, v, func(val func(*ssa.Phi) Val, st *State) (Val, types.Type) {
					return b.Add(x.term(val(p)), b.Int(1)), p.Type()
				})
			case e.sort == "Slice":
				slices = append(slices, v)
			case e.sort == "Bool":
				bools = append(bools, v)
			case e.sort == "Str":
				strs = append(strs, v)
			}
		}
	}
	for _, k := range sortedKeys(lc.lf.ghosts) {
		if strings.HasPrefix(k, "g:iter") && x.keySort[k] == "Int" {
			k := k
			ints = append(ints, func(val func(*ssa.Phi) Val, st *State) (Val, types.Type) {
				return x.getMem(st, k, "Int"), types.Typ[types.Int]
			})
		}
	}
	var fixed, maps, written, bufs, texts []tmplVal
	if uses["u_"] || uses["m_"] || uses["w_"] || uses["b_"] || uses["x_"] {
		seen := map[ssa.Value]bool{}
		for _, blk := range fr.fn.Blocks {
			if !ci.body[h][blk] {
				continue
			}
			for _, in := range blk.Instrs {
				switch in.(type) {
				case *ssa.DebugRef, *ssa.Phi:
					continue
				}
				for _, op := range in.Operands(nil) {
					v := *op
					if r, ok := v.(*ssa.Range); ok {
						v = r.X
					}
					if v == nil || seen[v] {
						continue
					}
					seen[v] = true
					if vi, ok := v.(ssa.Instruction); ok && ci.body[h][vi.Block()] {
						continue
					}
					if _, ok := v.(*ssa.Const); ok || fr.vals[v] == nil {
						continue
					}
					f := func(val func(*ssa.Phi) Val, st *State) (Val, types.Type) { return fr.vals[v], v.Type() }
					switch u := v.Type().Underlying().(type) {
					case *types.Basic:
						if u.Info()&types.IsString != 0 {
							texts = append(texts, f)
						}
					case *types.Slice:
						fixed = append(fixed, f)
						if assigned(v, ci.body[h]) {
							written = append(written, f)
						}
					case *types.Map:
						maps = append(maps, f)
					case *types.Pointer:
						switch typeKey(v.Type()) {
						case "*bytes.Buffer", "*strings.Builder":
							bufs = append(bufs, f)
						}
					}
				}
			}
		}
	}
	var files []tmplVal
	if uses["f_"] {
		for _, blk := range fr.fn.Blocks {
			if ci.body[h][blk] {
				continue
			}
			for _, in := range blk.Instrs {
				if v, ok := in.(ssa.Value); ok && typeKey(v.Type()) == "*os.File" && fr.vals[v] != nil {
					files = append(files, func(val func(*ssa.Phi) Val, st *State) (Val, types.Type) { return fr.vals[v], v.Type() })
				}
			}
		}
	}
	var structs []tmplVal
	if uses["a_"] {
		add := func(v ssa.Value) {
			if p, ok := v.Type().Underlying().(*types.Pointer); ok && fr.vals[v] != nil {
				if _, ok := p.Elem().Underlying().(*types.Struct); ok {
					structs = append(structs, func(val func(*ssa.Phi) Val, st *State) (Val, types.Type) { return fr.vals[v], v.Type() })
				}
			}
		}
		for _, p := range fr.fn.Params {
			add(p)
		}
		for _, p := range fr.fn.FreeVars {
			add(p)
		}
		for _, blk := range fr.fn.Blocks {
			if ci.body[h][blk] {
				continue
			}
			for _, in := range blk.Instrs {
				if v, ok := in.(*ssa.Alloc); ok {
					add(v)
				}
			}
		}
	}
	out := []map[string]tmplVal{{}}
	for _, n := range sortedKeys(uses) {
		var dom []tmplVal
		switch n {
		case "i_", "j_":
			dom = ints
		case "s_", "t_":
			dom = slices
		case "r_":
			dom = strs
		case "u_":
			dom = fixed
		case "m_":
			dom = maps
		case "w_":
			dom = written
		case "b_":
			dom = bufs
		case "x_":
			dom = texts
		case "f_":
			dom = files
		case "a_":
			dom = structs
		case "p_":
			dom = bools
		}
		var nx []map[string]tmplVal
		for _, m := range out {
			for _, v := range dom {
				k := map[string]tmplVal{n: v}
				for a, b := range m {
					k[a] = b
				}
				nx = append(nx, k)
			}
		}
		out = nx
	}
	return out
}

// assigned reports whether an element of slice v is the target of a store in
// the given blocks.
func assigned(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	var target func(a ssa.Value) bool
	target = func(a ssa.Value) bool {
		if a.Referrers() == nil {
			return false
		}
		for _, r := range *a.Referrers() {
			if !body[r.Block()] {
				continue
			}
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == a {
					return true
				}
			case *ssa.FieldAddr:
				if target(r) {
					return true
				}
			case *ssa.IndexAddr:
				if r.X == a && target(r) {
					return true
				}
			}
		}
		return false
	}
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok && body[ia.Block()] && target(ia) {
			return true
		}
	}
	return false
}

// loopEnv resolves names at a loop header: loop variables (phis), then
// parameters and other variables whose value is fixed during the loop.
func (x *Exec) loopEnv(fr *Frame, ci *cfgInfo, h *ssa.BasicBlock, lc *loopCtx, val func(*ssa.Phi) Val, st *State) *Env {
	lookup := func(name string, st *State) (Val, types.Type, bool) {
		for _, p := range lc.phis {
			if p.Comment == name {
				return val(p), p.Type(), true
			}
		}
		if fr.ctx != fr {
			for i, p := range fr.ctx.fn.Params {
				if name == fmt.Sprintf("arg%d", i) {
					return fr.ctx.params[i], p.Type(), true
				}
			}
		}
		return x.nameAt(fr, h, name, st)
	}
	old := fr.ctx.entrySt
	oldEnv := x.paramEnv(fr.ctx.fn, fr.ctx.params, nil, old, old)
	// head(e): value at the start of this iteration is not expressible; old() is function entry
	return &Env{x: x, lookup: lookup, st: st, old: old, oldEnv: oldEnv, vars: map[string]*Term{}}
}

func (x *Exec) nameAt(fr *Frame, h *ssa.BasicBlock, name string, st *State) (Val, types.Type, bool) {
	for i, p := range fr.fn.Params {
		if name == fmt.Sprintf("arg%d", i) {
			return fr.params[i], p.Type(), true
		}
		if p.Name() == name {
			// a parameter may have been moved to memory
			for _, blk := range fr.fn.Blocks {
				for _, in := range blk.Instrs {
					if a, ok := in.(*ssa.Alloc); ok && a.Comment == name && blk.Dominates(h) {
						if v, ok := fr.vals[a]; ok {
							return x.load(st, x.ptr(v, a.Type()), deref(a.Type())), deref(a.Type()), true
						}
					}
				}
			}
			return fr.params[i], p.Type(), true
		}
	}
	var best ssa.Value
	var bestAddr bool
	for _, blk := range fr.fn.Blocks {
		if !blk.Dominates(h) {
			continue
		}
		for _, in := range blk.Instrs {
			switch in := in.(type) {
			case *ssa.Alloc:
				if in.Comment == name {
					best, bestAddr = in, true
				}
			case *ssa.Phi:
				if in.Comment == name {
					best, bestAddr = in, false
				}
			case *ssa.DebugRef:
				if blk == h {
					continue
				}
				if o := in.Object(); o != nil && o.Name() == name {
					if _, isVar := o.(*types.Var); isVar && !o.(*types.Var).IsField() {
						if in.IsAddr {
							best, bestAddr = in.X, true
						} else if !bestAddr {
							best = in.X
						}
					}
				}
			}
		}
	}
	if best == nil {
		for i, f := range fr.fn.FreeVars {
			if f.Name() == name && i < len(fr.free) {
				if _, ok := f.Type().Underlying().(*types.Pointer); ok {
					return x.load(st, x.ptr(fr.free[i], f.Type()), deref(f.Type())), deref(f.Type()), true
				}
				return fr.free[i], f.Type(), true
			}
		}
		return nil, nil, false
	}
	if _, ok := best.(*ssa.Const); !ok {
		if _, ok := fr.vals[best]; !ok {
			return nil, nil, false
		}
	}
	v := x.val(fr, best)
	if bestAddr {
		return x.load(st, x.ptr(v, best.Type()), deref(best.Type())), deref(best.Type()), true
	}
	return v, best.Type(), true
}

func (x *Exec) builtin(fr *Frame, in ssa.CallInstruction, bi *ssa.Builtin, args []Val, g *Term, stp **State) (Val, *Term) {
	b := x.b
	st := *stp
	c := in.Common()
	switch bi.Name() {
	case "len":
		return x.lenTerm(args[0], c.Args[0].Type(), st), nil
	case "cap":
		if leafSort(c.Args[0].Type()) == "Slice" {
			return b.SCap(x.term(args[0])), nil
		}
		return x.freshVal("cap", types.Typ[types.Int]), nil
	case "append":
		return x.appendCall(fr, c, args, g, st), nil
	case "copy":
		dst := x.term(args[0])
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		n := b.Fresh("copied", "Int")
		x.fact(b.And(b.Ge(n, b.Int(0)), b.Le(n, b.SLen(dst))))
		if src := x.term(args[1]); src.sort == "Slice" {
			x.fact(b.Eq(n, b.Ite(b.Lt(b.SLen(dst), b.SLen(src)), b.SLen(dst), b.SLen(src))))
			for _, l := range x.ts.flatten(et) {
				x.blockCopy(st, typeKey(et)+l.path, l.sort, dst, b.SOff(dst), src, n)
			}
		} else {
			x.havocElems(st, dst, et)
		}
		x.writeCell(st, "$bstr", "Str", b.SBase(dst), b.Int(0), b.Fresh("bytes", "Str"))
		return n, nil
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m := x.term(args[0])
		k := x.key(args[1], mt.Key())
		ks := x.keySortOf(mt.Key())
		dk, ds := mapKey(mt, "dom"), ArrSort("Int", ArrSort(ks, "Bool"))
		had := x.mapHas(st, mt, m, k)
		x.writeBase(st, dk, ds, m, b.Store(b.Select(x.getMem(st, dk, ds), m), k, b.False()))
		lk, ls := mapKey(mt, "len"), ArrSort("Int", "Int")
		ln := b.Select(x.getMem(st, lk, ls), m)
		x.writeBase(st, lk, ls, m, b.Ite(had, b.Sub(ln, b.Int(1)), ln))
		return nil, nil
	case "panic":
		if x.opt.safety {
			x.oblige("no-panic", in.Pos(), g, b.False())
		}
		return nil, b.False()
	case "recover":
		return x.zeroVal(in.Value().Type()), nil
	case "min", "max":
		r := x.term(args[0])
		if r.sort == "Int" {
			for _, a := range args[1:] {
				t := x.term(a)
				if bi.Name() == "min" {
					r = b.Ite(b.Lt(t, r), t, r)
				} else {
					r = b.Ite(b.Gt(t, r), t, r)
				}
			}
			return r, nil
		}
	case "ssa:wrapnilchk":
		return args[0], nil
	case "close", "print", "println", "clear":
		return nil, nil
	}
	if v := in.Value(); v != nil {
		return x.freshVal(bi.Name(), v.Type()), nil
	}
	return nil, nil
}

func (x *Exec) havocElems(st *State, s *Term, et types.Type) {
	for _, l := range x.ts.flatten(et) {
		x.writeBase(st, typeKey(et)+l.path, memSort(l.sort), x.b.SBase(s), x.b.Fresh("hv", ArrSort("Int", l.sort)))
	}
}

// blockCopy writes n cells of src at absolute offset at of dst.
func (x *Exec) blockCopy(st *State, key, sort string, dst, at, src, n *Term) {
	b := x.b
	ms := memSort(sort)
	m := x.getMem(st, key, ms)
	di := b.Select(m, b.SBase(dst))
	si := b.Select(m, b.SBase(src))
	na := b.Fresh("cp", ArrSort("Int", sort))
	v := b.mk("var", "j?", "Int")
	inR := b.And(b.Ge(v, at), b.Lt(v, b.Add(at, n)))
	if x.opt.noquant {
		x.writeBase(st, key, ms, b.SBase(dst), na)
		return
	}
	sel := b.mk("select", "", sort, na, v)
	val := b.Ite(inR, b.mk("select", "", sort, si, b.Add(b.Sub(v, at), b.SOff(src))), b.mk("select", "", sort, di, v))
	x.fact(b.mk("forall", "j?:Int", "Bool", b.Eq(sel, val), sel))
	x.writeBase(st, key, ms, b.SBase(dst), na)
}

// varargs returns the statically known elements of a variadic slice argument.
func (x *Exec) varargs(fr *Frame, v ssa.Value) ([]ssa.Value, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok || (a.Comment != "varargs" && a.Comment != "slicelit") || s.Low != nil || s.High != nil {
		return nil, false
	}
	n := int(deref(a.Type()).Underlying().(*types.Array).Len())
	out := make([]ssa.Value, n)
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		ic, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, rr := range *ia.Referrers() {
			if sto, ok := rr.(*ssa.Store); ok && sto.Addr == ia {
				out[ic.Int64()] = sto.Val
			}
		}
	}
	return out, true
}

func (x *Exec) appendCall(fr *Frame, c *ssa.CallCommon, args []Val, g *Term, st *State) Val {
	b := x.b
	s := x.term(args[0])
	if len(args) == 1 {
		return s
	}
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	tv := x.term(args[1])
	var n *Term
	if tv.sort == "Str" {
		n = x.strLen(tv)
	} else {
		n = b.SLen(tv)
	}
	nl := b.Add(b.SLen(s), n)
	fits := b.Le(nl, b.SCap(s))
	if k, ok := n.isInt(); ok && k == 0 {
		return s
	}
	o := x.newObj(st, "append")
	nb := b.Ite(fits, b.SBase(s), o)
	nc := b.Fresh("cap", "Int")
	x.fact(b.Ge(nc, nl))
	res := b.MkSlice(nb, b.SOff(s), nl, b.Ite(fits, b.SCap(s), nc))
	isByte := leafSort(et) == "Int" && et.Underlying().(*types.Basic).Kind() == types.Uint8
	if isByte {
		cur := x.readCell(st, "$bstr", "Str", b.SBase(s), b.Int(0))
		var add *Term
		if tv.sort == "Str" {
			add = tv
		} else {
			add = x.bytesStr(st, tv)
		}
		pre := x.b.Ite(b.Eq(b.SLen(s), b.Int(0)), b.Str(""), x.substr(cur, b.Int(0), b.Add(b.SOff(s), b.SLen(s))))
		x.writeCell(st, "$bstr", "Str", nb, b.Int(0), x.cat(pre, add))
	}
	at := b.Add(b.SOff(s), b.SLen(s))
	k, static := n.isInt()
	for _, l := range x.ts.flatten(et) {
		key := typeKey(et) + l.path
		ms := memSort(l.sort)
		m := x.getMem(st, key, ms)
		inner := b.Select(m, b.SBase(s))
		if static && k <= 16 && tv.sort == "Slice" {
			src := b.Select(m, b.SBase(tv))
			ni := inner
			for j := int64(0); j < k; j++ {
				ni = b.Store(ni, b.Add(at, b.Int(j)), b.Select(src, b.Add(b.SOff(tv), b.Int(j))))
			}
			x.writeBase(st, key, ms, nb, ni)
			continue
		}
		na := b.Fresh("app", ArrSort("Int", l.sort))
		if tv.sort == "Slice" && !x.opt.noquant {
			si := b.Select(m, b.SBase(tv))
			v := b.mk("var", "j?", "Int")
			inR := b.And(b.Ge(v, at), b.Lt(v, b.Add(at, n)))
			sel := b.mk("select", "", l.sort, na, v)
			val := b.Ite(inR, b.mk("select", "", l.sort, si, b.Add(b.Sub(v, at), b.SOff(tv))), b.mk("select", "", l.sort, inner, v))
			x.fact(b.mk("forall", "j?:Int", "Bool", b.Eq(sel, val), sel))
		}
		x.writeBase(st, key, ms, nb, na)
	}
	return res
}
