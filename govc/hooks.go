package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// xcall is one call of a function outside the verified code.
type xcall struct {
	x    *Exec
	fr   *Frame
	in   ssa.CallInstruction
	name string
	sig  *types.Signature
	recv Val
	args []Val
	g    *Term
	st   *State
	ct   *Contract
	env  func(*State) *Env
}

type hookFn func(c *xcall) Val

var hooks = map[string]hookFn{}

func (w *World) hasHook(x *Exec, name string) bool { _, ok := hooks[name]; return ok }

func (c *xcall) t(i int) *Term { return c.x.term(c.args[i]) }

// ssaArg returns the SSA operand for argument i (receiver included for static methods).
func (c *xcall) ssaArg(i int) ssa.Value {
	as := c.in.Common().Args
	if i < len(as) {
		return as[i]
	}
	return nil
}

func (x *Exec) extern(fr *Frame, in ssa.CallInstruction, name string, sig *types.Signature, recv Val, args []Val, g *Term, stp **State) (Val, *Term) {
	if i := strings.IndexByte(name, '['); i > 0 && !strings.HasPrefix(name, "(") {
		name = name[:i]
	}
	x.externs[name]++
	ct := x.spec.Externs[name]
	st := *stp
	pre := st.clone()
	c := &xcall{x: x, fr: fr, in: in, name: name, sig: sig, recv: recv, args: args, g: g, st: st, ct: ct}
	var res []Val
	env := func(s *State) *Env {
		return &Env{x: x, st: s, old: pre, vars: map[string]*Term{}, lookup: func(n string, s *State) (Val, types.Type, bool) {
			k := sig.Results().Len()
			if n == "err" && k > 0 && res != nil && isError(sig.Results().At(k-1).Type()) {
				return res[k-1], sig.Results().At(k - 1).Type(), true
			}
			if strings.HasPrefix(n, "result") && res != nil {
				i := 0
				if len(n) == 7 {
					i = int(n[6] - '0')
				}
				if i < k {
					return res[i], sig.Results().At(i).Type(), true
				}
			}
			if n == "recv" && recv != nil {
				return recv, in.Common().Value.Type(), true
			}
			if strings.HasPrefix(n, "arg") && len(n) == 4 {
				i := int(n[3] - '0')
				if i < len(args) && i < len(in.Common().Args) {
					return args[i], in.Common().Args[i].Type(), true
				}
			}
			// vararg0..: elements of a statically known variadic argument
			if strings.HasPrefix(n, "va") && len(n) == 3 && len(args) > 0 {
				if vs, ok := x.varargs(fr, in.Common().Args[len(in.Common().Args)-1]); ok {
					i := int(n[2] - '0')
					if i < len(vs) && vs[i] != nil {
						v := vs[i]
						if mi, ok := v.(*ssa.MakeInterface); ok {
							return x.val(fr, mi.X), mi.X.Type(), true
						}
						return x.val(fr, v), v.Type(), true
					}
				}
			}
			return nil, nil, false
		}}
	}
	c.env = env
	if ct != nil {
		for _, cl := range ct.Requires {
			t, err := env(st).Bool(cl)
			if err != nil {
				x.specIssue(name, err)
				continue
			}
			x.oblige("requires "+name+"."+cl.Name, in.Pos(), g, t)
			x.assume(g, t)
		}
	}
	var rv Val
	if h, ok := hooks[name]; ok {
		rv = h(c)
	} else if h, ok := prefixHook(name); ok {
		rv = h(c)
	} else {
		if ct == nil || !ct.Pure {
			x.defaultEffects(c)
		}
		rv = c.defaultResult()
	}
	st = c.st
	if ct != nil {
		for _, m := range ct.Modifies {
			if v, t, ok := env(st).lookup(m, st); ok {
				if sl, isS := t.Underlying().(*types.Slice); isS {
					x.havocElems(st, x.term(v), sl.Elem())
				}
			}
		}
	}
	n := sig.Results().Len()
	switch {
	case n == 1:
		res = []Val{rv}
	case n > 1:
		res = rv.(*Tuple).elems
	default:
		res = []Val{}
	}
	if ct != nil {
		e := env(st)
		for _, cl := range ct.Ensures {
			t, err := e.Bool(cl)
			if err != nil {
				x.specIssue(name, err)
				continue
			}
			x.assume(g, t)
		}
		var upd []*Term
		for _, cl := range ct.Ghost {
			t, err := e.Term(cl)
			if err != nil {
				x.specIssue(name, err)
				t = nil
			}
			upd = append(upd, t)
		}
		for i, cl := range ct.Ghost {
			if upd[i] == nil {
				continue
			}
			k := "g:" + cl.Var
			x.getMem(st, k, upd[i].sort)
			x.writeGhost(st, k, upd[i])
		}
	}
	*stp = st
	return rv, nil
}

func prefixHook(name string) (hookFn, bool) {
	switch {
	case strings.HasPrefix(name, "(*flag.FlagSet).") && strings.HasSuffix(name, "Var"):
		return func(c *xcall) Val {
			if len(c.args) > 1 {
				c.havocPointee(c.args[1], c.ssaArg(1).Type())
			}
			return c.defaultResult()
		}, true
	}
	return nil, false
}

func (c *xcall) defaultResult() Val {
	x := c.x
	n := c.sig.Results().Len()
	if n == 0 {
		return nil
	}
	errIdx := -1
	var errT *Term
	if isError(c.sig.Results().At(n - 1).Type()) {
		errIdx = n - 1
		errT = x.b.Fresh("err_"+lastName(c.name), "Iface")
	}
	var elems []Val
	for i := 0; i < n; i++ {
		t := c.sig.Results().At(i).Type()
		if i == errIdx {
			elems = append(elems, errT)
			continue
		}
		elems = append(elems, c.result(t, errT))
	}
	if n == 1 {
		return elems[0]
	}
	return &Tuple{elems}
}

func lastName(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// result makes an unknown result; objects are new, and present when err is nil.
func (c *xcall) result(t types.Type, err *Term) Val {
	x := c.x
	b := x.b
	ok := b.True()
	if err != nil {
		ok = b.Eq(b.ITag(err), b.Int(0))
	}
	// a function of the repository promises nothing about its results
	if strings.HasPrefix(c.name, "ddl.") || strings.HasPrefix(c.name, "(*ddl.") || strings.HasPrefix(c.name, "internal/") || strings.HasPrefix(c.name, "(*internal/") {
		return x.freshVal("x_"+lastName(c.name), t)
	}
	switch leafSort(t) {
	case "Ptr":
		o := x.newObj(c.st, lastName(c.name))
		if ok.isTrue() {
			return b.MkPtr(o, b.Int(0))
		}
		r := b.Fresh("p_"+lastName(c.name), "Ptr")
		x.fact(b.Or(b.Eq(r, b.MkPtr(o, b.Int(0))), b.Eq(b.PBase(r), b.Int(0))))
		x.fact(b.Implies(ok, b.Eq(r, b.MkPtr(o, b.Int(0)))))
		return r
	case "Iface":
		r := b.Fresh("i_"+lastName(c.name), "Iface")
		x.fact(b.Implies(ok, b.Not(b.Eq(b.ITag(r), b.Int(0)))))
		return r
	case "Slice":
		o := x.newObj(c.st, lastName(c.name))
		r := b.Fresh("s_"+lastName(c.name), "Slice")
		x.fact(b.Or(b.Eq(b.SBase(r), o), b.Eq(b.SBase(r), b.Int(0))))
		x.fact(b.Eq(b.SOff(r), b.Int(0)))
		x.typeFact(r, t, nil)
		return r
	case "Int":
		if _, isM := t.Underlying().(*types.Map); isM {
			return x.newObj(c.st, "map")
		}
	}
	return x.freshVal("x_"+lastName(c.name), t)
}

func (c *xcall) havocPointee(v Val, t types.Type) {
	x := c.x
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		return
	}
	et := deref(t)
	if specialStruct(et) == "Int" {
		return
	}
	p := x.ptr(v, t)
	if p.arr {
		return
	}
	nv := x.freshVal("w_"+lastName(c.name), et)
	if specialStruct(et) == "Str" {
		// writers only append
		cur := x.load(c.st, p, et)
		nv = x.cat(x.term(cur), x.term(nv))
	}
	x.store(c.st, p, et, nv)
}

// defaultEffects applies the conservative effect of an unknown external call:
// everything directly reachable through pointer arguments may change.
func (x *Exec) defaultEffects(c *xcall) {
	cargs := c.in.Common().Args
	for i, a := range c.args {
		if i >= len(cargs) {
			break
		}
		sv := cargs[i]
		x.argEffect(c, a, sv)
		if c.sig.Variadic() && i == len(c.args)-1 {
			if vs, ok := x.varargs(c.fr, sv); ok {
				for _, v := range vs {
					if v != nil {
						x.argEffect(c, x.val(c.fr, v), v)
					}
				}
			}
		}
	}
}

func (x *Exec) argEffect(c *xcall, a Val, sv ssa.Value) {
	if mi, ok := sv.(*ssa.MakeInterface); ok {
		sv = mi.X
		a = x.val(c.fr, sv)
	}
	if ci, ok := sv.(*ssa.ChangeInterface); ok {
		if mi, ok := ci.X.(*ssa.MakeInterface); ok {
			sv = mi.X
			a = x.val(c.fr, sv)
		}
	}
	t := sv.Type()
	switch t.Underlying().(type) {
	case *types.Pointer:
		c.havocPointee(a, t)
	case *types.Signature:
		if fv, ok := a.(*FuncVal); ok {
			x.callback(c, fv, false)
		}
	}
}

// callbackObligs demands what the contract says about each call of a function argument.
func (c *xcall) callbackObligs(fn *ssa.Function, args, res []Val, pre, post *State, g *Term) {
	if c.ct == nil {
		return
	}
	x := c.x
	for _, cl := range c.ct.Callback {
		e := c.env(post)
		e.old = pre
		base := e.lookup
		e.lookup = func(n string, s *State) (Val, types.Type, bool) {
			k := fn.Signature.Results().Len()
			if n == "cberr" && k > 0 && isError(fn.Signature.Results().At(k-1).Type()) && res[k-1] != nil {
				return res[k-1], fn.Signature.Results().At(k - 1).Type(), true
			}
			if strings.HasPrefix(n, "cb") && len(n) == 3 {
				if i := int(n[2] - '0'); i >= 0 && i < len(args) {
					return args[i], fn.Params[i].Type(), true
				}
			}
			return base(n, s)
		}
		t, err := e.Bool(cl)
		if err != nil {
			x.specIssue(c.name, err)
			continue
		}
		x.oblige("callback "+c.name+"."+cl.Name, c.in.Pos(), g, t)
	}
}

// callback models an external function calling a closure any number of times.
// It returns the error of the last call (nil term if the closure has none).
func (x *Exec) callback(c *xcall, fv *FuncVal, stopOnErr bool) *Term {
	b := x.b
	var lastErr *Term
	for _, alt := range fv.alts {
		fn := alt.fn
		if fn.Blocks == nil || x.onStack(fn) {
			continue
		}
		id := fmt.Sprintf("%s/cb%d>%s", c.fr.id, x.instrNum(c.in), short(fn.String()))
		mkArgs := func() []Val {
			var as []Val
			for _, p := range fn.Params {
				as = append(as, x.freshVal("cb_"+p.Name(), p.Type()))
			}
			return as
		}
		g := b.And(c.g, alt.cond)
		keys := map[string]bool{}
		var log *wlog
		mark := b.nsym
		for round := 0; round < 6; round++ {
			pst := c.st.clone()
			for _, k := range sortedKeys(keys) {
				if x.keySort[k] != "" {
					x.getMem(pst, k, x.keySort[k])
					x.havocFull(pst, k, "p")
				}
			}
			pst.next = b.Fresh("next", "Int")
			log = &wlog{keys: map[string]map[*Term]bool{}}
			x.logs = append(x.logs, log)
			x.mute++
			x.runFunc(fn, mkArgs(), alt.bind, pst, g, id)
			x.mute--
			x.logs = x.logs[:len(x.logs)-1]
			grown := false
			for k := range log.keys {
				if !keys[k] {
					keys[k] = true
					grown = true
				}
			}
			if !grown {
				break
			}
		}
		entry := c.st.clone()
		hst := c.st
		nn := b.Fresh("next", "Int")
		x.fact(b.Ge(nn, entry.next))
		hst.next = nn
		var cands []cand
		add := func(cid string, f func(st *State) *Term) {
			cands = append(cands, cand{id: id + "|" + cid, eval: func(_ func(*ssa.Phi) Val, st *State) *Term { return f(st) }})
		}
		for _, k := range sortedKeys(keys) {
			k := k
			s := x.keySort[k]
			if s == "" {
				continue
			}
			if strings.HasPrefix(k, "g:") {
				e := x.getMem(entry, k, s)
				x.writeGhost(hst, k, b.Fresh("CB:"+k, s))
				add("geq|"+k, func(st *State) *Term { return b.Eq(x.getMem(st, k, s), e) })
				if s == "Int" {
					add("gge|"+k, func(st *State) *Term { return b.Ge(x.getMem(st, k, s), e) })
				}
				continue
			}
			all := false
			for bs := range log.keys[k] {
				if bs == nil || bs.maxSym > mark && !bs.alloc {
					all = true
				}
			}
			if all {
				x.logWrite(hst, k, b.Fresh("anybase", "Int"))
				x.havocFull(hst, k, "CB")
				continue
			}
			for _, bs := range sortTerms(log.keys[k]) {
				if bs.maxSym <= mark {
					x.writeBase(hst, k, s, bs, b.Fresh("CB:"+k, innerSort(s)))
				}
			}
		}
		for _, cd := range cands {
			x.candidate(cd.id, g, cd.eval(nil, entry))
			if !x.deadCand[cd.id] {
				x.assume(g, cd.eval(nil, hst))
			}
		}
		called := b.Fresh("called", "Bool")
		cg := b.And(g, called)
		s2 := hst.clone()
		as := mkArgs()
		_, res, st2, rg := x.runFunc(fn, as, alt.bind, s2, cg, id)
		c.callbackObligs(fn, as, res, hst, st2, rg)
		n := fn.Signature.Results().Len()
		cont := rg
		if n > 0 && isError(fn.Signature.Results().At(n-1).Type()) && res[n-1] != nil {
			e := x.term(res[n-1])
			lastErr = b.Ite(called, e, x.zero("Iface"))
			if stopOnErr {
				cont = b.And(rg, b.Eq(b.ITag(e), b.Int(0)))
			}
		}
		for _, cd := range cands {
			x.candidate(cd.id, cont, cd.eval(nil, st2))
		}
		c.st = x.mergeState(called, st2, hst)
	}
	return lastErr
}

func strHook(f func(c *xcall) Val) hookFn { return f }

func init() {
	H := func(names string, f hookFn) {
		for _, n := range strings.Fields(names) {
			hooks[n] = f
		}
	}
	// atomics (goroutines are run one after another)
	atom := func(f func(c *xcall, old *Term) (*Term, Val)) hookFn {
		return func(c *xcall) Val {
			et := deref(c.sig.Params().At(0).Type())
			p := c.x.ptr(c.args[0], c.sig.Params().At(0).Type())
			old := c.x.term(c.x.load(c.st, p, et))
			nv, r := f(c, old)
			if nv != nil {
				c.x.store(c.st, p, et, nv)
			}
			return r
		}
	}
	H("sync/atomic.CompareAndSwapInt32 sync/atomic.CompareAndSwapInt64 sync/atomic.CompareAndSwapUint32", atom(func(c *xcall, old *Term) (*Term, Val) {
		ok := c.x.b.Eq(old, c.t(1))
		return c.x.b.Ite(ok, c.t(2), old), ok
	}))
	H("sync/atomic.LoadInt32 sync/atomic.LoadInt64 sync/atomic.LoadUint32", atom(func(c *xcall, old *Term) (*Term, Val) { return nil, old }))
	H("sync/atomic.StoreInt32 sync/atomic.StoreInt64 sync/atomic.StoreUint32", atom(func(c *xcall, old *Term) (*Term, Val) { return c.t(1), nil }))
	H("sync/atomic.SwapInt32 sync/atomic.SwapInt64 sync/atomic.SwapUint32", atom(func(c *xcall, old *Term) (*Term, Val) { return c.t(1), old }))
	H("sync/atomic.AddInt32 sync/atomic.AddInt64 sync/atomic.AddUint32", atom(func(c *xcall, old *Term) (*Term, Val) {
		n := c.x.b.Add(old, c.t(1))
		return n, n
	}))
	// strings
	H("strings.HasPrefix", func(c *xcall) Val { return c.x.strPred("s.prefix", c.t(0), c.t(1)) })
	H("strings.HasSuffix", func(c *xcall) Val { return c.x.strPred("s.suffix", c.t(0), c.t(1)) })
	H("strings.Contains", func(c *xcall) Val { return c.x.strPred("s.contains", c.t(0), c.t(1)) })
	H("strings.TrimPrefix", func(c *xcall) Val {
		x, s, p := c.x, c.t(0), c.t(1)
		n := x.strLen(p)
		return x.b.Ite(x.strPred("s.prefix", s, p), x.substr(s, n, x.b.Sub(x.strLen(s), n)), s)
	})
	H("strings.TrimSuffix", func(c *xcall) Val {
		x, s, p := c.x, c.t(0), c.t(1)
		if s.op == "app" && s.name == "s.cat" && s.args[1] == p {
			return s.args[0]
		}
		return x.b.Ite(x.strPred("s.suffix", s, p), x.substr(s, x.b.Int(0), x.b.Sub(x.strLen(s), x.strLen(p))), s)
	})
	H("strings.Index", func(c *xcall) Val {
		x, b := c.x, c.x.b
		r := b.App("s.index", "Int", c.t(0), c.t(1))
		x.factOnce(b.Eq(b.Ge(r, b.Int(0)), x.strPred("s.contains", c.t(0), c.t(1))))
		return r
	})
	H("strings.IndexByte", func(c *xcall) Val {
		x, b := c.x, c.x.b
		var p *Term
		if n, ok := c.t(1).isInt(); ok {
			p = b.Str(string([]byte{byte(n)}))
		} else {
			p = b.App("s.ofbyte", "Str", c.t(1))
			x.factOnce(b.Eq(x.strLen(p), b.Int(1)))
		}
		r := b.App("s.index", "Int", c.t(0), p)
		x.factOnce(b.And(b.Ge(r, b.Int(-1)), b.Lt(r, x.strLen(c.t(0))), b.Implies(b.Ge(r, b.Int(0)), b.Eq(x.strAt(c.t(0), r), c.t(1))),
			b.Implies(b.Eq(r, b.Int(0)), b.Eq(x.strAt(c.t(0), b.Int(0)), c.t(1)))))
		if s := c.t(0); s.op == "app" && s.name == "s.sub" {
			x.factOnce(b.Implies(b.And(b.Gt(s.args[2], b.Int(0)), b.Ge(s.args[1], b.Int(0)), b.Le(b.Add(s.args[1], s.args[2]), x.strLen(s.args[0]))),
				b.Eq(x.strAt(s, b.Int(0)), x.strAt(s.args[0], s.args[1]))))
		}
		return r
	})
	idx := func(c *xcall) Val {
		x, b := c.x, c.x.b
		r := b.Fresh("idx", "Int")
		var n *Term
		if t := c.t(0); t.sort == "Str" {
			n = x.strLen(t)
		} else {
			n = b.SLen(t)
		}
		x.fact(b.And(b.Ge(r, b.Int(-1)), b.Lt(r, n)))
		return r
	}
	H("strings.IndexAny strings.LastIndexByte bytes.IndexAny bytes.IndexByte strings.IndexRune strings.IndexFunc strings.LastIndexAny", idx)
	H("strings.LastIndex", func(c *xcall) Val {
		x, b := c.x, c.x.b
		r := b.Fresh("idx", "Int")
		x.fact(b.And(b.Ge(r, b.Int(-1)), b.Implies(b.Ge(r, b.Int(0)), b.Le(b.Add(r, x.strLen(c.t(1))), x.strLen(c.t(0))))))
		x.fact(b.Implies(x.strPred("s.contains", c.t(0), c.t(1)), b.Ge(r, b.Int(0))))
		return r
	})
	ufStr := func(n string, shrink bool) hookFn {
		return func(c *xcall) Val {
			x, b := c.x, c.x.b
			if c.t(0).op == "str" {
				switch n {
				case "ToLower":
					return b.Str(strings.ToLower(c.t(0).name))
				case "ToUpper":
					return b.Str(strings.ToUpper(c.t(0).name))
				case "TrimSpace":
					return b.Str(strings.TrimSpace(c.t(0).name))
				}
			}
			var as []*Term
			for i := range c.args {
				as = append(as, c.t(i))
			}
			r := b.App("str."+n+"!", "Str", as...)
			if shrink {
				x.factOnce(b.Le(x.strLen(r), x.strLen(c.t(0))))
			}
			return r
		}
	}
	H("math.Floor", func(c *xcall) Val { return c.x.b.App("floor", "Flt", c.x.term(c.args[0])) })
	H("strings.ToLower", ufStr("ToLower", false))
	H("strings.ToUpper", ufStr("ToUpper", false))
	H("strings.TrimSpace", ufStr("TrimSpace", true))
	H("strings.TrimLeft strings.TrimRight strings.Trim", ufStr("Trim", true))
	H("strings.Repeat", ufStr("Repeat", false))
	H("strings.ReplaceAll", func(c *xcall) Val { return c.x.b.App("s.replaceall", "Str", c.t(0), c.t(1), c.t(2)) })
	H("bytes.ReplaceAll", func(c *xcall) Val {
		x := c.x
		r := x.b.App("s.replaceall", "Str", x.bytesStr(c.st, c.t(0)), x.bytesStr(c.st, c.t(1)), x.bytesStr(c.st, c.t(2)))
		o := x.newObj(c.st, "bytes")
		x.writeCell(c.st, "$bstr", "Str", o, x.b.Int(0), r)
		return x.b.MkSlice(o, x.b.Int(0), x.strLen(r), x.strLen(r))
	})
	H("strings.Replace", func(c *xcall) Val {
		if n, ok := c.t(3).isInt(); ok && n < 0 {
			return c.x.b.App("s.replaceall", "Str", c.t(0), c.t(1), c.t(2))
		}
		return c.x.b.App("str.replace!", "Str", c.t(0), c.t(1), c.t(2), c.t(3))
	})
	H("strings.EqualFold", func(c *xcall) Val {
		b := c.x.b
		l, r := c.t(0), c.t(1)
		if l.op == "str" && r.op == "str" {
			return b.Bool(strings.EqualFold(l.name, r.name))
		}
		if l.id > r.id {
			l, r = r, l
		}
		t := b.App("str.EqualFold!", "Bool", l, r)
		c.x.factOnce(b.Implies(b.Eq(l, r), t))
		c.x.factOnce(b.Implies(t, b.Eq(b.Eq(c.x.strLen(l), b.Int(0)), b.Eq(c.x.strLen(r), b.Int(0)))))
		return t
	})
	H("strings.Count", func(c *xcall) Val {
		b := c.x.b
		t := b.App("str.Count!", "Int", c.t(0), c.t(1))
		c.x.factOnce(b.Ge(t, b.Int(0)))
		return t
	})
	H("strings.ContainsRune strings.ContainsAny", func(c *xcall) Val {
		return c.x.b.App("str.ContainsRune!", "Bool", c.t(0), c.t(1))
	})
	H("strings.Cut", func(c *xcall) Val {
		x, b := c.x, c.x.b
		s, p := c.t(0), c.t(1)
		i := b.App("s.index", "Int", s, p)
		found := b.Ge(i, b.Int(0))
		x.factOnce(b.Eq(found, x.strPred("s.contains", s, p)))
		return &Tuple{[]Val{
			b.Ite(found, x.substr(s, b.Int(0), i), s),
			b.Ite(found, x.substr(s, b.Add(i, x.strLen(p)), b.Sub(x.strLen(s), b.Add(i, x.strLen(p)))), b.Str("")),
			found}}
	})
	H("strings.Split strings.SplitN strings.Fields", func(c *xcall) Val {
		x, b := c.x, c.x.b
		o := x.newObj(c.st, "split")
		n := b.Fresh("nsplit", "Int")
		lo := int64(1)
		if c.name == "strings.Fields" {
			lo = 0
		}
		x.fact(b.Ge(n, b.Int(lo)))
		if c.name == "strings.SplitN" {
			if k, ok := c.t(2).isInt(); ok && k > 0 {
				x.fact(b.Le(n, b.Int(k)))
			}
		}
		x.writeBase(c.st, "string", memSort("Str"), o, b.Fresh("parts", ArrSort("Int", "Str")))
		return b.MkSlice(o, b.Int(0), n, n)
	})
	H("strings.Join", func(c *xcall) Val { return c.x.b.Fresh("joined", "Str") })
	H("strconv.Itoa", func(c *xcall) Val {
		b := c.x.b
		if t := c.t(0); t.op == "int" {
			return b.Str(t.name)
		}
		r := b.App("itoa!", "Str", c.t(0))
		c.x.factOnce(b.Ge(c.x.strLen(r), b.Int(1)))
		return r
	})
	H("strconv.FormatInt strconv.FormatUint", func(c *xcall) Val {
		b := c.x.b
		r := b.App("fmtint!", "Str", c.t(0), c.t(1))
		c.x.factOnce(b.Ge(c.x.strLen(r), b.Int(1)))
		return r
	})
	// errors
	nonNil := func(c *xcall) Val {
		b := c.x.b
		r := b.Fresh("newerr", "Iface")
		c.x.fact(b.Gt(b.ITag(r), b.Int(1)))
		return r
	}
	H("fmt.Errorf errors.New", nonNil)
	H("errors.Is", func(c *xcall) Val {
		b := c.x.b
		r := b.App("errors.Is!", "Bool", c.t(0), c.t(1))
		c.x.factOnce(b.Implies(b.Eq(b.ITag(c.t(0)), b.Int(0)), b.Eq(r, b.Eq(b.ITag(c.t(1)), b.Int(0)))))
		c.x.factOnce(b.Implies(b.Eq(c.t(0), c.t(1)), r))
		return r
	})
	H("fmt.Sprintf fmt.Sprint fmt.Sprintln", func(c *xcall) Val { return c.sprintf() })
	// buffers
	for _, ty := range []string{"bytes.Buffer", "strings.Builder"} {
		ty := ty
		key := ty + "$"
		content := func(c *xcall) (*PtrVal, *Term) {
			p := c.x.ptr(c.args[0], c.ssaArg(0).Type())
			k := key
			if typeKey(p.root) != ty || p.path != "" {
				k = typeKey(p.root) + p.path + "$"
			}
			return p, c.x.readCell(c.st, k, "Str", p.base, p.idx)
		}
		set := func(c *xcall, p *PtrVal, t *Term) {
			k := key
			if typeKey(p.root) != ty || p.path != "" {
				k = typeKey(p.root) + p.path + "$"
			}
			c.x.writeCell(c.st, k, "Str", p.base, p.idx, t)
		}
		nilErr := func(c *xcall) *Term { return c.x.zero("Iface") }
		m := func(n string, f hookFn) { hooks["(*"+ty+")."+n] = f }
		m("WriteString", func(c *xcall) Val {
			p, cur := content(c)
			set(c, p, c.x.cat(cur, c.t(1)))
			return &Tuple{[]Val{c.x.strLen(c.t(1)), nilErr(c)}}
		})
		m("WriteByte", func(c *xcall) Val {
			p, cur := content(c)
			var s *Term
			if n, ok := c.t(1).isInt(); ok {
				s = c.x.b.Str(string([]byte{byte(n)}))
			} else {
				s = c.x.b.App("s.ofbyte", "Str", c.t(1))
				c.x.factOnce(c.x.b.Eq(c.x.strLen(s), c.x.b.Int(1)))
				c.x.factOnce(c.x.b.Eq(c.x.strAt(s, c.x.b.Int(0)), c.t(1)))
			}
			set(c, p, c.x.cat(cur, s))
			return nilErr(c)
		})
		m("WriteRune", func(c *xcall) Val {
			p, cur := content(c)
			var s *Term
			if n, ok := c.t(1).isInt(); ok && n < 128 {
				s = c.x.b.Str(string([]byte{byte(n)}))
			} else {
				s = c.x.b.App("s.ofrune", "Str", c.t(1))
				t := c.t(1)
				b := c.x.b
				c.x.factOnce(b.And(b.Ge(c.x.strLen(s), b.Int(1)), b.Le(c.x.strLen(s), b.Int(4)), b.Implies(b.And(b.Ge(t, b.Int(0)), b.Lt(t, b.Int(128))), b.And(b.Eq(c.x.strLen(s), b.Int(1)), b.Eq(c.x.strAt(s, b.Int(0)), t)))))
			}
			set(c, p, c.x.cat(cur, s))
			return &Tuple{[]Val{c.x.strLen(s), nilErr(c)}}
		})
		m("Write", func(c *xcall) Val {
			p, cur := content(c)
			set(c, p, c.x.cat(cur, c.x.bytesStr(c.st, c.t(1))))
			return &Tuple{[]Val{c.x.b.SLen(c.t(1)), nilErr(c)}}
		})
		m("Reset", func(c *xcall) Val { p, _ := content(c); set(c, p, c.x.b.Str("")); return nil })
		m("Grow", func(c *xcall) Val { return nil })
		m("Len", func(c *xcall) Val { _, cur := content(c); return c.x.strLen(cur) })
		m("String", func(c *xcall) Val { _, cur := content(c); return cur })
		m("Truncate", func(c *xcall) Val {
			p, cur := content(c)
			set(c, p, c.x.substr(cur, c.x.b.Int(0), c.t(1)))
			return nil
		})
		m("Bytes", func(c *xcall) Val {
			_, cur := content(c)
			o := c.x.newObj(c.st, "bytes")
			c.x.writeCell(c.st, "$bstr", "Str", o, c.x.b.Int(0), cur)
			n := c.x.strLen(cur)
			return c.x.b.MkSlice(o, c.x.b.Int(0), n, n)
		})
		m("ReadFrom", func(c *xcall) Val {
			p, cur := content(c)
			e := c.x.b.Fresh("err_ReadFrom", "Iface")
			add := c.readAll(c.t(1), e)
			set(c, p, c.x.cat(cur, add))
			return &Tuple{[]Val{c.x.strLen(add), e}}
		})
		m("WriteTo", func(c *xcall) Val {
			p, cur := content(c)
			e := c.x.b.Fresh("err_WriteTo", "Iface")
			set(c, p, c.x.b.Ite(c.x.b.Eq(c.x.b.ITag(e), c.x.b.Int(0)), c.x.b.Str(""), c.x.b.Fresh("left", "Str")))
			c.iwrite(1, cur, e)
			return &Tuple{[]Val{c.x.b.Fresh("n", "Int"), e}}
		})
		m("Read", func(c *xcall) Val {
			p, _ := content(c)
			set(c, p, c.x.b.Fresh("left", "Str"))
			return &Tuple{[]Val{c.x.b.Fresh("n", "Int"), c.x.b.Fresh("err_Read", "Iface")}}
		})
	}
	H("(*sync.Pool).Get", func(c *xcall) Val {
		x := c.x
		o := x.newObj(c.st, "pooled")
		t := x.w.bufferPtr()
		iv := x.b.Fresh("pooled", "Int")
		x.fact(x.b.Gt(iv, x.b.Int(0)))
		x.boxes[iv] = &PtrVal{base: o, idx: x.b.Int(0), root: deref(t)}
		return x.b.MkIf(x.b.Int(int64(x.w.tag(t))), iv)
	})
	noop := func(c *xcall) Val { return c.defaultResult() }
	H(`(*sync.Pool).Put (*sync.RWMutex).Lock (*sync.RWMutex).RLock (*sync.RWMutex).RUnlock (*sync.RWMutex).Unlock
	   (*sync.Mutex).Lock (*sync.Mutex).Unlock time.Sleep fmt.Print fmt.Println
	   (*text/template.Template).AddParseTree (*text/template.Template).Funcs (*text/template.Template).Lookup (*text/template.Template).Parse`, noop)
	H("(*math/rand.Rand).Intn math/rand.Intn (*math/rand.Rand).Int63n math/rand.Int63n", func(c *xcall) Val {
		x, b := c.x, c.x.b
		n := c.t(len(c.args) - 1)
		pos := b.Gt(n, b.Int(0))
		if x.opt.safety {
			x.oblige("rand-argument-positive", c.in.Pos(), c.g, pos)
		}
		x.assume(c.g, pos)
		r := b.Fresh("rnd", "Int")
		x.assume(c.g, b.And(b.Ge(r, b.Int(0)), b.Lt(r, n)))
		return r
	})
	H("sort.Strings sort.Slice sort.SliceStable sort.Sort sort.Ints", func(c *xcall) Val {
		sv := c.ssaArg(0)
		v := c.args[0]
		if mi, ok := sv.(*ssa.MakeInterface); ok {
			sv = mi.X
			v = c.x.val(c.fr, sv)
		}
		if sl, ok := sv.Type().Underlying().(*types.Slice); ok {
			c.x.sorted(c, c.x.term(v), sl.Elem())
		}
		return nil
	})
	// errgroup, run sequentially
	H("golang.org/x/sync/errgroup.WithContext", func(c *xcall) Val {
		x := c.x
		o := x.newObj(c.st, "errgroup")
		x.writeCell(c.st, "$eg.err", "Iface", o, x.b.Int(0), x.zero("Iface"))
		ctx := x.b.Fresh("ctx", "Iface")
		x.fact(x.b.Gt(x.b.ITag(ctx), x.b.Int(1)))
		return &Tuple{[]Val{x.b.MkPtr(o, x.b.Int(0)), ctx}}
	})
	H("(*golang.org/x/sync/errgroup.Group).Go", func(c *xcall) Val {
		x, b := c.x, c.x.b
		p := x.ptr(c.args[0], c.ssaArg(0).Type())
		fv := x.asFunc(c.args[1])
		if len(fv.alts) == 1 {
			rv, _ := x.callFn(c.fr, c.in, fv.alts[0].fn, nil, fv.alts[0].bind, c.g, &c.st)
			cur := x.readCell(c.st, "$eg.err", "Iface", p.base, p.idx)
			x.writeCell(c.st, "$eg.err", "Iface", p.base, p.idx, b.Ite(b.Eq(b.ITag(cur), b.Int(0)), x.term(rv), cur))
		} else {
			x.warn["errgroup.Go of unknown function"]++
		}
		return nil
	})
	H("(*golang.org/x/sync/errgroup.Group).Wait", func(c *xcall) Val {
		p := c.x.ptr(c.args[0], c.ssaArg(0).Type())
		return c.x.readCell(c.st, "$eg.err", "Iface", p.base, p.idx)
	})
	H("(*golang.org/x/sync/errgroup.Group).SetLimit", noop)
	H("io.Copy", func(c *xcall) Val {
		e := c.x.b.Fresh("err_Copy", "Iface")
		add := c.readAll(c.t(1), e)
		c.iwrite(0, add, e)
		return &Tuple{[]Val{c.x.strLen(add), e}}
	})
	bytesOf := func(c *xcall, s *Term, e Val) Val {
		o := c.x.newObj(c.st, "bytes")
		c.x.writeCell(c.st, "$bstr", "Str", o, c.x.b.Int(0), s)
		n := c.x.strLen(s)
		return &Tuple{[]Val{c.x.b.MkSlice(o, c.x.b.Int(0), n, n), e}}
	}
	H("io.ReadAll", func(c *xcall) Val {
		e := c.x.b.Fresh("err_ReadAll", "Iface")
		return bytesOf(c, c.readAll(c.t(0), e), e)
	})
	H("io/fs.ReadFile", func(c *xcall) Val {
		b := c.x.b
		e := b.Fresh("err_ReadFile", "Iface")
		return bytesOf(c, b.Ite(b.Eq(b.ITag(e), b.Int(0)), b.App("filetext", "Str", c.t(1)), b.Fresh("read", "Str")), e)
	})
	H("io/fs.WalkDir path/filepath.WalkDir", func(c *xcall) Val {
		x, b := c.x, c.x.b
		e := b.Fresh("err_WalkDir", "Iface")
		if fv := x.asFunc(c.args[2]); len(fv.alts) > 0 {
			le := x.callback(c, fv, true)
			if le != nil {
				skip := b.Fresh("skipped", "Bool")
				x.fact(b.Implies(skip, b.Eq(b.ITag(le), b.Int(1)))) // fs.SkipDir / SkipAll sentinels
				return b.Ite(b.And(b.Not(b.Eq(b.ITag(le), b.Int(0))), b.Not(skip)), le, e)
			}
		}
		return e
	})
}

// readAll is what reading r to its end gives: the text of r unless it fails.
func (c *xcall) readAll(r, err *Term) *Term {
	b := c.x.b
	return b.Ite(b.Eq(b.ITag(err), b.Int(0)), b.App("text", "Str", b.IVal(r)), b.Fresh("read", "Str"))
}

// iwrite lets content reach an interface writer that is a known buffer.
func (c *xcall) iwrite(i int, content, err *Term) {
	x := c.x
	sv := c.ssaArg(i)
	if sv == nil {
		return
	}
	if mi, ok := sv.(*ssa.MakeInterface); ok && strings.HasSuffix(typeKey(mi.X.Type()), "bytes.Buffer") {
		p := x.ptr(x.val(c.fr, mi.X), mi.X.Type())
		cur := x.readCell(c.st, "bytes.Buffer$", "Str", p.base, p.idx)
		x.writeCell(c.st, "bytes.Buffer$", "Str", p.base, p.idx, x.cat(cur, content))
	}
}

// sprintf expands %s, %d, %v of strings when the format is constant.
func (c *xcall) sprintf() Val {
	x := c.x
	b := x.b
	if c.name == "fmt.Sprintf" {
		f, ok := constString(c.ssaArg(0))
		vs, ok2 := x.varargs(c.fr, c.ssaArg(1))
		if ok && ok2 {
			r := b.Str("")
			k := 0
			good := true
			for i := 0; i < len(f) && good; {
				j := strings.IndexByte(f[i:], '%')
				if j < 0 {
					r = x.cat(r, b.Str(f[i:]))
					break
				}
				r = x.cat(r, b.Str(f[i:i+j]))
				i += j + 1
				if i >= len(f) {
					good = false
					break
				}
				if f[i] == '%' {
					r = x.cat(r, b.Str("%"))
					i++
					continue
				}
				st := i
				for i < len(f) && !(f[i] >= 'a' && f[i] <= 'z' || f[i] >= 'A' && f[i] <= 'Z') {
					i++
				}
				if i >= len(f) || k >= len(vs) || vs[k] == nil {
					good = false
					break
				}
				verb := f[st : i+1]
				i++
				v := vs[k]
				k++
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				switch {
				case (verb == "s" || verb == "v") && leafSort(v.Type()) == "Str":
					r = x.cat(r, x.term(x.val(c.fr, v)))
				case leafSort(v.Type()) == "Int" && strings.HasSuffix(verb, "d"):
					t := x.term(x.val(c.fr, v))
					a := b.App("fmt:"+verb, "Str", t)
					x.factOnce(b.Ge(x.strLen(a), b.Int(1)))
					r = x.cat(r, a)
				default:
					r = x.cat(r, b.Fresh("fmt_"+verb, "Str"))
				}
			}
			if good {
				return r
			}
		}
	}
	return b.Fresh("sprint", "Str")
}

// sorted havocs the elements of a slice that is being sorted.
func (x *Exec) sorted(c *xcall, s *Term, et types.Type) {
	x.havocElems(c.st, s, et)
}
