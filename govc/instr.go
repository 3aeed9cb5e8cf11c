package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// instr executes one non-control instruction; it returns a strengthened guard
// when execution may stop inside it.
func (x *Exec) instr(fr *Frame, in ssa.Instruction, g *Term, stp **State) *Term {
	b := x.b
	st := *stp
	switch in := in.(type) {
	case *ssa.Alloc:
		t := deref(in.Type())
		o := x.newObj(st, in.Comment)
		if a, ok := t.Underlying().(*types.Array); ok && (in.Comment == "varargs" || in.Comment == "slicelit" || in.Comment == "makeslice" || a.Len() > maxFlatArray) {
			x.zeroObj(st, o, a.Elem())
			fr.vals[in] = &PtrVal{base: o, idx: b.Int(0), root: t, arr: true}
			return nil
		}
		x.zeroObj(st, o, t)
		fr.vals[in] = &PtrVal{base: o, idx: b.Int(0), root: t}
	case *ssa.FieldAddr:
		p := x.ptr(x.val(fr, in.X), in.X.Type())
		x.nilCheck(p, in.Pos(), g)
		stt := deref(in.X.Type()).Underlying().(*types.Struct)
		fr.vals[in] = &PtrVal{base: p.base, idx: p.idx, root: p.root, path: p.path + "." + stt.Field(in.Field).Name()}
	case *ssa.Field:
		if tu, ok := x.val(fr, in.X).(*Tuple); ok {
			fr.vals[in] = tu.elems[in.Field]
		} else {
			fr.vals[in] = x.freshVal("field", in.Type())
		}
	case *ssa.IndexAddr:
		idx := x.term(x.val(fr, in.Index))
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.term(x.val(fr, in.X))
			x.boundsCheck("index", in.Pos(), g, b.And(b.Ge(idx, b.Int(0)), b.Lt(idx, b.SLen(s))))
			fr.vals[in] = &PtrVal{base: b.SBase(s), idx: b.Add(b.SOff(s), idx), root: u.Elem()}
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			p := x.ptr(x.val(fr, in.X), in.X.Type())
			x.boundsCheck("index", in.Pos(), g, b.And(b.Ge(idx, b.Int(0)), b.Lt(idx, b.Int(a.Len()))))
			if p.arr {
				fr.vals[in] = &PtrVal{base: p.base, idx: b.Add(p.idx, idx), root: a.Elem()}
			} else if n, ok := idx.isInt(); ok && a.Len() <= maxFlatArray {
				fr.vals[in] = &PtrVal{base: p.base, idx: p.idx, root: p.root, path: fmt.Sprintf("%s[%d]", p.path, n)}
			} else {
				x.warn["dynamic index into array"]++
				fr.vals[in] = &PtrVal{base: x.newObj(st, "lostarr"), idx: idx, root: a.Elem()}
			}
		}
	case *ssa.Index:
		idx := x.term(x.val(fr, in.Index))
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.boundsCheck("index", in.Pos(), g, b.And(b.Ge(idx, b.Int(0)), b.Lt(idx, b.Int(u.Len()))))
			if tu, ok := x.val(fr, in.X).(*Tuple); ok {
				if n, ok := idx.isInt(); ok && int(n) < len(tu.elems) && n >= 0 {
					fr.vals[in] = tu.elems[n]
					return nil
				}
				var v Val
				for i := len(tu.elems) - 1; i >= 0; i-- {
					v = x.mergeVal(b.Eq(idx, b.Int(int64(i))), tu.elems[i], v)
				}
				if v != nil {
					fr.vals[in] = v
					return nil
				}
			}
			fr.vals[in] = x.freshVal("aidx", in.Type())
		default:
			s := x.term(x.val(fr, in.X))
			x.boundsCheck("text-index", in.Pos(), g, b.And(b.Ge(idx, b.Int(0)), b.Lt(idx, x.strLen(s))))
			fr.vals[in] = x.strAt(s, idx)
		}
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			idx := x.term(x.val(fr, in.Index))
			s := x.term(x.val(fr, in.X))
			x.boundsCheck("text-index", in.Pos(), g, b.And(b.Ge(idx, b.Int(0)), b.Lt(idx, x.strLen(s))))
			fr.vals[in] = x.strAt(s, idx)
			return nil
		}
		mt := in.X.Type().Underlying().(*types.Map)
		m := x.term(x.val(fr, in.X))
		k := x.key(x.val(fr, in.Index), mt.Key())
		has := b.And(b.Not(b.Eq(m, b.Int(0))), x.mapHas(st, mt, m, k))
		v := x.mapGet(st, mt, m, k)
		v = x.mergeVal(has, v, x.zeroVal(mt.Elem()))
		if in.CommaOk {
			fr.vals[in] = &Tuple{[]Val{v, has}}
		} else {
			fr.vals[in] = v
		}
	case *ssa.Slice:
		x.sliceInstr(fr, in, g, st)
	case *ssa.Store:
		p := x.ptr(x.val(fr, in.Addr), in.Addr.Type())
		x.nilCheck(p, in.Pos(), g)
		t := deref(in.Addr.Type())
		x.store(st, p, t, x.val(fr, in.Val))
		if typeKey(p.root) == "uint8" || typeKey(p.root) == "byte" {
			x.writeCell(st, "$bstr", "Str", p.base, b.Int(0), b.Fresh("bytes", "Str"))
		}
	case *ssa.UnOp:
		x.unop(fr, in, g, st)
	case *ssa.BinOp:
		fr.vals[in] = x.binop(fr, in, g)
	case *ssa.Convert:
		fr.vals[in] = x.convert(fr, in, st, g)
	case *ssa.MultiConvert:
		fr.vals[in] = x.freshVal("conv", in.Type())
	case *ssa.ChangeType:
		v := x.val(fr, in.X)
		if p, ok := v.(*PtrVal); ok && p.path == "" && !p.arr {
			v = x.term(p)
		}
		fr.vals[in] = v
	case *ssa.ChangeInterface:
		fr.vals[in] = x.val(fr, in.X)
	case *ssa.SliceToArrayPointer:
		fr.vals[in] = x.freshVal("s2a", in.Type())
	case *ssa.MakeInterface:
		fr.vals[in] = x.makeIface(x.val(fr, in.X), in.X.Type())
	case *ssa.TypeAssert:
		return x.typeAssert(fr, in, g, st)
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		o := x.newObj(st, "map")
		ks := x.keySortOf(mt.Key())
		x.writeBase(st, mapKey(mt, "dom"), ArrSort("Int", ArrSort(ks, "Bool")), o, b.ConstArr(ArrSort(ks, "Bool"), b.False()))
		x.writeBase(st, mapKey(mt, "len"), ArrSort("Int", "Int"), o, b.Int(0))
		fr.vals[in] = o
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		m := x.term(x.val(fr, in.Map))
		if x.opt.safety {
			x.oblige("nil-map-write", in.Pos(), g, b.Not(b.Eq(m, b.Int(0))))
		}
		k := x.key(x.val(fr, in.Key), mt.Key())
		x.mapPut(st, mt, m, k, x.val(fr, in.Value))
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		ln := x.term(x.val(fr, in.Len))
		cp := x.term(x.val(fr, in.Cap))
		x.boundsCheck("make", in.Pos(), g, b.And(b.Ge(ln, b.Int(0)), b.Le(ln, cp)))
		o := x.newObj(st, "slice")
		x.zeroObj(st, o, et)
		fr.vals[in] = b.MkSlice(o, b.Int(0), ln, cp)
	case *ssa.MakeChan:
		fr.vals[in] = x.newObj(st, "chan")
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bind []Val
		for _, v := range in.Bindings {
			bind = append(bind, x.val(fr, v))
		}
		fr.vals[in] = &FuncVal{alts: []FuncAlt{{b.True(), fn, bind}}}
	case *ssa.Extract:
		if tu, ok := x.val(fr, in.Tuple).(*Tuple); ok && in.Index < len(tu.elems) && tu.elems[in.Index] != nil {
			fr.vals[in] = tu.elems[in.Index]
		} else {
			fr.vals[in] = x.freshVal("ext", in.Type())
		}
	case *ssa.Range:
		fr.vals[in] = x.val(fr, in.X)
		k := fmt.Sprintf("g:iter:%s:%s", fr.id, in.Name())
		fr.iters[in] = k
		x.writeGhost(st, k, b.Int(0))
	case *ssa.Next:
		x.next(fr, in, g, st)
	case *ssa.Select:
		var elems []Val
		tt := in.Type().(*types.Tuple)
		for i := 0; i < tt.Len(); i++ {
			elems = append(elems, x.freshVal("sel", tt.At(i).Type()))
		}
		lo := int64(0)
		if !in.Blocking {
			lo = -1
		}
		c := x.term(elems[0])
		x.fact(b.And(b.Ge(c, b.Int(lo)), b.Lt(c, b.Int(int64(len(in.States))))))
		fr.vals[in] = &Tuple{elems}
	case *ssa.Send:
	case *ssa.Go:
		x.doCall(fr, in, &in.Call, g, stp)
	case *ssa.Call:
		v, ng := x.doCall(fr, in, &in.Call, g, stp)
		fr.vals[in] = v
		return ng
	case *ssa.Defer:
		d := deferred{guard: g, instr: in}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(fr, a))
		}
		if in.Call.IsInvoke() {
			d.recv = x.val(fr, in.Call.Value)
		} else if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
			if f := in.Call.StaticCallee(); f == nil || len(f.FreeVars) > 0 {
				d.fv = x.asFunc(x.val(fr, in.Call.Value))
			} else {
				d.fv = &FuncVal{alts: []FuncAlt{{b.True(), f, nil}}}
			}
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			dg := b.And(g, d.guard)
			if dg.isFalse() {
				continue
			}
			x.curGuard = dg
			s2 := (*stp).clone()
			x.callResolved(fr, d.instr, &d.instr.Call, d.args, d.fv, d.recv, dg, &s2)
			*stp = x.mergeState(d.guard, s2, *stp)
		}
		x.curGuard = g
	default:
		x.warn[fmt.Sprintf("instr %T", in)]++
		if v, ok := in.(ssa.Value); ok {
			fr.vals[v] = x.freshVal("unk", v.Type())
		}
	}
	return nil
}

func (x *Exec) nilCheck(p *PtrVal, pos token.Pos, g *Term) {
	if !x.opt.safety || p.base.alloc || p.base.op == "int" && p.base.name != "0" {
		return
	}
	c := x.b.Not(x.b.Eq(p.base, x.b.Int(0)))
	if !x.opt.nonil {
		x.oblige("nil-deref", pos, g, c)
	}
	x.assume(g, c)
}

func (x *Exec) boundsCheck(name string, pos token.Pos, g, c *Term) {
	if x.opt.safety {
		x.oblige(name, pos, g, c)
	}
	x.assume(g, c) // otherwise the path panics
}

func (x *Exec) unop(fr *Frame, in *ssa.UnOp, g *Term, st *State) {
	b := x.b
	switch in.Op {
	case token.MUL:
		if gl, ok := in.X.(*ssa.Global); ok && gl.Pkg != nil && !strings.HasPrefix(gl.Pkg.Pkg.Path()+"/", repoPrefix) {
			fr.vals[in] = x.build(in.Type(), "", func(l Leaf) *Term {
				s := b.Sym("ext:"+short(gl.String())+l.path, l.sort)
				if l.sort == "Iface" {
					x.factOnce(b.And(b.Eq(b.ITag(s), b.Int(1)), b.Eq(b.IVal(s), b.Int(int64(x.w.globalNum(gl.String())+1000000)))))
				}
				if l.sort == "Ptr" {
					x.factOnce(b.Not(b.Eq(s, x.zero("Ptr"))))
				}
				return s
			})
			return
		}
		p := x.ptr(x.val(fr, in.X), in.X.Type())
		x.nilCheck(p, in.Pos(), g)
		fr.vals[in] = x.load(st, p, in.Type())
		if leafSort(in.Type()) == "Int" {
			if _, ok := in.Type().Underlying().(*types.Signature); ok {
				if t, ok := fr.vals[in].(*Term); ok {
					fv := x.asFunc(t)
					if len(fv.alts) > 0 {
						fr.vals[in] = fv
					}
				}
			}
		}
	case token.NOT:
		fr.vals[in] = b.Not(x.term(x.val(fr, in.X)))
	case token.SUB:
		v := x.term(x.val(fr, in.X))
		if v.sort == "Int" {
			fr.vals[in] = b.Sub(b.Int(0), v)
		} else {
			fr.vals[in] = b.App("fneg", "Flt", v)
		}
	case token.ARROW:
		fr.vals[in] = x.freshVal("recv", in.Type())
	case token.XOR:
		fr.vals[in] = b.Sub(b.Int(-1), x.term(x.val(fr, in.X)))
	default:
		fr.vals[in] = x.freshVal("unop", in.Type())
	}
}

func (x *Exec) binop(fr *Frame, in *ssa.BinOp, g *Term) Val {
	b := x.b
	l, r := x.val(fr, in.X), x.val(fr, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		t := x.equal(l, r, in.X.Type(), in.Y.Type())
		if in.Op == token.NEQ {
			t = b.Not(t)
		}
		return t
	}
	lt, rt := x.term(l), x.term(r)
	switch lt.sort {
	case "Str":
		switch in.Op {
		case token.ADD:
			return x.cat(lt, rt)
		case token.LSS:
			return x.strLt(lt, rt)
		case token.GTR:
			return x.strLt(rt, lt)
		case token.LEQ:
			return b.Not(x.strLt(rt, lt))
		case token.GEQ:
			return b.Not(x.strLt(lt, rt))
		}
	case "Flt":
		switch in.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return b.App("f"+in.Op.String(), "Bool", lt, rt)
		}
		return b.App("f"+in.Op.String(), "Flt", lt, rt)
	case "Int":
		switch in.Op {
		case token.ADD:
			return x.ovf(b.Add(lt, rt), in, g)
		case token.SUB:
			return x.ovf(b.Sub(lt, rt), in, g)
		case token.MUL:
			return x.ovf(b.Mul(lt, rt), in, g)
		case token.LSS:
			return b.Lt(lt, rt)
		case token.LEQ:
			return b.Le(lt, rt)
		case token.GTR:
			return b.Gt(lt, rt)
		case token.GEQ:
			return b.Ge(lt, rt)
		case token.QUO, token.REM:
			nz := b.Not(b.Eq(rt, b.Int(0)))
			if x.opt.safety && !x.opt.nodiv {
				x.oblige("division", in.Pos(), g, nz)
			}
			x.assume(g, nz)
			n, ok := lt.isInt()
			m, ok2 := rt.isInt()
			if ok && ok2 && m != 0 {
				if in.Op == token.QUO {
					return b.Int(n / m)
				}
				return b.Int(n % m)
			}
			// truncated division from Euclidean div
			q := b.Ite(b.Ge(lt, b.Int(0)), b.mk("div", "", "Int", lt, rt), b.Sub(b.Int(0), b.mk("div", "", "Int", b.Sub(b.Int(0), lt), rt)))
			if in.Op == token.QUO {
				return q
			}
			return b.Sub(lt, b.Mul(q, rt))
		case token.SHL:
			if m, ok := rt.isInt(); ok && m < 62 {
				return x.ovf(b.Mul(lt, b.Int(1<<uint(m))), in, g)
			}
		case token.SHR:
			if m, ok := rt.isInt(); ok && m < 62 {
				return b.mk("div", "", "Int", lt, b.Int(1<<uint(m)))
			}
		}
		return b.App("int"+in.Op.String(), "Int", lt, rt)
	case "Bool":
		switch in.Op {
		case token.AND, token.LAND:
			return b.And(lt, rt)
		case token.OR, token.LOR:
			return b.Or(lt, rt)
		}
	}
	return x.freshVal("binop", in.Type())
}

func (x *Exec) ovf(t *Term, in *ssa.BinOp, g *Term) *Term {
	if x.opt.overflow && x.opt.safety && t.op != "int" {
		bt, ok := in.Type().Underlying().(*types.Basic)
		if ok && (bt.Kind() == types.Int || bt.Kind() == types.Int64) {
			c := x.b.And(x.b.Ge(t, x.b.BigInt("-9223372036854775808")), x.b.Le(t, x.b.BigInt("9223372036854775807")))
			x.oblige("overflow", in.Pos(), g, c)
			x.assume(g, c)
		}
	}
	return t
}

func (x *Exec) equal(l, r Val, lt, rt types.Type) *Term {
	b := x.b
	if lf, ok := l.(*FuncVal); ok {
		return x.funcNil(lf)
	}
	if rf, ok := r.(*FuncVal); ok {
		return x.funcNil(rf)
	}
	if tl, ok := l.(*Tuple); ok {
		if tr, ok := r.(*Tuple); ok {
			res := b.True()
			for i := range tl.elems {
				res = b.And(res, x.equal(tl.elems[i], tr.elems[i], nil, nil))
			}
			return res
		}
	}
	a, c := x.term(l), x.term(r)
	if a.sort != c.sort {
		// comparison of interface with concrete value
		if a.sort == "Iface" && rt != nil {
			c = x.term(x.makeIface(r, rt))
		} else if c.sort == "Iface" && lt != nil {
			a = x.term(x.makeIface(l, lt))
		} else {
			return b.Fresh("eq", "Bool")
		}
	}
	switch a.sort {
	case "Slice":
		// only comparison with nil
		if c.op == "mkslice" {
			return b.Eq(b.SBase(a), b.Int(0))
		}
		if a.op == "mkslice" && a.args[0].op == "int" {
			return b.Eq(b.SBase(c), b.Int(0))
		}
	case "Iface":
		if c.op == "mkif" && c.args[0].op == "int" && c.args[0].name == "0" {
			return b.Eq(b.ITag(a), b.Int(0))
		}
		if a.op == "mkif" && a.args[0].op == "int" && a.args[0].name == "0" {
			return b.Eq(b.ITag(c), b.Int(0))
		}
	case "Ptr":
		if c.op == "mkptr" && c.args[0].op == "int" && c.args[0].name == "0" {
			return b.Eq(b.PBase(a), b.Int(0))
		}
		if a.op == "mkptr" && a.args[0].op == "int" && a.args[0].name == "0" {
			return b.Eq(b.PBase(c), b.Int(0))
		}
	}
	return b.Eq(a, c)
}

func (x *Exec) funcNil(f *FuncVal) *Term {
	nonnil := x.b.False()
	for _, a := range f.alts {
		nonnil = x.b.Or(nonnil, a.cond)
	}
	if f.unknown {
		return x.b.And(x.b.Not(nonnil), x.b.Fresh("fnil", "Bool"))
	}
	return x.b.Not(nonnil)
}

func (x *Exec) convert(fr *Frame, in *ssa.Convert, st *State, g *Term) Val {
	b := x.b
	v := x.val(fr, in.X)
	from, to := in.X.Type(), in.Type()
	fs, tsort := leafSort(from), leafSort(to)
	switch {
	case fs == "Int" && tsort == "Int":
		t := x.term(v)
		tb, ok := to.Underlying().(*types.Basic)
		fb, ok2 := from.Underlying().(*types.Basic)
		if ok && ok2 {
			if t.op == "int" {
				if tb.Kind() == types.Uint8 {
					n, _ := t.isInt()
					return b.Int(n & 255)
				}
				return t
			}
			sz := map[types.BasicKind]int{types.Int8: 7, types.Uint8: 8, types.Int16: 15, types.Uint16: 16, types.Int32: 31, types.Uint32: 32, types.Int: 63, types.Int64: 63, types.Uint: 64, types.Uint64: 64, types.Uintptr: 64}
			fsz, tsz := sz[fb.Kind()], sz[tb.Kind()]
			if fb.Kind() == types.Uint8 || fsz <= tsz && (tb.Info()&types.IsUnsigned == 0 || fb.Info()&types.IsUnsigned != 0) {
				return t
			}
			if tb.Kind() == types.Uint8 {
				return b.mk("mod", "", "Int", t, b.Int(256))
			}
			// narrowing: exact when in range
			r := b.Fresh("narrow", "Int")
			x.typeFact(r, to, nil)
			lim := b.BigInt(map[int]string{7: "127", 15: "32767", 16: "65535", 31: "2147483647", 32: "4294967295", 63: "9223372036854775807", 64: "18446744073709551615"}[tsz])
			lo := b.Int(0)
			if tb.Info()&types.IsUnsigned == 0 {
				lo = b.Sub(b.Sub(b.Int(0), lim), b.Int(1))
				if tsz == 63 {
					lo = b.BigInt("-9223372036854775808")
				}
			}
			x.assume(g, b.Implies(b.And(b.Ge(t, lo), b.Le(t, lim)), b.Eq(r, t)))
			return r
		}
		return t
	case fs == "Str" && tsort == "Str":
		return v
	case fs == "Str" && tsort == "Slice":
		s := x.term(v)
		o := x.newObj(st, "bytes")
		n := x.strLen(s)
		x.writeCell(st, "$bstr", "Str", o, b.Int(0), s)
		et := to.Underlying().(*types.Slice).Elem()
		if et.Underlying().(*types.Basic).Kind() == types.Uint8 {
			return b.MkSlice(o, b.Int(0), n, n)
		}
		rn := b.Fresh("runes", "Int")
		x.fact(b.And(b.Ge(rn, b.Int(0)), b.Le(rn, n)))
		return b.MkSlice(o, b.Int(0), rn, rn)
	case fs == "Slice" && tsort == "Str":
		s := x.term(v)
		if from.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
			return x.bytesStr(st, s)
		}
		return b.Fresh("ofrunes", "Str")
	case fs == "Int" && tsort == "Str":
		t := x.term(v)
		r := b.App("s.ofrune", "Str", t)
		x.factOnce(b.And(b.Ge(x.strLen(r), b.Int(1)), b.Le(x.strLen(r), b.Int(4)), b.Implies(b.And(b.Ge(t, b.Int(0)), b.Lt(t, b.Int(128))), b.And(b.Eq(x.strLen(r), b.Int(1)), b.Eq(x.strAt(r, b.Int(0)), t)))))
		return r
	case fs == "Int" && tsort == "Flt":
		return b.App("i2f", "Flt", x.term(v))
	case fs == "Flt" && tsort == "Int":
		r := b.Fresh("f2i", "Int")
		x.typeFact(r, to, nil)
		t := x.term(v)
		if t.op == "app" && t.name == "floor" {
			t = t.args[0]
		}
		if t.op == "app" && t.name == "i2f" {
			return t.args[0]
		}
		if t.op == "app" && t.name == "f/" && t.args[0].op == "app" && t.args[0].name == "i2f" && t.args[1].op == "app" && t.args[1].name == "i2f" {
			// the quotient of small positive integers rounds to the right side of
			// every integer
			p, q := t.args[0].args[0], t.args[1].args[0]
			x.fact(b.Implies(b.And(b.Ge(p, b.Int(0)), b.Le(p, b.Int(1<<31)), b.Gt(q, b.Int(0))),
				b.And(b.Ge(r, b.Int(0)), b.Le(b.Mul(r, q), p), b.Gt(b.Add(b.Mul(r, q), q), p))))
		}
		return r
	case fs == "Flt" && tsort == "Flt":
		return v
	case fs == "Ptr" || tsort == "Ptr":
		return x.freshVal("cptr", to)
	}
	return x.freshVal("conv", to)
}

// bytesStr is the text of a byte slice.
func (x *Exec) bytesStr(st *State, s *Term) *Term {
	b := x.b
	c := x.readCell(st, "$bstr", "Str", b.SBase(s), b.Int(0))
	if off, ok := b.SOff(s).isInt(); ok && off == 0 && b.SLen(s) == x.strLen(c) {
		return c
	}
	return x.b.Ite(b.Eq(b.SLen(s), b.Int(0)), b.Str(""), x.substr(c, b.SOff(s), b.SLen(s)))
}

func (x *Exec) makeIface(v Val, t types.Type) *Term {
	b := x.b
	if _, ok := t.Underlying().(*types.Interface); ok {
		return x.term(v)
	}
	tag := b.Int(int64(x.w.tag(t)))
	var iv *Term
	switch vv := v.(type) {
	case *Tuple, *FuncVal:
		iv = b.Fresh("box", "Int")
		x.fact(b.Gt(iv, b.Int(0)))
		x.boxes[iv] = vv
		return b.MkIf(tag, iv)
	case *PtrVal:
		tt := x.term(vv)
		iv = b.App("box:"+typeKey(t), "Int", tt)
		x.boxes[iv] = vv
		x.factOnce(b.Eq(b.App("unbox:"+typeKey(t), tt.sort, iv), tt))
		return b.MkIf(tag, iv)
	default:
		tt := x.term(v)
		iv = b.App("box:"+typeKey(t), "Int", tt)
		// boxing is injective
		x.factOnce(b.Eq(b.App("unbox:"+typeKey(t), tt.sort, iv), tt))
		return b.MkIf(tag, iv)
	}
}

func (x *Exec) unbox(iv *Term, t types.Type) Val {
	if v, ok := x.boxes[iv]; ok {
		return v
	}
	if iv.op == "app" && iv.name == "box:"+typeKey(t) {
		return iv.args[0]
	}
	if iv.op == "ite" {
		l, r := x.unbox(iv.args[1], t), x.unbox(iv.args[2], t)
		return x.mergeVal(iv.args[0], l, r)
	}
	if leafSort(t) == "?" {
		return x.freshVal("unbox", t)
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return &FuncVal{unknown: true}
	}
	r := x.b.App("unbox:"+typeKey(t), leafSort(t), iv)
	x.typeFact(r, t, nil)
	return r
}

// implTerm says whether values of the tagged type have the methods of the
// interface type; known for concrete types.
func (x *Exec) implTerm(iface string, tag *Term) *Term {
	b := x.b
	if tag.op == "ite" {
		return b.Ite(tag.args[0], x.implTerm(iface, tag.args[1]), x.implTerm(iface, tag.args[2]))
	}
	if ct := x.w.typeOfTag(tag); ct != nil {
		if it := x.w.typeByName(iface); it != nil {
			if i, isI := it.Underlying().(*types.Interface); isI {
				return b.Bool(types.Implements(ct, i))
			}
		}
	}
	return b.App("impl:"+iface, "Bool", tag)
}

func (x *Exec) typeAssert(fr *Frame, in *ssa.TypeAssert, g *Term, st *State) *Term {
	b := x.b
	v := x.term(x.val(fr, in.X))
	var ok *Term
	var res Val
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		ok = b.And(b.Not(b.Eq(b.ITag(v), b.Int(0))), x.implTerm(typeKey(in.AssertedType), b.ITag(v)))
		res = v
	} else {
		ok = b.Eq(b.ITag(v), b.Int(int64(x.w.tag(in.AssertedType))))
		res = x.unbox(b.IVal(v), in.AssertedType)
	}
	if in.CommaOk {
		z := x.zeroVal(in.AssertedType)
		if _, isF := res.(*FuncVal); isF {
			fr.vals[in] = &Tuple{[]Val{res, ok}}
			return nil
		}
		if p, isP := res.(*PtrVal); isP {
			_ = p
			res = x.term(p)
		}
		if tz, isT := res.(*Tuple); isT {
			_ = tz
		}
		fr.vals[in] = &Tuple{[]Val{x.mergeVal(ok, res, z), ok}}
		return nil
	}
	if x.opt.safety {
		x.oblige("type-assertion", in.Pos(), g, ok)
	}
	x.assume(g, ok)
	fr.vals[in] = res
	return nil
}

func (x *Exec) sliceInstr(fr *Frame, in *ssa.Slice, g *Term, st *State) {
	b := x.b
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = x.term(x.val(fr, in.Low))
	} else {
		lo = b.Int(0)
	}
	if in.High != nil {
		hi = x.term(x.val(fr, in.High))
	}
	if in.Max != nil {
		mx = x.term(x.val(fr, in.Max))
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		s := x.term(x.val(fr, in.X))
		n := x.strLen(s)
		if hi == nil {
			hi = n
		}
		x.boundsCheck("text-slice", in.Pos(), g, b.And(b.Ge(lo, b.Int(0)), b.Le(lo, hi), b.Le(hi, n)))
		fr.vals[in] = x.substr(s, lo, b.Sub(hi, lo))
	case *types.Slice:
		s := x.term(x.val(fr, in.X))
		if hi == nil {
			hi = b.SLen(s)
		}
		cp := b.SCap(s)
		c := b.And(b.Ge(lo, b.Int(0)), b.Le(lo, hi))
		if mx == nil {
			c = b.And(c, b.Le(hi, cp))
			mx = cp
		} else {
			c = b.And(c, b.Le(hi, mx), b.Le(mx, cp))
		}
		x.boundsCheck("slice", in.Pos(), g, c)
		fr.vals[in] = b.MkSlice(b.SBase(s), b.Add(b.SOff(s), lo), b.Sub(hi, lo), b.Sub(mx, lo))
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p := x.ptr(x.val(fr, in.X), in.X.Type())
		if hi == nil {
			hi = b.Int(a.Len())
		}
		if !p.arr {
			// copy of a flattened array: contents tracked at creation only
			o := x.newObj(st, "arrslice")
			if a.Len() <= maxFlatArray {
				v := x.load(st, p, u.Elem()).(*Tuple)
				for i, e := range v.elems {
					x.store(st, &PtrVal{base: o, idx: b.Int(int64(i)), root: a.Elem()}, a.Elem(), e)
				}
			}
			x.warn["slice of array variable"]++
			fr.vals[in] = b.MkSlice(o, lo, b.Sub(hi, lo), b.Sub(b.Int(a.Len()), lo))
			return
		}
		fr.vals[in] = b.MkSlice(p.base, b.Add(p.idx, lo), b.Sub(hi, lo), b.Sub(b.Int(a.Len()), lo))
	}
}

func mapKey(mt *types.Map, part string) string {
	return "map:" + typeKey(mt.Key()) + "=>" + typeKey(mt.Elem()) + ":" + part
}

func (x *Exec) keySortOf(t types.Type) string {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		var ss []string
		for _, l := range x.ts.flatten(t) {
			ss = append(ss, l.sort)
		}
		return "Tup<" + strings.Join(ss, ",") + ">"
	}
	return leafSort(t)
}

func (x *Exec) key(v Val, t types.Type) *Term {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return x.b.mk("mktup", "", x.keySortOf(t), x.leaves(v, t)...)
	}
	return x.term(v)
}

func (x *Exec) mapHas(st *State, mt *types.Map, m, k *Term) *Term {
	ks := x.keySortOf(mt.Key())
	d := x.getMem(st, mapKey(mt, "dom"), ArrSort("Int", ArrSort(ks, "Bool")))
	return x.b.Select(x.b.Select(d, m), k)
}

func (x *Exec) mapGet(st *State, mt *types.Map, m, k *Term) Val {
	ks := x.keySortOf(mt.Key())
	return x.build(mt.Elem(), "", func(l Leaf) *Term {
		a := x.getMem(st, mapKey(mt, "val"+l.path), ArrSort("Int", ArrSort(ks, l.sort)))
		r := x.b.Select(x.b.Select(a, m), k)
		x.typeFact(r, l.typ, st)
		return r
	})
}

func (x *Exec) mapPut(st *State, mt *types.Map, m, k *Term, v Val) {
	b := x.b
	ks := x.keySortOf(mt.Key())
	dk := mapKey(mt, "dom")
	ds := ArrSort("Int", ArrSort(ks, "Bool"))
	had := x.mapHas(st, mt, m, k)
	x.writeBase(st, dk, ds, m, b.Store(b.Select(x.getMem(st, dk, ds), m), k, b.True()))
	lk := mapKey(mt, "len")
	ls := ArrSort("Int", "Int")
	ln := b.Select(x.getMem(st, lk, ls), m)
	x.writeBase(st, lk, ls, m, b.Ite(had, ln, b.Add(ln, b.Int(1))))
	if fv, ok := v.(*FuncVal); ok {
		id := b.Fresh("fnv", "Int")
		x.funcs[id] = fv
		v = id
	}
	lv := x.leaves(v, mt.Elem())
	for i, l := range x.ts.flatten(mt.Elem()) {
		vk := mapKey(mt, "val"+l.path)
		vs := ArrSort("Int", ArrSort(ks, l.sort))
		x.writeBase(st, vk, vs, m, b.Store(b.Select(x.getMem(st, vk, vs), m), k, lv[i]))
	}
}

func (x *Exec) next(fr *Frame, in *ssa.Next, g *Term, st *State) {
	b := x.b
	rng := in.Iter.(*ssa.Range)
	k := fr.iters[rng]
	if k == "" {
		k = fmt.Sprintf("g:iter:%s:%s", fr.id, rng.Name())
	}
	pos := x.getMem(st, k, "Int")
	if in.IsString {
		s := x.term(x.val(fr, rng.X))
		ok := b.Lt(pos, x.strLen(s))
		r := b.Fresh("rune", "Int")
		w := b.Fresh("w", "Int")
		c := x.strAt(s, pos)
		x.assume(g, b.Implies(ok, b.And(b.Ge(pos, b.Int(0)), b.Ge(w, b.Int(1)), b.Le(w, b.Int(4)), b.Le(b.Add(pos, w), x.strLen(s)),
			b.Ge(r, b.Int(0)), b.Le(r, b.Int(1114111)),
			b.Implies(b.Lt(c, b.Int(128)), b.And(b.Eq(r, c), b.Eq(w, b.Int(1)))),
			b.Implies(b.Ge(c, b.Int(128)), b.Ge(r, b.Int(128))))))
		x.writeGhost(st, k, b.Ite(ok, b.Add(pos, w), pos))
		fr.vals[in] = &Tuple{[]Val{ok, pos, r}}
		return
	}
	mt := rng.X.Type().Underlying().(*types.Map)
	m := x.term(x.val(fr, rng.X))
	ok := b.Fresh("more", "Bool")
	kv := x.freshVal("mk", mt.Key())
	has := x.mapHas(st, mt, m, x.key(kv, mt.Key()))
	x.assume(g, b.Implies(ok, b.And(has, b.Not(b.Eq(m, b.Int(0))))))
	x.writeGhost(st, k, b.Add(pos, b.Int(1)))
	v := x.mapGet(st, mt, m, x.key(kv, mt.Key()))
	fr.vals[in] = &Tuple{[]Val{ok, kv, v}}
}

func constString(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// ---- strings ----

func (x *Exec) strLen(s *Term) *Term {
	if s.op == "str" {
		return x.b.Int(int64(len(s.name)))
	}
	if s.op == "app" && s.name == "s.cat" {
		return x.b.Add(x.strLen(s.args[0]), x.strLen(s.args[1]))
	}
	if s.op == "ite" {
		return x.b.Ite(s.args[0], x.strLen(s.args[1]), x.strLen(s.args[2]))
	}
	return x.b.App("s.len", "Int", s)
}

func (x *Exec) strAt(s, i *Term) *Term {
	if s.op == "str" {
		if n, ok := i.isInt(); ok && n >= 0 && int(n) < len(s.name) {
			return x.b.Int(int64(s.name[n]))
		}
	}
	return x.b.App("s.at", "Int", s, i)
}

func (x *Exec) cat(a, c *Term) *Term {
	if a.op == "str" && c.op == "str" {
		return x.b.Str(a.name + c.name)
	}
	if a.op == "str" && a.name == "" {
		return c
	}
	if c.op == "str" && c.name == "" {
		return a
	}
	if c.op == "str" && a.op == "app" && a.name == "s.cat" && a.args[1].op == "str" {
		return x.b.App("s.cat", "Str", a.args[0], x.b.Str(a.args[1].name+c.name))
	}
	if c.op == "app" && c.name == "s.cat" {
		return x.cat(x.cat(a, c.args[0]), c.args[1])
	}
	return x.b.App("s.cat", "Str", a, c)
}

func (x *Exec) substr(s, off, n *Term) *Term {
	b := x.b
	if o, ok := off.isInt(); ok && o == 0 && n == x.strLen(s) {
		return s
	}
	if k, ok := n.isInt(); ok && k == 0 {
		return b.Str("")
	}
	if s.op == "str" {
		o, ok := off.isInt()
		k, ok2 := n.isInt()
		if ok && ok2 && o >= 0 && k >= 0 && int(o+k) <= len(s.name) {
			return b.Str(s.name[o : o+k])
		}
	}
	return b.App("s.sub", "Str", s, off, n)
}

func (x *Exec) strLt(a, c *Term) *Term {
	if a.op == "str" && c.op == "str" {
		return x.b.Bool(a.name < c.name)
	}
	if a == c {
		return x.b.False()
	}
	return x.b.App("s.lt", "Bool", a, c)
}

func (x *Exec) strPred(op string, s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		switch op {
		case "s.prefix":
			return x.b.Bool(strings.HasPrefix(s.name, p.name))
		case "s.suffix":
			return x.b.Bool(strings.HasSuffix(s.name, p.name))
		case "s.contains":
			return x.b.Bool(strings.Contains(s.name, p.name))
		}
	}
	if p.op == "str" && p.name == "" {
		return x.b.True()
	}
	if s.op == "ite" && p.op == "str" {
		return x.b.Ite(s.args[0], x.strPred(op, s.args[1], p), x.strPred(op, s.args[2], p))
	}
	if p.op == "str" && s.op == "app" && s.name == "s.cat" {
		if op == "s.suffix" && s.args[1].op == "ite" {
			return x.b.Ite(s.args[1].args[0], x.strPred(op, x.cat(s.args[0], s.args[1].args[1]), p), x.strPred(op, x.cat(s.args[0], s.args[1].args[2]), p))
		}
		if op == "s.suffix" && s.args[1].op == "str" {
			if strings.HasSuffix(s.args[1].name, p.name) {
				return x.b.True()
			}
			if len(s.args[1].name) >= len(p.name) {
				return x.b.False()
			}
		}
		if op == "s.prefix" {
			l := s
			for l.op == "app" && l.name == "s.cat" {
				l = l.args[0]
			}
			if l.op == "str" {
				if strings.HasPrefix(l.name, p.name) {
					return x.b.True()
				}
				if len(l.name) >= len(p.name) {
					return x.b.False()
				}
			}
		}
	}
	return x.b.App(op, "Bool", s, p)
}

func (x *Exec) lenTerm(v Val, t types.Type, st *State) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return x.strLen(x.term(v))
	case *types.Slice:
		return x.b.SLen(x.term(v))
	case *types.Array:
		return x.b.Int(u.Len())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return x.b.Int(a.Len())
		}
	case *types.Map:
		m := x.term(v)
		l := x.b.Select(x.getMem(st, mapKey(u, "len"), ArrSort("Int", "Int")), m)
		x.fact(x.b.Ge(l, x.b.Int(0)))
		return x.b.Ite(x.b.Eq(m, x.b.Int(0)), x.b.Int(0), l)
	}
	r := x.b.Fresh("len", "Int")
	x.fact(x.b.Ge(r, x.b.Int(0)))
	return r
}
