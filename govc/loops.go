package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (lc *loopCtx) add(id string, f func(val func(*ssa.Phi) Val, st *State) *Term) {
	lc.cands = append(lc.cands, cand{id: id, eval: f})
}

// autoCands proposes template invariants for the loop with header h.
func (x *Exec) autoCands(fr *Frame, ci *cfgInfo, h *ssa.BasicBlock, lc *loopCtx, id string) {
	b := x.b
	var ints, slices []*ssa.Phi
	for _, p := range lc.phis {
		p := p
		n := p.Name() + ":" + p.Comment
		e := lc.entry[p]
		switch ev := e.(type) {
		case *PtrVal:
			lc.add(id+"|peq|"+n, func(val func(*ssa.Phi) Val, st *State) *Term {
				return b.Eq(x.term(val(p)), x.term(ev))
			})
			lc.add(id+"|pnn|"+n, func(val func(*ssa.Phi) Val, st *State) *Term {
				return b.Not(b.Eq(x.term(val(p)), x.zero("Ptr")))
			})
			continue
		case *FuncVal, *Tuple:
			continue
		}
		et := x.term(e)
		if x.opt.lite && et.sort != "Bool" && et.sort != "Iface" && et.sort != "Ptr" {
			continue
		}
		lc.add(id+"|eq|"+n, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Eq(x.term(val(p)), et) })
		switch et.sort {
		case "Int":
			ints = append(ints, p)
			lc.add(id+"|ge|"+n, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Ge(x.term(val(p)), et) })
			for _, k := range []int64{0, 1} {
				k := k
				lc.add(fmt.Sprintf("%s|ge%d|%s", id, k, n), func(val func(*ssa.Phi) Val, st *State) *Term { return b.Ge(x.term(val(p)), b.Int(k)) })
			}
			for i, bound := range x.bounds(fr, ci, h, p) {
				bound := bound
				lc.add(fmt.Sprintf("%s|le%d|%s", id, i, n), func(val func(*ssa.Phi) Val, st *State) *Term {
					return b.Le(x.term(val(p)), bound(val, st))
				})
				lc.add(fmt.Sprintf("%s|lt%d|%s", id, i, n), func(val func(*ssa.Phi) Val, st *State) *Term {
					return b.Lt(x.term(val(p)), bound(val, st))
				})
			}
		case "Slice":
			slices = append(slices, p)
			lc.add(id+"|own|"+n, func(val func(*ssa.Phi) Val, st *State) *Term {
				sb := b.SBase(x.term(val(p)))
				return b.And(b.Or(b.Eq(sb, b.SBase(et)), b.Ge(sb, lc.entrySt.next)), b.Lt(sb, st.next))
			})
			lc.add(id+"|len|"+n, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Ge(b.SLen(x.term(val(p))), b.SLen(et)) })
			lc.add(id+"|off|"+n, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Eq(b.SOff(x.term(val(p))), b.SOff(et)) })
			lc.add(id+"|end|"+n, func(val func(*ssa.Phi) Val, st *State) *Term {
				v := x.term(val(p))
				return b.And(b.Eq(b.SBase(v), b.SBase(et)), b.Eq(b.Add(b.SOff(v), b.SLen(v)), b.Add(b.SOff(et), b.SLen(et))))
			})
		case "Bool":
			lc.add(id+"|not|"+n, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Not(x.term(val(p))) })
			lc.add(id+"|is|"+n, func(val func(*ssa.Phi) Val, st *State) *Term { return x.term(val(p)) })
		case "Iface":
			lc.add(id+"|nil|"+n, func(val func(*ssa.Phi) Val, st *State) *Term {
				return b.Eq(b.ITag(x.term(val(p))), b.Int(0))
			})
		case "Ptr":
			lc.add(id+"|pnn|"+n, func(val func(*ssa.Phi) Val, st *State) *Term {
				return b.Not(b.Eq(x.term(val(p)), x.zero("Ptr")))
			})
		case "Str":
			lc.add(id+"|slen|"+n, func(val func(*ssa.Phi) Val, st *State) *Term {
				return b.Le(x.strLen(x.term(val(p))), x.strLen(et))
			})
		}
	}
	for i, p := range slices {
		for _, q := range slices[i+1:] {
			p, q := p, q
			lc.add(fmt.Sprintf("%s|leneq|%s|%s", id, p.Name(), q.Name()), func(val func(*ssa.Phi) Val, st *State) *Term {
				return b.Eq(b.SLen(x.term(val(p))), b.SLen(x.term(val(q))))
			})
			lc.add(fmt.Sprintf("%s|baseneq|%s|%s", id, p.Name(), q.Name()), func(val func(*ssa.Phi) Val, st *State) *Term {
				bp, bq := b.SBase(x.term(val(p))), b.SBase(x.term(val(q)))
				return b.Or(b.Not(b.Eq(bp, bq)), b.Eq(bp, b.Int(0)))
			})
		}
		for _, q := range ints {
			p, q := p, q
			lc.add(fmt.Sprintf("%s|leni|%s|%s", id, p.Name(), q.Name()), func(val func(*ssa.Phi) Val, st *State) *Term {
				return b.Eq(b.SLen(x.term(val(p))), x.term(val(q)))
			})
			lc.add(fmt.Sprintf("%s|leni1|%s|%s", id, p.Name(), q.Name()), func(val func(*ssa.Phi) Val, st *State) *Term {
				return b.Eq(b.SLen(x.term(val(p))), b.Add(x.term(val(q)), b.Int(1)))
			})
			lc.add(fmt.Sprintf("%s|lenle|%s|%s", id, p.Name(), q.Name()), func(val func(*ssa.Phi) Val, st *State) *Term {
				return b.Le(b.SLen(x.term(val(p))), b.Add(x.term(val(q)), b.Int(1)))
			})
		}
	}
	for i, p := range ints {
		for j, q := range ints {
			if i == j {
				continue
			}
			p, q := p, q
			lc.add(fmt.Sprintf("%s|ile|%s|%s", id, p.Name(), q.Name()), func(val func(*ssa.Phi) Val, st *State) *Term {
				return b.Le(x.term(val(p)), x.term(val(q)))
			})
			lc.add(fmt.Sprintf("%s|ile1|%s|%s", id, p.Name(), q.Name()), func(val func(*ssa.Phi) Val, st *State) *Term {
				return b.Le(x.term(val(p)), b.Add(x.term(val(q)), b.Int(1)))
			})
		}
	}
	conds := x.fixedConds(fr, ci, h)
	for _, k := range sortedKeys(lc.lf.ghosts) {
		k := k
		s := x.keySort[k]
		e := x.getMem(lc.entrySt, k, s)
		for i, c := range conds {
			c := c
			lc.add(fmt.Sprintf("%s|gif%d|%s", id, i, k), func(val func(*ssa.Phi) Val, st *State) *Term { return b.Implies(c, b.Eq(x.getMem(st, k, s), e)) })
			lc.add(fmt.Sprintf("%s|gifn%d|%s", id, i, k), func(val func(*ssa.Phi) Val, st *State) *Term { return b.Or(c, b.Eq(x.getMem(st, k, s), e)) })
		}
		if s == "Bool" {
			for _, p := range lc.phis {
				if et, ok := lc.entry[p].(*Term); ok && et.sort == "Iface" {
					p := p
					lc.add(id+"|gerr|"+k+"|"+p.Name(), func(val func(*ssa.Phi) Val, st *State) *Term {
						return b.Implies(b.And(x.getMem(st, k, s), b.Not(e)), b.Not(b.Eq(b.ITag(x.term(val(p))), b.Int(0))))
					})
				}
			}
		}
		lc.add(id+"|geq|"+k, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Eq(x.getMem(st, k, s), e) })
		switch s {
		case "Bool":
			lc.add(id+"|gnot|"+k, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Not(x.getMem(st, k, s)) })
			lc.add(id+"|gis|"+k, func(val func(*ssa.Phi) Val, st *State) *Term { return x.getMem(st, k, s) })
		case "Int":
			lc.add(id+"|gge|"+k, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Ge(x.getMem(st, k, s), e) })
			lc.add(id+"|gz|"+k, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Eq(x.getMem(st, k, s), b.Int(0)) })
			for _, p := range lc.phis {
				if et, ok := lc.entry[p].(*Term); ok && et.sort == "Int" && isInteger(p.Type()) {
					p := p
					lc.add(id+"|gdiff|"+k+"|"+p.Name(), func(val func(*ssa.Phi) Val, st *State) *Term {
						return b.Eq(b.Sub(x.term(val(p)), x.getMem(st, k, s)), b.Sub(et, e))
					})
				}
			}
			if strings.HasPrefix(k, "g:iter") {
				for _, bd := range []int64{0} {
					_ = bd
					lc.add(id+"|git|"+k, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Ge(x.getMem(st, k, s), b.Int(0)) })
				}
			}
		}
	}
}

func (x *Exec) slotCands(lc *loopCtx, id, key string, base *Term, no int) {
	b := x.b
	s := x.keySort[key]
	inner := innerSort(s)
	if x.opt.lite && (!strings.HasPrefix(inner, "(Array Int ") || innerSort(inner) != "Bool" && innerSort(inner) != "Iface" && innerSort(inner) != "Ptr") {
		return
	}
	n := fmt.Sprintf("%s@%d", key, no)
	eIn := b.Select(x.getMem(lc.entrySt, key, s), base)
	if !strings.HasPrefix(inner, "(Array Int ") {
		lc.add(id+"|keq|"+n, func(val func(*ssa.Phi) Val, st *State) *Term {
			return b.Eq(b.Select(x.getMem(st, key, s), base), eIn)
		})
		if inner == "Int" {
			lc.add(id+"|kge|"+n, func(val func(*ssa.Phi) Val, st *State) *Term {
				return b.Ge(b.Select(x.getMem(st, key, s), base), eIn)
			})
		}
		return
	}
	leaf := innerSort(inner)
	cell := func(st *State) *Term { return b.Select(b.Select(x.getMem(st, key, s), base), b.Int(0)) }
	e := cell(lc.entrySt)
	lc.add(id+"|ceq|"+n, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Eq(cell(st), e) })
	switch leaf {
	case "Int":
		lc.add(id+"|cge|"+n, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Ge(cell(st), e) })
		lc.add(id+"|cge0|"+n, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Ge(cell(st), b.Int(0)) })
	case "Bool":
		lc.add(id+"|cnot|"+n, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Not(cell(st)) })
		lc.add(id+"|cis|"+n, func(val func(*ssa.Phi) Val, st *State) *Term { return cell(st) })
	case "Iface":
		for _, k := range sortedKeys(lc.lf.ghosts) {
			k := k
			if x.keySort[k] != "Bool" {
				continue
			}
			ge := x.getMem(lc.entrySt, k, "Bool")
			lc.add(id+"|cgerr|"+k+"|"+n, func(val func(*ssa.Phi) Val, st *State) *Term {
				return b.Implies(b.And(x.getMem(st, k, "Bool"), b.Not(ge)), b.Not(b.Eq(b.ITag(cell(st)), b.Int(0))))
			})
		}
		lc.add(id+"|cnil|"+n, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Eq(b.ITag(cell(st)), b.Int(0)) })
	case "Ptr":
		lc.add(id+"|cpnn|"+n, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Not(b.Eq(cell(st), x.zero("Ptr"))) })
	case "Slice":
		lc.add(id+"|cown|"+n, func(val func(*ssa.Phi) Val, st *State) *Term {
			sb := b.SBase(cell(st))
			return b.And(b.Or(b.Eq(sb, b.SBase(e)), b.Ge(sb, lc.entrySt.next)), b.Lt(sb, st.next))
		})
		lc.add(id+"|clen|"+n, func(val func(*ssa.Phi) Val, st *State) *Term { return b.Ge(b.SLen(cell(st)), b.SLen(e)) })
	}
}

// fixedConds finds branch conditions in the loop that do not change while it runs.
func (x *Exec) fixedConds(fr *Frame, ci *cfgInfo, h *ssa.BasicBlock) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	body := ci.body[h]
	fixed := func(v ssa.Value) bool {
		if _, ok := v.(*ssa.Const); ok {
			return true
		}
		if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && body[in.Block()] {
			return false
		}
		_, ok := fr.vals[v]
		return ok
	}
	for _, bl := range h.Parent().Blocks {
		if !body[bl] || len(bl.Instrs) == 0 {
			continue
		}
		f, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		var t *Term
		if fixed(f.Cond) {
			t = x.term(x.val(fr, f.Cond))
		} else if bo, ok := f.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && fixed(bo.X) && fixed(bo.Y) {
			t = x.equal(x.val(fr, bo.X), x.val(fr, bo.Y), bo.X.Type(), bo.Y.Type())
		}
		if t == nil || t.sort != "Bool" || t.op == "true" || t.op == "false" || seen[t] {
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	return out
}

// bounds finds values the phi is compared with.
func (x *Exec) bounds(fr *Frame, ci *cfgInfo, h *ssa.BasicBlock, p *ssa.Phi) []func(val func(*ssa.Phi) Val, st *State) *Term {
	var out []func(val func(*ssa.Phi) Val, st *State) *Term
	body := ci.body[h]
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && in.Block() != nil && body[in.Block()]
	}
	seen := map[ssa.Value]bool{}
	addBound := func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if c, ok := v.(*ssa.Const); ok {
			t := x.term(x.constVal(c))
			if t.sort == "Int" {
				out = append(out, func(val func(*ssa.Phi) Val, st *State) *Term { return t })
			}
			return
		}
		if !inLoop(v) {
			if leafSort(v.Type()) == "Int" {
				if _, ok := fr.vals[v]; ok {
					t := x.term(x.val(fr, v))
					out = append(out, func(val func(*ssa.Phi) Val, st *State) *Term { return t })
				}
			}
			return
		}
		if q, ok := v.(*ssa.Phi); ok && q.Block() == h {
			out = append(out, func(val func(*ssa.Phi) Val, st *State) *Term { return x.term(val(q)) })
			return
		}
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := c.Call.Args[0]
				if q, ok := a.(*ssa.Phi); ok && q.Block() == h {
					out = append(out, func(val func(*ssa.Phi) Val, st *State) *Term { return x.lenTerm(val(q), q.Type(), st) })
				} else if !inLoop(a) {
					if _, ok := fr.vals[a]; ok {
						av := x.val(fr, a)
						out = append(out, func(val func(*ssa.Phi) Val, st *State) *Term { return x.lenTerm(av, a.Type(), st) })
					}
				}
			}
		}
	}
	uses := []ssa.Value{p}
	if refs := p.Referrers(); refs != nil {
		for _, r := range *refs {
			if bo, ok := r.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
				uses = append(uses, bo)
			}
		}
	}
	for _, u := range uses {
		refs := u.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			bo, ok := r.(*ssa.BinOp)
			if !ok || !body[bo.Block()] {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				if bo.X == u {
					addBound(bo.Y)
				} else {
					addBound(bo.X)
				}
			}
		}
	}
	// lengths of strings and slices indexed by the phi
	for _, u := range uses {
		refs := u.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			var c ssa.Value
			switch r := r.(type) {
			case *ssa.IndexAddr:
				c = r.X
			case *ssa.Index:
				c = r.X
			case *ssa.Lookup:
				c = r.X
			case *ssa.Slice:
				c = r.X
			}
			if c == nil || seen[c] {
				continue
			}
			s := leafSort(c.Type())
			if s != "Slice" && s != "Str" {
				continue
			}
			seen[c] = true
			if q, ok := c.(*ssa.Phi); ok && q.Block() == h {
				out = append(out, func(val func(*ssa.Phi) Val, st *State) *Term { return x.lenTerm(val(q), q.Type(), st) })
			} else if !inLoop(c) {
				if _, ok := fr.vals[c]; ok {
					av := x.val(fr, c)
					cc := c
					out = append(out, func(val func(*ssa.Phi) Val, st *State) *Term { return x.lenTerm(av, cc.Type(), st) })
				}
			}
		}
	}
	return out
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
