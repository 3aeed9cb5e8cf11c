package main

import (
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ObligResult struct {
	Name   string            `json:"name"`
	Func   string            `json:"func"`
	In     string            `json:"in,omitempty"`
	Pos    string            `json:"pos"`
	Status string            `json:"status"` // proved, failed, unknown
	Solver string            `json:"solver"`
	Ms     int64             `json:"ms"`
	Model  map[string]string `json:"model,omitempty"`
	Count  int               `json:"count,omitempty"`
}

type FuncResult struct {
	Func     string         `json:"func"`
	Obligs   []ObligResult  `json:"obligations"`
	Invs     int            `json:"invariants"`
	Rounds   int            `json:"rounds"`
	Externs  map[string]int `json:"externs"`
	Assumed  map[string]int `json:"contracts_used"`
	Inlined  map[string]int `json:"inlined"`
	Warn     map[string]int `json:"warnings"`
	Err      string         `json:"error,omitempty"`
	Covered  string         `json:"cover"`
	WallMs   int64          `json:"wall_ms"`
	SolverMs int64          `json:"solver_ms"`
	Seq      map[string]int `json:"-"`
}

func (x *Exec) generate(fn *ssa.Function) {
	x.reset()
	x.topFrame = nil
	b := x.b
	st := &State{mem: map[string]*Term{}, next: b.Sym("next0", "Int")}
	x.fact(b.Ge(st.next, b.Int(1)))
	x.curFn = fn
	name := short(fn.String())
	var params []Val
	for _, p := range fn.Params {
		v := x.build(p.Type(), "", func(l Leaf) *Term {
			s := b.Sym("in:"+p.Name()+l.path, l.sort)
			x.typeFact(s, l.typ, st)
			return s
		})
		params = append(params, v)
	}
	var free []Val
	for i, f := range fn.FreeVars {
		// captured variables are distinct objects of the enclosing function
		o := x.newObj(st, "cap_"+f.Name())
		_ = i
		free = append(free, &PtrVal{base: o, idx: b.Int(0), root: deref(f.Type())})
	}
	pre := st.clone()
	x.preState = pre
	env := x.paramEnv(fn, params, nil, st, st)
	for _, c := range x.spec.Init {
		t, err := env.Bool(c)
		if err != nil {
			x.specIssue(name, err)
			continue
		}
		x.fact(t)
	}
	ct := x.contractFor(fn)
	own := x.spec.Funcs[name]
	if ct == nil && own != nil {
		ct = own
	}
	if ct != nil {
		for _, l := range [][]Clause{ct.Requires, ct.Defs, ct.LocalDefs} {
			for _, c := range l {
				t, err := env.known(c)
				if err != nil {
					x.specIssue(name, err)
					continue
				}
				x.fact(t)
			}
		}
	}
	_, res, rst, rg := x.runFunc(fn, params, free, st, b.True(), name)
	x.curFn = fn
	x.events = append(x.events, Event{kind: "cover", guard: rg, name: "cover return of " + name})
	if ct != nil {
		env := x.paramEnv(fn, params, res, rst, pre)
		x.ghostEffects(name, ct, env, rst)
		for _, c := range ct.Ensures {
			t, err := env.goal(c)
			if err != nil {
				// a postcondition that cannot be stated is not established
				x.specIssue(name, err)
				t = b.False()
			}
			if c.Trivial {
				continue
			}
			x.oblige("ensures "+c.Name, fn.Pos(), rg, t)
		}
	}
}

func tryGenerate(x *Exec, fn *ssa.Function) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if tb, ok := r.(tooBigErr); ok {
				err = fmt.Errorf("%s", tb.s)
				return
			}
			err = fmt.Errorf("internal: %v", r)
			if os.Getenv("GOVC_DEBUG") != "" {
				debug.PrintStack()
			}
		}
	}()
	x.generate(fn)
	return nil
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := w.fset.Position(p)
	rel, err := filepath.Rel(w.dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// VerifyFunc runs the Houdini loop and discharges the obligations of fn.
func VerifyFunc(w *World, spec *Spec, fn *ssa.Function, candMs, obligMs, fallMs int) (res *FuncResult) {
	t0 := time.Now()
	res = &FuncResult{Func: short(fn.String())}
	opt := spec.Opt
	if l := spec.Params["safetyfn"]; l != "" {
		// safety obligations only in the functions whose name contains one of these
		opt.safety = false
		for _, n := range strings.Split(l, ",") {
			if strings.Contains(res.Func, n) {
				opt.safety = true
			}
		}
	}
	x := NewExec(w, spec, opt)
	defer func() {
		res.WallMs = time.Since(t0).Milliseconds()
		res.Externs, res.Assumed, res.Inlined, res.Warn = x.externs, x.assumed, x.inlined, x.warn
	}()
	for round := 0; ; round++ {
		res.Rounds = round + 1
		if late() {
			res.Err = "time limit"
			return
		}
		if round > 60 {
			res.Err = "no fixpoint of loop invariants"
			return
		}
		if err := tryGenerate(x, fn); err != nil {
			res.Err = err.Error()
			return
		}
		if x.rerun {
			continue
		}
		final := x.houdini(res, candMs)
		if !final {
			continue
		}
		x.discharge(res, obligMs, fallMs)
		if c := spec.Funcs[res.Func]; c != nil && c.Determ {
			o := ObligResult{Name: "deterministic", Func: res.Func, Pos: w.pos(fn.Pos()), Status: "proved", Solver: "data flow"}
			if why := w.deterministic(fn); why != "" {
				o.Status, o.Model = "failed", map[string]string{"reason": why}
			}
			res.Obligs = append(res.Obligs, o)
		}
		return
	}
}

// houdini checks all live candidates once; it reports whether all held.
func (x *Exec) houdini(res *FuncResult, candMs int) bool {
	n := 0
	for _, e := range x.events {
		if e.kind == "cand" {
			n++
		}
	}
	live := map[string]bool{}
	for _, e := range x.events {
		if e.kind == "cand" {
			live[e.cand] = true
		}
	}
	res.Invs = len(live)
	if n == 0 {
		return true
	}
	s, err := NewSolver(x.b, x.opt.theory, candMs)
	if err != nil {
		panic(err)
	}
	defer s.Close()
	defer func() { res.SolverMs += s.time.Milliseconds() }()
	ok := true
	before := len(x.deadCand)
	var batch []Event
	flush := func() {
		// drop already dead ones
		var bs []Event
		for _, e := range batch {
			if !x.deadCand[e.cand] {
				bs = append(bs, e)
			}
		}
		batch = nil
		x.checkCands(s, bs, candMs, &ok)
	}
	for _, e := range x.events {
		switch e.kind {
		case "assume":
			if len(batch) > 0 {
				flush()
			}
			s.Assert(e.term)
		case "cand":
			batch = append(batch, e)
		case "oblig":
			// an obligation, once discharged, may be relied upon
		}
	}
	flush()
	if !x.collectRetries(res, before) {
		ok = false
	}
	return ok
}

// retry decides a candidate in a process of its own, in the background.
func (x *Exec) retry(cand, query string) {
	if x.retries == nil {
		x.retries = map[string][]chan freshAnswer{}
	}
	ch := make(chan freshAnswer, 1)
	x.retries[cand] = append(x.retries[cand], ch)
	go func() {
		retrySem <- true
		defer func() { <-retrySem }()
		t0 := time.Now()
		r := Fresh(query, 6000)
		ch <- freshAnswer{r, time.Since(t0)}
	}()
}

type freshAnswer struct {
	r string
	t time.Duration
}

var retrySem = make(chan bool, 6)

// collectRetries waits for the background attempts and drops the candidates
// that were not shown; it reports whether all were. A candidate that is merely
// undecided is kept for another round if other candidates were dropped, since
// the next round relies on fewer of them.
func (x *Exec) collectRetries(res *FuncResult, before int) bool {
	ok := true
	dropped := len(x.deadCand) > before
	var undecided []string
	var names []string
	for c := range x.retries {
		names = append(names, c)
	}
	sort.Strings(names)
	for _, c := range names {
		for _, ch := range x.retries[c] {
			a := <-ch
			res.SolverMs += a.t.Milliseconds()
			if a.r != "unsat" {
				ok = false
				if a.r == "sat" {
					x.deadCand[c] = true
					dropped = true
				} else {
					undecided = append(undecided, c)
				}
				if os.Getenv("GOVC_CANDS") != "" {
					fmt.Fprintln(os.Stderr, "kill", c, "second attempt", a.r, a.t.Milliseconds())
				}
			}
		}
	}
	for _, c := range undecided {
		x.strikes[c]++
		if !dropped || x.strikes[c] > 2 {
			x.deadCand[c] = true
		}
	}
	x.retries = nil
	return ok
}

func (x *Exec) checkCands(s *Solver, bs []Event, ms int, ok *bool) {
	if len(bs) == 0 {
		return
	}
	b := x.b
	neg := func(e Event) *Term { return b.And(e.guard, b.Not(e.term)) }
	if len(bs) == 1 {
		t0 := s.time
		if d := os.Getenv("GOVC_DUMPC"); d != "" && strings.Contains(bs[0].cand, d) {
			r := s.Em.ref(neg(bs[0]))
			os.WriteFile(fmt.Sprintf("/tmp/dumpc.%d.%d.smt2", time.Now().Unix(), s.calls), []byte(s.log.String()+"(assert "+r+")\n(check-sat)\n"), 0o644)
		}
		r := s.Check(neg(bs[0]), ms)
		if r != "unsat" && r != "sat" && strings.Contains(bs[0].cand, "|spec") {
			// a stated invariant gets a second, non-incremental attempt; the
			// answer is collected at the end of the round
			x.retry(bs[0].cand, s.Standalone(neg(bs[0])))
			return
		}
		if r != "unsat" {
			if r != "sat" {
				debugf("cand %s: %s", bs[0].cand, r)
			}
			x.deadCand[bs[0].cand] = true
			if os.Getenv("GOVC_CANDS") != "" {
				fmt.Fprintln(os.Stderr, "kill", bs[0].cand, r, (s.time - t0).Milliseconds())
			}
			*ok = false
		}
		return
	}
	any := b.False()
	for _, e := range bs {
		any = b.Or(any, neg(e))
	}
	r, vals := s.CheckVals(any, negs(bs, neg), ms)
	if r == "unsat" {
		return
	}
	if r == "sat" && vals != nil {
		var rest []Event
		killed := 0
		for i, e := range bs {
			if vals[i] {
				x.deadCand[e.cand] = true
				if os.Getenv("GOVC_CANDS") != "" {
					fmt.Fprintln(os.Stderr, "kill", e.cand)
				}
				*ok = false
				killed++
			} else {
				rest = append(rest, e)
			}
		}
		if killed > 0 {
			x.checkCands(s, rest, ms, ok)
			return
		}
	}
	if len(bs) > 3 {
		h := len(bs) / 2
		x.checkCands(s, bs[:h], ms, ok)
		x.checkCands(s, bs[h:], ms, ok)
		return
	}
	for _, e := range bs {
		x.checkCands(s, []Event{e}, ms, ok)
	}
}

func negs(bs []Event, f func(Event) *Term) []*Term {
	var out []*Term
	for _, e := range bs {
		out = append(out, f(e))
	}
	return out
}

func (x *Exec) discharge(res *FuncResult, obligMs, fallMs int) {
	s, err := NewSolver(x.b, x.opt.theory, obligMs)
	if err != nil {
		panic(err)
	}
	defer s.Close()
	defer func() { res.SolverMs += s.time.Milliseconds() }()
	b := x.b
	seq := map[string]int{}
	for _, e := range x.events {
		switch e.kind {
		case "assume":
			s.Assert(e.term)
		case "cover":
			r := s.Check(e.guard, min(obligMs, 3000))
			res.Covered = r
			if r == "unsat" {
				res.Covered = "unreachable"
			}
		case "oblig":
			o := ObligResult{Name: e.name, Func: res.Func, Pos: x.w.pos(e.pos)}
			if e.fn != res.Func {
				o.In = e.fn
			}
			k := o.Name + "|" + o.In
			seq[k]++
			if seq[k] > 1 {
				o.Count = seq[k]
			}
			t0 := time.Now()
			if late() {
				o.Status, o.Solver = "unknown", "time limit"
				res.Obligs = append(res.Obligs, o)
				continue
			}
			if e.term.isTrue() {
				o.Status, o.Solver = "proved", "simplifier"
			} else {
				q := b.And(e.guard, b.Not(e.term))
				if q.isFalse() {
					o.Status, o.Solver = "proved", "simplifier"
				} else {
					r := s.Check(q, obligMs)
					switch r {
					case "unsat":
						o.Status, o.Solver = "proved", "z3"
					case "sat":
						o.Status, o.Solver = "failed", "z3"
					default:
						if fallMs > 0 {
							r, by := s.Fallback(q, fallMs)
							switch r {
							case "unsat":
								o.Status, o.Solver = "proved", by
							case "sat":
								o.Status, o.Solver = "failed", by
							default:
								o.Status, o.Solver = "unknown", "z3,z3-new,cvc5"
							}
						} else {
							o.Status, o.Solver = "unknown", "z3"
						}
					}
					if o.Status == "proved" {
						s.Assert(b.Not(q))
					} else {
						if d := os.Getenv("GOVC_DUMP"); d != "" {
							os.WriteFile(filepath.Join(d, clean(res.Func+"-"+o.Name)+fmt.Sprint(o.Count)+".smt2"), []byte(s.Standalone(q)), 0o644)
						}
						o.Model = s.Model(q, x.inputSyms(), 3000)
					}
				}
			}
			o.Ms = time.Since(t0).Milliseconds()
			res.Obligs = append(res.Obligs, o)
		}
	}
}

func (x *Exec) inputSyms() []*Term {
	var out []*Term
	for _, t := range x.b.terms {
		if t.op == "sym" && (strings.HasPrefix(t.name, "in_") || strings.HasPrefix(t.name, "err_")) {
			switch t.sort {
			case "Int", "Bool", "Str", "Iface", "Slice", "Ptr":
				out = append(out, t)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) > 60 {
		out = out[:60]
	}
	return out
}

// deadline ends the search for proofs, so that a check always answers.
var deadline time.Time

func late() bool { return !deadline.IsZero() && time.Now().After(deadline) }
