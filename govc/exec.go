package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one step of the verification condition of a function.
type Event struct {
	kind  string // "assume", "oblig", "cand", "cover"
	term  *Term  // to assume, or to prove
	guard *Term
	name  string
	pos   token.Pos
	cand  string
	fn    string
}

type Options struct {
	safety   bool // generate obligations for run-time panics
	overflow bool
	nonil    bool // nil pointers are not part of the property
	nodiv    bool // division by zero is not part of the property
	textonly bool // of the safety obligations, only those about texts
	theory   bool // SMT string theory
	noquant  bool // no quantified frame axioms
	lite     bool // only ghost/error/bool loop invariants are inferred
	property string
}

type wlog struct {
	keys map[string]map[*Term]bool // key -> bases (nil base = ghost)
	mark int
}

// loopFrame is an active loop whose modified set is being relied upon.
type loopFrame struct {
	id     string
	mark   int
	next   *Term // allocation counter at entry
	inv    map[string]map[*Term]bool
	framed map[string]bool // keys with a "fresh or listed" frame
	all    map[string]bool // keys fully havoc'd
	ghosts map[string]bool
}

type Exec struct {
	measured   map[any]*Term // measures of texts already computed
	w          *World
	b          *TermBank
	ts         *Types
	opt        Options
	spec       *Spec
	events     []Event
	mute       int
	init0      map[string]*Term
	initPrefix string
	keySort    map[string]string
	interior   map[*Term]*PtrVal
	funcs      map[*Term]*FuncVal
	boxes      map[*Term]Val
	factSeen   map[*Term]bool
	logs       []*wlog
	loops      []*loopFrame
	loopKeys   map[string]map[string]bool
	deadCand   map[string]bool
	specMode   string // "assume" or "goal" while a clause is evaluated
	wits       int
	witNames   map[string]bool
	strikes    map[string]int // rounds in which a candidate stayed undecided
	retries    map[string][]chan freshAnswer
	forceAll   map[string]bool
	rerun      bool
	stack      []*ssa.Function
	top        *ssa.Function
	frames     []*Frame
	topFrame   *Frame
	summaries  map[*ssa.Function]*Summary
	warn       map[string]int
	externs    map[string]int
	assumed    map[string]int // contracts of repo callees used
	inlined    map[string]int
	curGuard   *Term
	curFn      *ssa.Function
	steps      int
	tooBig     bool
	ghostInit  map[string]*Term
	preState   *State
	usedSpec   map[string]bool
	closures   map[*ssa.Function]bool
	candList   map[string]bool
	obligSeq   map[string]int
	muteStack  []int
}

type tooBigErr struct{ s string }

func NewExec(w *World, spec *Spec, opt Options) *Exec {
	x := &Exec{w: w, b: NewBank(), ts: &Types{leafCache: map[types.Type][]Leaf{}}, opt: opt, spec: spec,
		loopKeys: map[string]map[string]bool{}, witNames: map[string]bool{}, strikes: map[string]int{}, deadCand: map[string]bool{}, forceAll: map[string]bool{}}
	x.reset()
	return x
}

// reset clears everything but the knowledge kept between Houdini rounds.
func (x *Exec) reset() {
	x.b = NewBank()
	x.events = nil
	x.init0 = map[string]*Term{}
	x.keySort = map[string]string{}
	x.interior = map[*Term]*PtrVal{}
	x.funcs = map[*Term]*FuncVal{}
	x.boxes = map[*Term]Val{}
	x.factSeen = map[*Term]bool{}
	x.logs = nil
	x.loops = nil
	x.rerun = false
	x.stack = nil
	x.summaries = map[*ssa.Function]*Summary{}
	x.warn = map[string]int{}
	x.externs = map[string]int{}
	x.assumed = map[string]int{}
	x.inlined = map[string]int{}
	x.curGuard = x.b.True()
	x.steps = 0
	x.mute = 0
	x.usedSpec = map[string]bool{}
	x.closures = map[*ssa.Function]bool{}
	x.candList = map[string]bool{}
	x.obligSeq = map[string]int{}
}

func (x *Exec) fact(t *Term) {
	if t.isTrue() || x.mute > 0 || t.bound || x.factSeen[t] {
		return
	}
	x.factSeen[t] = true
	x.events = append(x.events, Event{kind: "assume", term: t})
}
func (x *Exec) factOnce(t *Term) { x.fact(t) }

func (x *Exec) assume(g, t *Term) {
	if x.mute > 0 {
		return
	}
	x.fact(x.b.Implies(g, t))
}

func (x *Exec) oblige(name string, pos token.Pos, g, t *Term) {
	if x.opt.textonly {
		switch name {
		case "nil-interface-call", "no-panic", "nil-map-write", "nil-deref", "division", "type-assertion", "index", "slice", "make":
			return
		}
	}
	if x.mute > 0 {
		return
	}
	fn := ""
	if x.curFn != nil {
		fn = short(x.curFn.String())
	}
	if t.isTrue() || g.isFalse() {
		// trivially discharged; still counted
		x.events = append(x.events, Event{kind: "oblig", term: x.b.True(), guard: g, name: name, pos: pos, fn: fn})
		return
	}
	x.events = append(x.events, Event{kind: "oblig", term: t, guard: g, name: name, pos: pos, fn: fn})
}

// inMode evaluates a clause that is relied on or is to be shown.
func (x *Exec) inMode(mode string, f func() *Term) *Term {
	old := x.specMode
	x.specMode = mode
	defer func() { x.specMode = old }()
	return f()
}

func (x *Exec) candidate(id string, g, t *Term) {
	if x.mute > 0 || x.deadCand[id] {
		return
	}
	if t.isTrue() || g.isFalse() {
		return
	}
	x.events = append(x.events, Event{kind: "cand", term: t, guard: g, cand: id, name: id})
}

func (x *Exec) logWrite(st *State, key string, base *Term) {
	for _, l := range x.logs {
		m := l.keys[key]
		if m == nil {
			m = map[*Term]bool{}
			l.keys[key] = m
		}
		if base == nil {
			m[nil] = true
			continue
		}
		for _, b := range iteLeaves(base, nil) {
			m[b] = true
		}
	}
	if x.mute > 0 {
		return
	}
	for _, lf := range x.loops {
		if base == nil {
			if !lf.ghosts[key] {
				x.noteKey(lf.id, key)
			}
			continue
		}
		if lf.all[key] {
			continue
		}
		for _, b := range iteLeaves(base, nil) {
			if b.alloc && b.maxSym > lf.mark {
				continue
			}
			if lf.inv[key] != nil && lf.inv[key][b] {
				continue
			}
			if lf.framed[key] {
				c := x.b.Ge(b, lf.next)
				for ib := range lf.inv[key] {
					c = x.b.Or(c, x.b.Eq(b, ib))
				}
				g := x.curGuard
				if cond := iteCond(x.b, base, b); cond != nil {
					g = x.b.And(g, cond)
				}
				x.candidate(lf.id+"|frame|"+key, g, c)
				continue
			}
			x.noteKey(lf.id, key)
		}
	}
}

// iteCond gives the condition under which an ite tree evaluates to leaf.
func iteCond(b *TermBank, t, leaf *Term) *Term {
	if t == leaf {
		return b.True()
	}
	if t.op != "ite" {
		return b.False()
	}
	return b.Or(b.And(t.args[0], iteCond(b, t.args[1], leaf)), b.And(b.Not(t.args[0]), iteCond(b, t.args[2], leaf)))
}

func iteLeaves(t *Term, out []*Term) []*Term {
	if t.op == "ite" {
		out = iteLeaves(t.args[1], out)
		return iteLeaves(t.args[2], out)
	}
	for _, o := range out {
		if o == t {
			return out
		}
	}
	return append(out, t)
}

func (x *Exec) noteKey(id, key string) {
	if x.loopKeys[id] == nil {
		x.loopKeys[id] = map[string]bool{}
	}
	if !x.loopKeys[id][key] || !x.forceAll[id+"|"+key] {
		x.loopKeys[id][key] = true
		x.forceAll[id+"|"+key] = true
		x.rerun = true
	}
}

type edge struct {
	from  *ssa.BasicBlock
	guard *Term
	st    *State
}

type deferred struct {
	guard *Term
	instr *ssa.Defer
	args  []Val
	fv    *FuncVal
	recv  Val
}

type Frame struct {
	fn      *ssa.Function
	vals    map[ssa.Value]Val
	params  []Val
	free    []Val
	in      map[*ssa.BasicBlock][]edge
	defers  []deferred
	rets    []retEdge
	id      string
	panics  []edge
	iters   map[ssa.Value]string
	entrySt *State
	loopAt  map[*ssa.BasicBlock]*loopFrame
	loopCtx map[*ssa.BasicBlock]*loopCtx
	names   map[string][]ssa.Value
	ctx     *Frame // the frame whose contract speaks about the loops of this one
}

type retEdge struct {
	guard *Term
	vals  []Val
	st    *State
	pos   token.Pos
}

type loopCtx struct {
	lf      *loopFrame
	entryG  *Term
	entrySt *State // state before havoc
	headSt  *State // state after havoc
	phis    []*ssa.Phi
	entry   map[*ssa.Phi]Val
	cands   []cand
}

type cand struct {
	id string
	// eval gives the condition for the given phi values and state
	eval func(val func(*ssa.Phi) Val, st *State) *Term
	must bool // spec-provided step obligation
	pos  token.Pos
	name string
}

type cfgInfo struct {
	order  []*ssa.BasicBlock
	back   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> back preds
	body   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> natural loop
	topo   map[*ssa.BasicBlock]int
	parent map[*ssa.BasicBlock]*ssa.BasicBlock
}

func analyseCFG(fn *ssa.Function) *cfgInfo {
	ci := &cfgInfo{back: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, topo: map[*ssa.BasicBlock]int{}}
	if len(fn.Blocks) == 0 {
		return ci
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				if ci.back[s] == nil {
					ci.back[s] = map[*ssa.BasicBlock]bool{}
				}
				ci.back[s][b] = true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if ci.back[s] != nil && ci.back[s][b] {
				continue
			}
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		ci.topo[post[i]] = len(ci.order)
		ci.order = append(ci.order, post[i])
	}
	for h, bs := range ci.back {
		body := map[*ssa.BasicBlock]bool{h: true}
		var work []*ssa.BasicBlock
		for b := range bs {
			if !body[b] {
				body[b] = true
				work = append(work, b)
			}
		}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			for _, p := range b.Preds {
				if !body[p] {
					body[p] = true
					work = append(work, p)
				}
			}
		}
		ci.body[h] = body
	}
	return ci
}

// runFunc executes a function body symbolically from the given state.
// It returns the merged results, the merged final state and the condition
// under which the function returns normally.
func (x *Exec) runFunc(fn *ssa.Function, params, free []Val, st *State, guard *Term, id string) (*Frame, []Val, *State, *Term) {
	fr := &Frame{fn: fn, vals: map[ssa.Value]Val{}, params: params, free: free, in: map[*ssa.BasicBlock][]edge{}, id: id, iters: map[ssa.Value]string{}, entrySt: st.clone(), loopCtx: map[*ssa.BasicBlock]*loopCtx{}}
	for i, p := range fn.Params {
		fr.vals[p] = params[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			fr.vals[f] = free[i]
		}
	}
	if x.topFrame == nil {
		x.topFrame = fr
	}
	fr.ctx = fr
	if name := short(fn.String()); x.spec.Funcs[name] == nil && len(x.frames) > 0 && (fn.Parent() != nil || !x.spec.Known[name]) {
		fr.ctx = x.frames[len(x.frames)-1].ctx
	}
	x.frames = append(x.frames, fr)
	defer func() { x.frames = x.frames[:len(x.frames)-1] }()
	if len(x.stack) > 40 {
		panic(tooBigErr{"call depth"})
	}
	saveFn, saveG := x.curFn, x.curGuard
	x.stack = append(x.stack, fn)
	x.curFn = fn
	ci := x.w.cfg(fn)
	fr.in[fn.Blocks[0]] = []edge{{nil, guard, st.clone()}}
	x.runBlocks(fr, ci, ci.order, nil)
	x.stack = x.stack[:len(x.stack)-1]
	x.curFn, x.curGuard = saveFn, saveG
	// merge returns
	n := fn.Signature.Results().Len()
	if len(fr.rets) == 0 {
		return fr, make([]Val, n), st, x.b.False()
	}
	g := fr.rets[0].guard
	res := append([]Val{}, fr.rets[0].vals...)
	rst := fr.rets[0].st
	for _, r := range fr.rets[1:] {
		for i := range res {
			res[i] = x.mergeVal(r.guard, r.vals[i], res[i])
		}
		rst = x.mergeState(r.guard, r.st, rst)
		g = x.b.Or(g, r.guard)
	}
	return fr, res, rst, g
}

// runBlocks executes blocks in topological order. If region is non-nil only
// its blocks are executed (a loop probe).
func (x *Exec) runBlocks(fr *Frame, ci *cfgInfo, order []*ssa.BasicBlock, region map[*ssa.BasicBlock]bool) {
	active := len(x.loops)
	var openLoops []*ssa.BasicBlock
	for _, blk := range order {
		if region != nil && !region[blk] {
			continue
		}
		// leave loops whose body does not contain this block
		for len(openLoops) > 0 && !ci.body[openLoops[len(openLoops)-1]][blk] {
			// body blocks may still come later in order; only pop when none remain
			h := openLoops[len(openLoops)-1]
			rem := false
			for b := range ci.body[h] {
				if ci.topo[b] > ci.topo[blk] {
					rem = true
				}
			}
			if rem {
				break
			}
			openLoops = openLoops[:len(openLoops)-1]
		}
		ins := fr.in[blk]
		if len(ins) == 0 {
			continue
		}
		g := x.b.False()
		for _, e := range ins {
			g = x.b.Or(g, e.guard)
		}
		if g.isFalse() {
			continue
		}
		st := ins[0].st
		for _, e := range ins[1:] {
			st = x.mergeState(e.guard, e.st, st)
		}
		st = st.clone()
		// active loop frames = loops (of this frame) containing blk
		x.loops = x.loops[:active]
		for _, h := range sortedHeaders(ci) {
			if ci.body[h][blk] && h != blk {
				if lc := fr.loopCtx[h]; lc != nil && lc.lf != nil {
					x.loops = append(x.loops, lc.lf)
				}
			}
		}
		x.curGuard = g
		if ci.back[blk] != nil && !(region != nil && region[blk] && len(ins) == 1 && ins[0].from == probeMarker) {
			st = x.enterLoop(fr, ci, blk, ins, g, st)
			openLoops = append(openLoops, blk)
			if lc := fr.loopCtx[blk]; lc != nil && lc.lf != nil {
				x.loops = append(x.loops, lc.lf)
			}
		} else if !(len(ins) == 1 && ins[0].from == probeMarker) {
			x.evalPhis(fr, blk, ins)
		}
		x.runBlock(fr, ci, blk, g, st, region)
	}
	x.loops = x.loops[:active]
}

var probeMarker = &ssa.BasicBlock{}

func sortedHeaders(ci *cfgInfo) []*ssa.BasicBlock {
	var hs []*ssa.BasicBlock
	for h := range ci.back {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return ci.topo[hs[i]] < ci.topo[hs[j]] })
	return hs
}

func (x *Exec) evalPhis(fr *Frame, blk *ssa.BasicBlock, ins []edge) {
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v Val
		for i, e := range ins {
			ev := x.phiIn(fr, phi, blk, e.from)
			if i == 0 {
				v = ev
			} else {
				v = x.mergeVal(e.guard, ev, v)
			}
		}
		vals = append(vals, v)
		phis = append(phis, phi)
	}
	for i, phi := range phis {
		fr.vals[phi] = vals[i]
	}
}

func (x *Exec) phiIn(fr *Frame, phi *ssa.Phi, blk, from *ssa.BasicBlock) Val {
	for i, p := range blk.Preds {
		if p == from {
			return x.val(fr, phi.Edges[i])
		}
	}
	panic("phi edge")
}

func (x *Exec) runBlock(fr *Frame, ci *cfgInfo, blk *ssa.BasicBlock, g *Term, st *State, region map[*ssa.BasicBlock]bool) {
	x.steps += len(blk.Instrs)
	if x.steps > x.w.maxSteps {
		panic(tooBigErr{fmt.Sprintf("more than %d steps", x.w.maxSteps)})
	}
	for _, in := range blk.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			c := x.term(x.val(fr, in.Cond))
			x.push(fr, ci, blk, blk.Succs[0], x.b.And(g, c), st, region)
			x.push(fr, ci, blk, blk.Succs[1], x.b.And(g, x.b.Not(c)), st, region)
			return
		case *ssa.Jump:
			x.push(fr, ci, blk, blk.Succs[0], g, st, region)
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range in.Results {
				vs = append(vs, x.val(fr, r))
			}
			fr.rets = append(fr.rets, retEdge{g, vs, st, in.Pos()})
			return
		case *ssa.Panic:
			if x.opt.safety {
				x.oblige("no-panic", in.Pos(), g, x.b.False())
			}
			return
		default:
			ng := x.instr(fr, in, g, &st)
			if ng != nil {
				g = ng
				x.curGuard = g
			}
			if g.isFalse() {
				return
			}
		}
	}
}

// push sends control along an edge, checking loop invariants on back edges.
func (x *Exec) push(fr *Frame, ci *cfgInfo, from, to *ssa.BasicBlock, g *Term, st *State, region map[*ssa.BasicBlock]bool) {
	if g.isFalse() {
		return
	}
	if ci.back[to] != nil && ci.back[to][from] {
		lc := fr.loopCtx[to]
		if lc == nil || x.mute > 0 {
			return
		}
		val := func(p *ssa.Phi) Val { return x.phiIn(fr, p, to, from) }
		for _, c := range lc.cands {
			if c.must {
				x.oblige(c.name, c.pos, g, x.inMode("goal", func() *Term { return c.eval(val, st) }))
			} else {
				x.candidate(c.id, g, x.inMode("goal", func() *Term { return c.eval(val, st) }))
			}
		}
		return
	}
	if region != nil && !region[to] {
		return
	}
	fr.in[to] = append(fr.in[to], edge{from, g, st})
}

// probe executes the loop body once, silently, to find what it writes.
func (x *Exec) probe(fr *Frame, ci *cfgInfo, h *ssa.BasicBlock, g *Term, st *State) *wlog {
	l := &wlog{keys: map[string]map[*Term]bool{}, mark: x.b.nsym}
	x.logs = append(x.logs, l)
	x.mute++
	nd, nr := len(fr.defers), len(fr.rets)
	saveIn := fr.in
	saveCtx := fr.loopCtx
	saveIters := fr.iters
	fr.iters = map[ssa.Value]string{}
	for k, v := range saveIters {
		fr.iters[k] = v
	}
	fr.in = map[*ssa.BasicBlock][]edge{h: {{probeMarker, g, st}}}
	fr.loopCtx = map[*ssa.BasicBlock]*loopCtx{}
	for k, v := range saveCtx {
		fr.loopCtx[k] = v
	}
	saveG := x.curGuard
	saveLoops := append([]*loopFrame{}, x.loops...)
	x.runBlocks(fr, ci, ci.order, ci.body[h])
	x.loops = saveLoops
	x.curGuard = saveG
	fr.in, fr.loopCtx, fr.iters = saveIn, saveCtx, saveIters
	fr.defers, fr.rets = fr.defers[:nd], fr.rets[:nr]
	x.mute--
	x.logs = x.logs[:len(x.logs)-1]
	return l
}

func loopOrdinal(ci *cfgInfo, h *ssa.BasicBlock) int {
	for i, k := range sortedHeaders(ci) {
		if k == h {
			return i
		}
	}
	return -1
}

// havocKey replaces a key's memory by an unknown one, for scalar ghosts entirely.
func (x *Exec) havocFull(st *State, key string, hint string) *Term {
	s := x.keySort[key]
	if s == "" {
		return nil
	}
	f := x.b.Fresh("H:"+hint+":"+key, s)
	x.setMem(st, key, f)
	return f
}

func (x *Exec) enterLoop(fr *Frame, ci *cfgInfo, h *ssa.BasicBlock, ins []edge, g *Term, st *State) *State {
	id := fmt.Sprintf("%s/loop%d", fr.id, loopOrdinal(ci, h))
	var phis []*ssa.Phi
	entry := map[*ssa.Phi]Val{}
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
	}
	x.evalPhis(fr, h, ins)
	for _, p := range phis {
		entry[p] = fr.vals[p]
	}
	entrySt := st.clone()
	mark := x.b.nsym
	// Which keys does the body write? Probe until the set is stable.
	keys := map[string]bool{}
	for k := range x.loopKeys[id] {
		keys[k] = true
	}
	var log *wlog
	freshPhi := func() {
		for _, p := range phis {
			fr.vals[p] = x.freshPhi(fr, p, entry[p], h)
		}
	}
	for round := 0; ; round++ {
		pst := st.clone()
		freshPhi()
		for _, k := range sortedKeys(keys) {
			if x.keySort[k] == "" {
				continue
			}
			x.getMem(pst, k, x.keySort[k])
			x.havocFull(pst, k, "p")
		}
		nn := x.b.Fresh("next", "Int")
		pst.next = nn
		m0 := x.b.nsym
		_ = m0
		log = x.probe(fr, ci, h, g, pst)
		grown := false
		for k := range log.keys {
			if !keys[k] {
				keys[k] = true
				grown = true
			}
		}
		if !grown || round > 6 {
			break
		}
	}
	if x.loopKeys[id] == nil {
		x.loopKeys[id] = map[string]bool{}
	}
	for k := range keys {
		x.loopKeys[id][k] = true
	}
	// Build the havoc'd state.
	lf := &loopFrame{id: id, mark: x.b.nsym, next: entrySt.next, inv: map[string]map[*Term]bool{}, framed: map[string]bool{}, all: map[string]bool{}, ghosts: map[string]bool{}}
	hst := st.clone()
	nn := x.b.Fresh("next", "Int")
	x.fact(x.b.Ge(nn, entrySt.next))
	hst.next = nn
	type slot struct {
		key  string
		base *Term
	}
	var slots []slot
	for _, k := range sortedKeys(keys) {
		s := x.keySort[k]
		if s == "" {
			continue
		}
		if strings.HasPrefix(k, "g:") {
			lf.ghosts[k] = true
			x.havocFull(hst, k, "L")
			continue
		}
		inv := map[*Term]bool{}
		non := false
		seenAny := false
		for b := range log.keys[k] {
			seenAny = true
			if b == nil {
				non = true
				continue
			}
			if b.maxSym <= mark {
				inv[b] = true
			} else if b.alloc {
				// allocated inside the iteration: invisible before
			} else {
				non = true
			}
		}
		if !seenAny || x.forceAll[id+"|"+k] {
			// noted by an earlier round's consistency check: be conservative
			non = true
		}
		lf.inv[k] = inv
		pre := x.getMem(entrySt, k, s)
		if non {
			nm := x.havocFull(hst, k, "L")
			for _, p := range phis {
				if et, ok := entry[p].(*Term); ok && et.sort == "Slice" {
					inv[x.b.SBase(et)] = true
				}
			}
			if !x.opt.noquant && !x.deadCand[id+"|frame|"+k] && nestedArr(s) {
				lf.framed[k] = true
				v := x.b.mk("var", "b?", "Int")
				cond := x.b.Lt(v, entrySt.next)
				for _, ib := range sortTerms(inv) {
					cond = x.b.And(cond, x.b.Not(x.b.Eq(v, ib)))
				}
				sel := x.b.mk("select", "", innerSort(s), nm, v)
				body := x.b.Implies(cond, x.b.Eq(sel, x.b.mk("select", "", innerSort(s), pre, v)))
				x.fact(x.b.mk("forall", "b?:Int", "Bool", body, sel))
			} else {
				lf.all[k] = true
			}
			continue
		}
		cur := pre
		for _, b := range sortTerms(inv) {
			fi := x.b.Fresh("L:"+k, innerSort(s))
			cur = x.b.Store(cur, b, fi)
			slots = append(slots, slot{k, b})
		}
		x.setMem(hst, k, cur)
	}
	freshPhi()
	lc := &loopCtx{lf: lf, entryG: g, entrySt: entrySt, headSt: hst, phis: phis, entry: entry}
	fr.loopCtx[h] = lc
	// Candidate invariants.
	x.autoCands(fr, ci, h, lc, id)
	slotNo := map[string]int{}
	for _, s := range slots {
		slotNo[s.key]++
		x.slotCands(lc, id, s.key, s.base, slotNo[s.key])
	}
	x.specCands(fr, ci, h, lc, id)
	// entry obligations, then assume for the arbitrary iteration
	ev := func(p *ssa.Phi) Val { return entry[p] }
	hv := func(p *ssa.Phi) Val { return fr.vals[p] }
	for _, c := range lc.cands {
		if c.must {
			continue
		}
		x.candidate(c.id, g, x.inMode("goal", func() *Term { return c.eval(ev, entrySt) }))
		if x.mute == 0 {
			x.candList[c.id] = true
		}
	}
	for _, c := range lc.cands {
		if c.must || x.deadCand[c.id] {
			continue
		}
		x.assume(g, x.inMode("assume", func() *Term { return c.eval(hv, hst) }))
	}
	return hst
}

func nestedArr(s string) bool {
	if !strings.HasPrefix(s, "(Array Int ") {
		return false
	}
	return true
}
func innerSort(s string) string { _, v := arrSorts(s); return v }

func sortTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		if t != nil {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (x *Exec) freshPhi(fr *Frame, p *ssa.Phi, entry Val, h *ssa.BasicBlock) Val {
	switch e := entry.(type) {
	case *PtrVal:
		return &PtrVal{base: x.b.Fresh(p.Comment+".b", "Int"), idx: x.b.Fresh(p.Comment+".i", "Int"), root: e.root, path: e.path, arr: e.arr}
	case *FuncVal:
		return &FuncVal{unknown: true}
	}
	return x.freshVal("phi_"+p.Comment, p.Type())
}

// val evaluates an SSA operand.
func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return x.globalAddr(v)
	case *ssa.Function:
		return &FuncVal{alts: []FuncAlt{{x.b.True(), v, nil}}}
	case *ssa.Builtin:
		return x.b.Int(1)
	}
	r, ok := fr.vals[v]
	if !ok || r == nil {
		// value defined on a path not executed (dead code): unknown
		r = x.freshVal("dead_"+v.Name(), v.Type())
		fr.vals[v] = r
	}
	return r
}

func (x *Exec) globalAddr(g *ssa.Global) *PtrVal {
	name := short(g.String())
	t := x.b.Sym("glob:"+name, "Int")
	// globals live at negative addresses, all different
	n := x.w.globalNum(name)
	x.factOnce(x.b.Eq(t, x.b.Int(int64(-1-n))))
	return &PtrVal{base: x.b.Int(int64(-1 - n)), idx: x.b.Int(0), root: deref(g.Type())}
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zeroVal(t)
	}
	switch leafSort(t) {
	case "Int":
		switch c.Value.Kind() {
		case constant.Int:
			return x.b.BigInt(c.Value.ExactString())
		case constant.Float:
			i := constant.ToInt(c.Value)
			if i.Kind() == constant.Int {
				return x.b.BigInt(i.ExactString())
			}
		}
		return x.b.Fresh("c", "Int")
	case "Bool":
		return x.b.Bool(constant.BoolVal(c.Value))
	case "Str":
		return x.b.Str(constant.StringVal(c.Value))
	case "Flt":
		return x.b.App("flt:"+c.Value.ExactString(), "Flt")
	case "Iface":
		return x.b.MkIf(x.b.Int(int64(x.w.tag(t))), x.b.Int(1))
	}
	return x.freshVal("const", t)
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
