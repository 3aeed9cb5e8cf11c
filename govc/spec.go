package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

type Clause struct {
	Name    string
	Text    string
	Expr    ast.Expr
	Loop    int // -1: every loop in which it makes sense
	Var     string
	Trivial bool
	Line    string
}

type Contract struct {
	Name       string
	Requires   []Clause
	Ensures    []Clause
	Ghost      []Clause // ghost assignments (external functions)
	Invs       []Clause
	Steps      []Clause
	Callback   []Clause // what each call of a function argument must ensure
	Modifies   []string // slice arguments whose elements an extern changes
	LocalDefs  []Clause // the same, not needed by callers
	Defs       []Clause // definitions of auxiliary functions over the entry state
	Extern     bool
	Pure       bool
	Determ     bool // the result depends on the arguments only
	FromSchema bool
	NoSchema   bool // the schemas do not apply to this function
}

type Schema struct {
	Kind string
	C    *Contract
}

type Spec struct {
	Property      string
	Ghosts        map[string]string
	Init          []Clause // assumptions about ghosts at entry of every function
	Externs       map[string]*Contract
	Funcs         map[string]*Contract
	Measures      map[string][]string
	ConstMeasures map[string]bool
	Schemas       []*Schema
	Verify        []string
	Skip          []string
	Inline        []string
	Opt           Options
	Files         []string
	Params        map[string]string
	// Known names the functions the contracts are written for; any other
	// function (a helper added later) is executed in place at its calls.
	Known map[string]bool
}

func LoadSpec(path string) (*Spec, error) {
	s := &Spec{Ghosts: map[string]string{}, Externs: map[string]*Contract{}, Funcs: map[string]*Contract{}, Params: map[string]string{}, Measures: map[string][]string{}, ConstMeasures: map[string]bool{}}
	if err := s.load(path); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Spec) load(path string) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	s.Files = append(s.Files, path)
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	var cur []*Contract
	var lines []string
	for sc.Scan() {
		t := sc.Text()
		// continuation lines start with at least 6 spaces or a tab-tab
		tt := strings.TrimSpace(t)
		if tt == "" || strings.HasPrefix(tt, "#") {
			continue
		}
		if len(lines) > 0 && strings.HasPrefix(t, "      ") {
			lines[len(lines)-1] += " " + tt
			continue
		}
		lines = append(lines, tt)
	}
	for _, l := range lines {
		word, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimSpace(rest)
		switch word {
		case "property":
			s.Property = rest
			s.Opt.property = rest
		case "include":
			if err := s.load(filepath.Join(filepath.Dir(path), rest)); err != nil {
				return err
			}
		case "option":
			for _, o := range strings.Fields(rest) {
				switch o {
				case "theory":
					s.Opt.theory = true
				case "safety":
					s.Opt.safety = true
				case "overflow":
					s.Opt.overflow = true
				case "noquant":
					s.Opt.noquant = true
				case "nonil":
					s.Opt.nonil = true
				case "nodivision":
					s.Opt.nodiv = true
				case "textonly":
					s.Opt.textonly = true
				case "lite":
					s.Opt.lite = true
				default:
					k, v, _ := strings.Cut(o, "=")
					s.Params[k] = v
				}
			}
		case "ghost":
			if cur != nil && strings.Contains(rest, "=") {
				n, e, _ := strings.Cut(rest, "=")
				c, err := mkClause(strings.TrimSpace(n), strings.TrimSpace(e), l)
				if err != nil {
					return err
				}
				c.Var = strings.TrimSpace(n)
				for _, k := range cur {
					k.Ghost = append(k.Ghost, c)
				}
				continue
			}
			n, srt, _ := strings.Cut(rest, " ")
			s.Ghosts[n] = strings.TrimSpace(srt)
			cur = nil
		case "init":
			c, err := mkNamed(rest, l)
			if err != nil {
				return err
			}
			s.Init = append(s.Init, c)
		case "extern", "func":
			cur = nil
			for _, n := range strings.Fields(rest) {
				m := s.Funcs
				if word == "extern" {
					m = s.Externs
				}
				c := m[n]
				if c == nil {
					c = &Contract{Name: n, Extern: word == "extern"}
					m[n] = c
				}
				cur = append(cur, c)
			}
		case "schema":
			c := &Contract{Name: "schema " + rest, FromSchema: true}
			s.Schemas = append(s.Schemas, &Schema{Kind: rest, C: c})
			cur = []*Contract{c}
		case "verify":
			s.Verify = append(s.Verify, strings.Fields(rest)...)
		case "skip":
			s.Skip = append(s.Skip, strings.Fields(rest)...)
		case "inline":
			s.Inline = append(s.Inline, strings.Fields(rest)...)
		case "measure":
			// measure NAME "lit"...: how often the literals occur in a text, fragment
			// by fragment
			fs := strings.Fields(rest)
			var lits []string
			for _, f := range fs[1:] {
				if f == "const" {
					// count constant fragments only: other texts count 0
					s.ConstMeasures[fs[0]] = true
					continue
				}
				u, err := strconv.Unquote(f)
				if err != nil {
					return fmt.Errorf("%s: %s: %v", path, l, err)
				}
				lits = append(lits, strings.ReplaceAll(u, "_", " "))
			}
			s.Measures[fs[0]] = lits
			cur = nil
		case "modifies":
			for _, k := range cur {
				k.Modifies = append(k.Modifies, strings.Fields(rest)...)
			}
		case "noschema":
			for _, k := range cur {
				k.NoSchema = true
			}
		case "deterministic":
			for _, k := range cur {
				k.Determ = true
			}
		case "pure":
			for _, k := range cur {
				k.Pure = true
			}
		case "requires", "ensures", "invariant", "step", "defines", "define-here", "callback":
			loop := -1
			if strings.HasPrefix(rest, "loop ") {
				fs := strings.SplitN(rest, " ", 3)
				loop, _ = strconv.Atoi(fs[1])
				rest = fs[2]
			}
			c, err := mkNamed(rest, l)
			if err != nil {
				return err
			}
			c.Loop = loop
			if cur == nil {
				return fmt.Errorf("%s: clause outside contract: %s", path, l)
			}
			for _, k := range cur {
				switch word {
				case "requires":
					k.Requires = append(k.Requires, c)
				case "ensures":
					k.Ensures = append(k.Ensures, c)
				case "invariant":
					k.Invs = append(k.Invs, c)
				case "define-here":
					k.LocalDefs = append(k.LocalDefs, c)
				case "defines":
					k.Defs = append(k.Defs, c)
				case "callback":
					k.Callback = append(k.Callback, c)
				case "step":
					k.Steps = append(k.Steps, c)
				}
			}
		default:
			return fmt.Errorf("%s: unknown directive %q", path, l)
		}
	}
	return nil
}

var nameRe = regexp.MustCompile(`^([A-Za-z][A-Za-z0-9_.-]*):\s*(.*)$`)

func mkNamed(rest, line string) (Clause, error) {
	name := ""
	if m := nameRe.FindStringSubmatch(rest); m != nil {
		name, rest = m[1], m[2]
	}
	return mkClause(name, rest, line)
}

func mkClause(name, text, line string) (Clause, error) {
	e, err := parser.ParseExpr(convImp(text))
	if err != nil {
		return Clause{}, fmt.Errorf("spec %q: %v", text, err)
	}
	return Clause{Name: name, Text: text, Expr: e, Loop: -1, Line: line, Trivial: strings.TrimSpace(text) == "true"}, nil
}

// convImp rewrites "a ==> b" into imp(a, b) at every nesting level.
func convImp(s string) string {
	depth := 0
	inStr := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			if c == '\\' && inStr == '"' {
				i++
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '"', '\'', '`':
			inStr = c
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		case '=':
			if depth == 0 && strings.HasPrefix(s[i:], "==>") {
				return "imp(" + convImp(s[:i]) + ", " + convImp(s[i+3:]) + ")"
			}
		}
	}
	if !strings.Contains(s, "==>") {
		return s
	}
	// descend into bracketed groups, splitting at commas
	var out strings.Builder
	i := 0
	for i < len(s) {
		c := s[i]
		if c == '"' || c == '\'' || c == '`' {
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' && c != '`' {
					j++
				}
				j++
			}
			out.WriteString(s[i : j+1])
			i = j + 1
			continue
		}
		if c == '(' || c == '[' {
			d, j := 1, i+1
			q := byte(0)
			start := i + 1
			var parts []string
			for ; j < len(s); j++ {
				if q != 0 {
					if s[j] == '\\' && q != '`' {
						j++
					} else if s[j] == q {
						q = 0
					}
					continue
				}
				switch s[j] {
				case '"', '\'', '`':
					q = s[j]
				case '(', '[':
					d++
				case ')', ']':
					d--
				case ',':
					if d == 1 {
						parts = append(parts, s[start:j])
						start = j + 1
					}
				}
				if d == 0 {
					break
				}
			}
			parts = append(parts, s[start:j])
			for k := range parts {
				parts[k] = convImp(parts[k])
			}
			out.WriteByte(c)
			out.WriteString(strings.Join(parts, ","))
			out.WriteByte(s[j])
			i = j + 1
			continue
		}
		out.WriteByte(c)
		i++
	}
	return out.String()
}

// ---- evaluation ----

type Env struct {
	x      *Exec
	lookup func(name string, st *State) (Val, types.Type, bool)
	st     *State
	old    *State
	oldEnv *Env
	entry  *Env // in loop invariants: the state on entering the loop
	vars   map[string]*Term
	g      *Term
	pos    bool // the expression is not below a negation or equality
	quant  []*Term
}

type specErr struct{ s string }

func (e *Env) fail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

type nilVal struct{}

// Bool evaluates a clause to a boolean term.
func (e *Env) Bool(c Clause) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s (in %q)", se.s, c.Text)
				return
			}
			panic(r)
		}
	}()
	n := *e
	n.pos = true
	v, _ := n.eval(c.Expr)
	return e.x.term(v), nil
}

// truth is the value of a condition.
func (e *Env) truth(ex ast.Expr) *Term {
	v, t := e.eval(ex)
	if t != nil {
		if bt, ok := t.Underlying().(*types.Basic); !ok || bt.Info()&types.IsBoolean == 0 {
			e.fail("%s is no condition", types.TypeString(t, nil))
		}
	}
	r := e.x.term(v)
	if r.sort != "Bool" {
		e.fail("%s is no condition", r.sort)
	}
	return r
}

// goal evaluates a clause that is to be shown, known one that is relied on.
func (e *Env) goal(c Clause) (t *Term, err error) {
	e.x.inMode("goal", func() *Term { t, err = e.Bool(c); return t })
	return
}

func (e *Env) known(c Clause) (t *Term, err error) {
	e.x.inMode("assume", func() *Term { t, err = e.Bool(c); return t })
	return
}

func (e *Env) Term(c Clause) (t *Term, err error) { return e.Bool(c) }

func (e *Env) eval(ex ast.Expr) (Val, types.Type) {
	pos := e.pos
	e.pos = false
	switch ex := ex.(type) {
	case *ast.ParenExpr:
		e.pos = pos
	case *ast.BinaryExpr:
		if ex.Op == token.LAND || ex.Op == token.LOR {
			n := *e
			n.pos = pos
			return n.binary(ex)
		}
	case *ast.CallExpr:
		if id, ok := ex.Fun.(*ast.Ident); ok && pos {
			switch id.Name {
			case "imp", "forall", "exists":
				n := *e
				n.pos = true
				return n.call(ex)
			}
		}
	}
	x := e.x
	b := x.b
	switch ex := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(ex.X)
	case *ast.BasicLit:
		switch ex.Kind {
		case token.INT:
			return b.BigInt(ex.Value), types.Typ[types.Int]
		case token.STRING:
			s, _ := strconv.Unquote(ex.Value)
			return b.Str(s), types.Typ[types.String]
		case token.CHAR:
			s, _, _, _ := strconv.UnquoteChar(ex.Value[1:len(ex.Value)-1], '\'')
			return b.Int(int64(s)), types.Typ[types.Int]
		}
	case *ast.Ident:
		switch ex.Name {
		case "true":
			return b.True(), types.Typ[types.Bool]
		case "false":
			return b.False(), types.Typ[types.Bool]
		case "nil":
			return nilVal{}, nil
		}
		if v, ok := e.vars[ex.Name]; ok {
			if v.sort == "Str" {
				return v, types.Typ[types.String]
			}
			return v, types.Typ[types.Int]
		}
		if e.lookup != nil {
			if v, t, ok := e.lookup(ex.Name, e.st); ok {
				return v, t
			}
		}
		if s, ok := x.spec.Ghosts[ex.Name]; ok {
			t := x.getMem(e.st, "g:"+ex.Name, s)
			var ty types.Type
			switch s {
			case "Bool":
				ty = types.Typ[types.Bool]
			case "Int":
				ty = types.Typ[types.Int]
			case "Str":
				ty = types.Typ[types.String]
			}
			return t, ty
		}
		if o := x.w.lookupConst(ex.Name); o != nil {
			return x.constOf(o), o.Type()
		}
		e.fail("unknown name %s", ex.Name)
	case *ast.UnaryExpr:
		v, t := e.eval(ex.X)
		switch ex.Op {
		case token.NOT:
			return b.Not(x.term(v)), types.Typ[types.Bool]
		case token.SUB:
			return b.Sub(b.Int(0), x.term(v)), t
		}
	case *ast.StarExpr:
		v, t := e.eval(ex.X)
		p := x.ptr(v, t)
		return x.load(e.st, p, deref(t)), deref(t)
	case *ast.BinaryExpr:
		return e.binary(ex)
	case *ast.SelectorExpr:
		if id, ok := ex.X.(*ast.Ident); ok {
			if _, _, found := e.tryIdent(id.Name); !found {
				if v, t, ok := x.w.qualified(x, id.Name, ex.Sel.Name); ok {
					return v, t
				}
			}
		}
		v, t := e.eval(ex.X)
		return e.field(v, t, ex.Sel.Name)
	case *ast.IndexExpr:
		v, t := e.eval(ex.X)
		i, _ := e.eval(ex.Index)
		if t == nil {
			if vt, ok := v.(*Term); ok && strings.HasPrefix(vt.sort, "(Array") {
				return b.Select(vt, x.term(i)), nil
			}
			e.fail("index of untyped")
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			s := x.term(v)
			p := &PtrVal{base: b.SBase(s), idx: b.Add(b.SOff(s), x.term(i)), root: u.Elem()}
			return x.load(e.st, p, u.Elem()), u.Elem()
		case *types.Basic:
			return x.strAt(x.term(v), x.term(i)), types.Typ[types.Int]
		case *types.Map:
			m := x.term(v)
			k := x.key(i, u.Key())
			has := b.And(b.Not(b.Eq(m, b.Int(0))), x.mapHas(e.st, u, m, k))
			return x.mergeVal(has, x.mapGet(e.st, u, m, k), x.zeroVal(u.Elem())), u.Elem()
		case *types.Array:
			if tu, ok := v.(*Tuple); ok {
				if n, ok := x.term(i).isInt(); ok {
					return tu.elems[n], u.Elem()
				}
			}
		}
		e.fail("cannot index %v", t)
	case *ast.SliceExpr:
		v, t := e.eval(ex.X)
		lo := b.Int(0)
		if ex.Low != nil {
			l, _ := e.eval(ex.Low)
			lo = x.term(l)
		}
		if leafSort(t) == "Str" {
			s := x.term(v)
			hi := x.strLen(s)
			if ex.High != nil {
				h, _ := e.eval(ex.High)
				hi = x.term(h)
			}
			return x.substr(s, lo, b.Sub(hi, lo)), t
		}
		e.fail("slice expr")
	case *ast.CallExpr:
		return e.call(ex)
	case *ast.CompositeLit:
		// Tup{a,b}: composite key
		tu := &Tuple{}
		for _, el := range ex.Elts {
			v, _ := e.eval(el)
			tu.elems = append(tu.elems, v)
		}
		return tu, nil
	}
	e.fail("unsupported spec expression %T", ex)
	return nil, nil
}

func (e *Env) tryIdent(n string) (Val, types.Type, bool) {
	if v, ok := e.vars[n]; ok {
		return v, types.Typ[types.Int], true
	}
	if _, ok := e.x.spec.Ghosts[n]; ok {
		return nil, nil, true
	}
	if e.lookup != nil {
		return e.lookup(n, e.st)
	}
	return nil, nil, false
}

func (e *Env) field(v Val, t types.Type, name string) (Val, types.Type) {
	x := e.x
	if t == nil {
		e.fail("field %s of untyped value", name)
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		p := x.ptr(v, t)
		ft, path := findField(pt.Elem(), name)
		if ft == nil {
			e.fail("no field %s in %s", name, pt.Elem())
		}
		fp := &PtrVal{base: p.base, idx: p.idx, root: p.root, path: p.path + path}
		return x.load(e.st, fp, ft), ft
	}
	if stt, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == name {
				if tu, ok := v.(*Tuple); ok {
					return tu.elems[i], stt.Field(i).Type()
				}
			}
		}
	}
	e.fail("no field %s in %s", name, t)
	return nil, nil
}

func findField(t types.Type, name string) (types.Type, string) {
	stt, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, ""
	}
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == name {
			return stt.Field(i).Type(), "." + name
		}
	}
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Embedded() {
			if ft, p := findField(stt.Field(i).Type(), name); ft != nil {
				return ft, "." + stt.Field(i).Name() + p
			}
		}
	}
	return nil, ""
}

func (e *Env) binary(ex *ast.BinaryExpr) (Val, types.Type) {
	x := e.x
	b := x.b
	tb := types.Typ[types.Bool]
	pos := e.pos
	if ex.Op == token.LAND || ex.Op == token.LOR {
		l := e.truth(ex.X)
		e.pos = pos
		r := e.truth(ex.Y)
		if ex.Op == token.LAND {
			return b.And(l, r), tb
		}
		return b.Or(l, r), tb
	}
	e.pos = false
	l, lt := e.eval(ex.X)
	r, rt := e.eval(ex.Y)
	switch ex.Op {
	case token.EQL, token.NEQ:
		var t *Term
		_, ln := l.(nilVal)
		_, rn := r.(nilVal)
		switch {
		case ln && rn:
			t = b.True()
		case rn:
			t = e.isNil(l)
		case ln:
			t = e.isNil(r)
		default:
			t = x.equal(l, r, lt, rt)
		}
		if ex.Op == token.NEQ {
			t = b.Not(t)
		}
		return t, tb
	}
	a, c := x.term(l), x.term(r)
	if a.sort == "Str" {
		switch ex.Op {
		case token.ADD:
			return x.cat(a, c), lt
		case token.LSS:
			return x.strLt(a, c), tb
		case token.GTR:
			return x.strLt(c, a), tb
		case token.LEQ:
			return b.Not(x.strLt(c, a)), tb
		case token.GEQ:
			return b.Not(x.strLt(a, c)), tb
		}
	}
	switch ex.Op {
	case token.ADD:
		return b.Add(a, c), lt
	case token.SUB:
		return b.Sub(a, c), lt
	case token.MUL:
		return b.Mul(a, c), lt
	case token.QUO:
		return b.mk("div", "", "Int", a, c), lt
	case token.REM:
		return b.mk("mod", "", "Int", a, c), lt
	case token.LSS:
		return b.Lt(a, c), tb
	case token.LEQ:
		return b.Le(a, c), tb
	case token.GTR:
		return b.Gt(a, c), tb
	case token.GEQ:
		return b.Ge(a, c), tb
	}
	e.fail("operator %s", ex.Op)
	return nil, nil
}

func (e *Env) isNil(v Val) *Term {
	x := e.x
	b := x.b
	if f, ok := v.(*FuncVal); ok {
		return x.funcNil(f)
	}
	t := x.term(v)
	switch t.sort {
	case "Iface":
		return b.Eq(b.ITag(t), b.Int(0))
	case "Ptr":
		return b.Eq(b.PBase(t), b.Int(0))
	case "Slice":
		return b.Eq(b.SBase(t), b.Int(0))
	case "Int":
		return b.Eq(t, b.Int(0))
	}
	e.fail("nil comparison with %s", t.sort)
	return nil
}

var boundSeq = 0

func (e *Env) call(ex *ast.CallExpr) (Val, types.Type) {
	x := e.x
	b := x.b
	tb := types.Typ[types.Bool]
	ti := types.Typ[types.Int]
	tstr := types.Typ[types.String]
	id, ok := ex.Fun.(*ast.Ident)
	if !ok {
		e.fail("call of %T", ex.Fun)
	}
	arg := func(i int) *Term {
		v, _ := e.eval(ex.Args[i])
		return x.term(v)
	}
	switch id.Name {
	case "imp":
		pos := e.pos
		e.pos = false
		l := e.truth(ex.Args[0])
		e.pos = pos
		return b.Implies(l, e.truth(ex.Args[1])), tb
	case "iff":
		return b.Eq(arg(0), arg(1)), tb
	case "ite":
		c := arg(0)
		l, t := e.eval(ex.Args[1])
		r, _ := e.eval(ex.Args[2])
		return x.mergeVal(c, l, r), t
	case "old":
		if e.old == nil {
			e.fail("old() without pre-state")
		}
		n := *e
		n.st = e.old
		if e.oldEnv != nil {
			n = *e.oldEnv
			n.vars = e.vars
		}
		return n.eval(ex.Args[0])
	case "entry":
		if e.entry == nil {
			e.fail("entry() outside a loop")
		}
		n := *e.entry
		n.vars = e.vars
		return n.eval(ex.Args[0])
	case "len":
		v, t := e.eval(ex.Args[0])
		if t == nil {
			if vt := x.term(v); vt.sort == "Str" {
				return x.strLen(vt), ti
			}
		}
		return x.lenTerm(v, t, e.st), ti
	case "cap":
		return b.SCap(arg(0)), ti
	case "forall", "exists":
		// forall(i, lo, hi, P)
		v := ex.Args[0].(*ast.Ident).Name
		boundSeq++
		pos := e.pos
		e.pos = false
		n := *e
		n.pos = pos
		n.vars = map[string]*Term{}
		for k, t := range e.vars {
			n.vars[k] = t
		}
		if len(ex.Args) == 2 {
			bv := b.mk("var", fmt.Sprintf("%s?", v), "Int")
			n.vars[v] = bv
			p, _ := n.eval(ex.Args[1])
			return b.mk(id.Name, fmt.Sprintf("%s?:Int", v), "Bool", x.term(p)), tb
		}
		if l, ok := ex.Args[1].(*ast.BasicLit); ok && l.Kind == token.STRING {
			// forall(f, "Str", P)
			srt, _ := strconv.Unquote(l.Value)
			bv := b.mk("var", fmt.Sprintf("%s?", v), srt)
			n.vars[v] = bv
			p, _ := n.eval(ex.Args[2])
			if id.Name == "exists" {
				return b.mk(id.Name, fmt.Sprintf("%s?:%s", v, srt), "Bool", x.term(p)), tb
			}
			var all []*Term
			for _, q := range conjuncts(b, x.term(p)) {
				all = append(all, b.mk("forall", fmt.Sprintf("%s?:%s", v, srt), "Bool", q))
			}
			return b.And(all...), tb
		}
		lo, hi := arg(1), arg(2)
		if id.Name == "exists" && pos && x.specMode != "" {
			// a known element is named; to show that there is one, the named
			// ones and the ends of the range are tried
			at := func(w *Term) *Term {
				m := n
				m.vars = map[string]*Term{}
				for k, t := range n.vars {
					m.vars[k] = t
				}
				m.vars[v] = w
				p, _ := m.eval(ex.Args[3])
				return b.And(b.Le(lo, w), b.Lt(w, hi), x.term(p))
			}
			if x.specMode == "assume" {
				x.wits++
				nm := fmt.Sprintf("wit%d_%d", len(e.quant), x.wits)
				x.witNames[nm] = true
				return at(b.App(nm, "Int", e.quant...)), tb
			}
			some := b.Or(at(b.Sub(hi, b.Int(1))), at(lo))
			for k := x.wits; k > 0 && k > x.wits-12; k-- {
				nm := fmt.Sprintf("wit%d_%d", len(e.quant), k)
				if x.witNames[nm] {
					some = b.Or(some, at(b.App(nm, "Int", e.quant...)))
				}
			}
			return some, tb
		}
		bv := b.mk("var", fmt.Sprintf("%s?", v), "Int")
		n.quant = append(append([]*Term{}, e.quant...), bv)
		n.vars[v] = bv
		p, _ := n.eval(ex.Args[3])
		rng := b.And(b.Le(lo, bv), b.Lt(bv, hi))
		var body *Term
		if id.Name == "forall" && pos && x.specMode == "goal" {
			return b.mk("forall", fmt.Sprintf("%s?:Int", v), "Bool", b.Implies(rng, x.term(p))), tb
		}
		if id.Name == "forall" {
			// quantify over the index into the underlying memory, so that
			// every read of it is an instance
			var all []*Term
			cs := conjuncts(b, x.term(p))
			if len(cs) > 16 {
				cs = []*Term{x.term(p)}
			}
			for _, q := range cs {
				offs, direct := offsets(q, bv)
				for _, off := range offs {
					nv := b.Sub(bv, off)
					all = append(all, b.mk("forall", fmt.Sprintf("%s?:Int", v), "Bool",
						b.Implies(b.And(b.Le(lo, nv), b.Lt(nv, hi)), x.replace(q, bv, nv))))
				}
				if direct || len(offs) == 0 {
					all = append(all, b.mk("forall", fmt.Sprintf("%s?:Int", v), "Bool", b.Implies(rng, q)))
				}
			}
			return b.And(all...), tb
		} else {
			q := x.term(p)
			if offs, direct := offsets(q, bv); len(offs) > 0 && !direct {
				nv := b.Sub(bv, offs[0])
				body = b.And(b.Le(lo, nv), b.Lt(nv, hi), x.replace(q, bv, nv))
			} else {
				body = b.And(rng, q)
			}
		}
		return b.mk(id.Name, fmt.Sprintf("%s?:Int", v), "Bool", body), tb
	case "has":
		v, t := e.eval(ex.Args[0])
		mt := t.Underlying().(*types.Map)
		k, _ := e.eval(ex.Args[1])
		m := x.term(v)
		return b.And(b.Not(b.Eq(m, b.Int(0))), x.mapHas(e.st, mt, m, x.key(k, mt.Key()))), tb
	case "hasPrefix":
		return x.strPred("s.prefix", arg(0), arg(1)), tb
	case "hasSuffix":
		return x.strPred("s.suffix", arg(0), arg(1)), tb
	case "contains":
		return x.strPred("s.contains", arg(0), arg(1)), tb
	case "replaceAll":
		return b.App("s.replaceall", "Str", arg(0), arg(1), arg(2)), tstr
	case "get":
		return b.Select(arg(0), arg(1)), nil
	case "put":
		return b.Store(arg(0), arg(1), arg(2)), nil
	case "tag":
		return b.ITag(arg(0)), ti
	case "ival":
		return b.IVal(arg(0)), ti
	case "base":
		t := arg(0)
		switch t.sort {
		case "Ptr":
			return b.PBase(t), ti
		case "Slice":
			return b.SBase(t), ti
		case "Iface":
			return b.IVal(t), ti
		}
		return t, ti
	case "idx":
		return b.PIdx(arg(0)), ti
	case "typeis":
		s, _ := strconv.Unquote(ex.Args[1].(*ast.BasicLit).Value)
		return b.Eq(b.ITag(arg(0)), b.Int(int64(x.w.tagByName(s)))), tb
	case "as":
		// as(iface, "type"): the value inside, meaningful if typeis holds
		s, _ := strconv.Unquote(ex.Args[1].(*ast.BasicLit).Value)
		t := x.w.typeByName(s)
		if t == nil {
			e.fail("unknown type %s", s)
		}
		return x.unbox(b.IVal(arg(0)), t), t
	case "implements":
		// implements(iface, "io.Closer"): the value inside has the methods
		s, _ := strconv.Unquote(ex.Args[1].(*ast.BasicLit).Value)
		v := arg(0)
		return b.And(b.Not(b.Eq(b.ITag(v), b.Int(0))), x.implTerm(s, b.ITag(v))), tb
	case "next":
		return e.st.next, ti
	case "fresh":
		// the pointer or slice was allocated since the pre-state
		t := arg(0)
		var base *Term
		if t.sort == "Ptr" {
			base = b.PBase(t)
		} else {
			base = b.SBase(t)
		}
		return b.Ge(base, e.old.next), tb
	case "uf":
		// uf("name", "sort", args...)
		n, _ := strconv.Unquote(ex.Args[0].(*ast.BasicLit).Value)
		srt, _ := strconv.Unquote(ex.Args[1].(*ast.BasicLit).Value)
		var as []*Term
		for i := range ex.Args[2:] {
			as = append(as, arg(i+2))
		}
		var ty types.Type
		switch srt {
		case "Bool":
			ty = tb
		case "Int":
			ty = ti
		case "Str":
			ty = tstr
		}
		return b.App(n, srt, as...), ty
	case "iface":
		// the interface value holding e
		v, t := e.eval(ex.Args[0])
		return x.makeIface(v, t), types.NewInterfaceType(nil, nil)
	case "textof":
		// the text in a byte slice
		return x.bytesStr(e.st, arg(0)), tstr
	case "none":
		// none("sort"): the array that is false, 0 or "" everywhere
		s, _ := strconv.Unquote(ex.Args[0].(*ast.BasicLit).Value)
		return b.ConstArr(s, x.zero(innerSort(s))), nil
	case "content":
		v, t := e.eval(ex.Args[0])
		p := x.ptr(v, t)
		return x.readCell(e.st, typeKey(p.root)+p.path+"$", "Str", p.base, p.idx), tstr
	case "any":
		return b.Fresh("any", "Bool"), tb
	}
	if lits, ok := x.spec.Measures[id.Name]; ok {
		return x.measure(id.Name, lits, arg(0)), ti
	}
	e.fail("unknown function %s", id.Name)
	return nil, nil
}

// measure counts the literals in the constant fragments of a text; it is
// additive over concatenation.
func (x *Exec) measure(name string, lits []string, t *Term) *Term {
	type key struct {
		name string
		t    *Term
	}
	if x.measured == nil {
		x.measured = map[any]*Term{}
	}
	if r, ok := x.measured[key{name, t}]; ok {
		return r
	}
	r := x.measure1(name, lits, t)
	x.measured[key{name, t}] = r
	return r
}

func (x *Exec) measure1(name string, lits []string, t *Term) *Term {
	b := x.b
	switch {
	case t.op == "str":
		n := 0
		for _, l := range lits {
			n += strings.Count(t.name, l)
		}
		return b.Int(int64(n))
	case t.op == "ite":
		return b.Ite(t.args[0], x.measure(name, lits, t.args[1]), x.measure(name, lits, t.args[2]))
	case t.op == "app" && t.name == "s.cat":
		return b.Add(x.measure(name, lits, t.args[0]), x.measure(name, lits, t.args[1]))
	}
	if x.spec.ConstMeasures[name] {
		return b.Int(0)
	}
	r := b.App("measure:"+name, "Int", t)
	x.factOnce(b.Ge(r, b.Int(0)))
	x.factOnce(b.Implies(b.Eq(t, b.Str("")), b.Eq(r, b.Int(0))))
	return r
}

// conjuncts splits a condition into parts whose conjunction it is.
func conjuncts(b *TermBank, t *Term) []*Term {
	switch t.op {
	case "and":
		var out []*Term
		for _, a := range t.args {
			out = append(out, conjuncts(b, a)...)
		}
		return out
	case "or":
		for i, a := range t.args {
			if cs := conjuncts(b, a); len(cs) > 1 {
				var out []*Term
				for _, c := range cs {
					as := append([]*Term{}, t.args...)
					as[i] = c
					out = append(out, conjuncts(b, b.Or(as...))...)
				}
				return out
			}
		}
	}
	return []*Term{t}
}

// offsets collects the terms that are added to the bound variable in the index
// of a read.
func offsets(t, bv *Term) (out []*Term, direct bool) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1] == bv {
			direct = true
		}
		if t.op == "select" && t.args[1].op == "+" {
			i := t.args[1]
			for k := 0; k < 2; k++ {
				o := i.args[1-k]
				if i.args[k] == bv && !o.bound && len(out) < 2 {
					dup := false
					for _, p := range out {
						dup = dup || p == o
					}
					if !dup {
						out = append(out, o)
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return out, direct
}

// replace puts a term in the place of a bound variable.
func (x *Exec) replace(t, bv, by *Term) *Term {
	memo := map[*Term]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if t == bv {
			return by
		}
		if !t.bound || len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = walk(a)
		}
		r := x.rebuild(t, args)
		memo[t] = r
		return r
	}
	return walk(t)
}
