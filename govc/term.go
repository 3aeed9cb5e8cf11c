package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	id     int
	op     string // "sym", "int", "str", "true", "false", "var" (bound), or an operator
	name   string // for sym/int/str/var
	args   []*Term
	sort   string
	maxSym int  // largest serial of a fresh symbol occurring in the term
	bound  bool // mentions a free bound variable
	fv     []string
	alloc  bool // symbol naming a freshly allocated object
}

// TermBank owns the hash-consing tables of one verification run.
type TermBank struct {
	tab   map[string]*Term
	terms []*Term
	nsym  int
	axq   []*Term // terms awaiting axiom instantiation
}

func NewBank() *TermBank { return &TermBank{tab: map[string]*Term{}} }

func (b *TermBank) mk(op, name, sort string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(sort)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := b.tab[k]; ok {
		return t
	}
	t := &Term{id: len(b.terms), op: op, name: name, sort: sort, args: args}
	for _, a := range args {
		if a.maxSym > t.maxSym {
			t.maxSym = a.maxSym
		}
		for _, v := range a.fv {
			t.addFV(v)
		}
	}
	switch op {
	case "var":
		t.fv = []string{name}
	case "forall", "exists":
		own := map[string]bool{}
		for _, v := range strings.Fields(name) {
			own[v[:strings.IndexByte(v, ':')]] = true
		}
		var rest []string
		for _, v := range t.fv {
			if !own[v] {
				rest = append(rest, v)
			}
		}
		t.fv = rest
	}
	t.bound = len(t.fv) > 0
	b.terms = append(b.terms, t)
	b.tab[k] = t
	b.axq = append(b.axq, t)
	return t
}

func (t *Term) addFV(v string) {
	for _, u := range t.fv {
		if u == v {
			return
		}
	}
	t.fv = append(t.fv[:len(t.fv):len(t.fv)], v)
}

func (b *TermBank) Fresh(hint, sort string) *Term {
	b.nsym++
	t := b.mk("sym", clean(hint)+"!"+strconv.Itoa(b.nsym), sort)
	t.maxSym = b.nsym
	return t
}

func (b *TermBank) Sym(name, sort string) *Term { return b.mk("sym", clean(name), sort) }

func clean(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.$@!-", c) {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (b *TermBank) Int(n int64) *Term { return b.mk("int", strconv.FormatInt(n, 10), "Int") }
func (b *TermBank) BigInt(s string) *Term {
	return b.mk("int", s, "Int")
}
func (b *TermBank) Str(s string) *Term { return b.mk("str", s, "Str") }
func (b *TermBank) True() *Term        { return b.mk("true", "", "Bool") }
func (b *TermBank) False() *Term       { return b.mk("false", "", "Bool") }
func (b *TermBank) Bool(v bool) *Term {
	if v {
		return b.True()
	}
	return b.False()
}

func (t *Term) isInt() (int64, bool) {
	if t.op == "int" {
		n, err := strconv.ParseInt(t.name, 10, 64)
		return n, err == nil
	}
	return 0, false
}
func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }

func (b *TermBank) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return b.False()
	case "false":
		return b.True()
	case "not":
		return a.args[0]
	}
	return b.mk("not", "", "Bool", a)
}

func (b *TermBank) And(xs ...*Term) *Term {
	r := b.True()
	for _, x := range xs {
		r = b.and2(r, x)
	}
	return r
}

func (b *TermBank) and2(x, y *Term) *Term {
	if x.isTrue() {
		return y
	}
	if y.isTrue() {
		return x
	}
	if x.isFalse() || y.isFalse() {
		return b.False()
	}
	if x == y {
		return x
	}
	if b.Not(x) == y {
		return b.False()
	}
	if x.op == "and" && (x.args[0] == y || x.args[1] == y) {
		return x
	}
	if y.op == "and" && (y.args[0] == x || y.args[1] == x) {
		return y
	}
	if x.op == "and" && (x.args[1] == b.Not(y)) {
		return b.False()
	}
	return b.mk("and", "", "Bool", x, y)
}

func (b *TermBank) Or(xs ...*Term) *Term {
	r := b.False()
	for _, x := range xs {
		r = b.or2(r, x)
	}
	return r
}

func (b *TermBank) or2(x, y *Term) *Term {
	if x.isFalse() {
		return y
	}
	if y.isFalse() {
		return x
	}
	if x.isTrue() || y.isTrue() {
		return b.True()
	}
	if x == y {
		return x
	}
	if b.Not(x) == y {
		return b.True()
	}
	// (g and c) or (g and not c) = g
	if x.op == "and" && y.op == "and" {
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if x.args[i] == y.args[j] {
					g := x.args[i]
					return b.and2(g, b.or2(x.args[1-i], y.args[1-j]))
				}
			}
		}
	}
	if x.op == "and" && (x.args[0] == y || x.args[1] == y) {
		return y
	}
	if y.op == "and" && (y.args[0] == x || y.args[1] == x) {
		return x
	}
	// x or (not x and z) = x or z
	if y.op == "and" {
		nx := b.Not(x)
		if y.args[0] == nx {
			return b.or2(x, y.args[1])
		}
		if y.args[1] == nx {
			return b.or2(x, y.args[0])
		}
	}
	if x.op == "and" {
		ny := b.Not(y)
		if x.args[0] == ny {
			return b.or2(y, x.args[1])
		}
		if x.args[1] == ny {
			return b.or2(y, x.args[0])
		}
	}
	return b.mk("or", "", "Bool", x, y)
}

func (b *TermBank) Implies(x, y *Term) *Term { return b.or2(b.Not(x), y) }

func (b *TermBank) Ite(c, x, y *Term) *Term {
	if c.isTrue() || x == y {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x.sort == "Bool" {
		if x.isTrue() && y.isFalse() {
			return c
		}
		if x.isFalse() && y.isTrue() {
			return b.Not(c)
		}
		if x.isTrue() {
			return b.or2(c, y)
		}
		if x.isFalse() {
			return b.and2(b.Not(c), y)
		}
		if y.isTrue() {
			return b.or2(b.Not(c), x)
		}
		if y.isFalse() {
			return b.and2(c, x)
		}
	}
	if x.sort != y.sort {
		panic("ite sorts " + x.sort + " vs " + y.sort)
	}
	return b.mk("ite", "", x.sort, c, x, y)
}

func (b *TermBank) Eq(x, y *Term) *Term {
	if x == y {
		return b.True()
	}
	if x.sort != y.sort {
		panic("eq sorts " + x.sort + " vs " + y.sort + ": " + x.String() + " / " + y.String())
	}
	if x.op == "int" && y.op == "int" || x.op == "str" && y.op == "str" {
		return b.False()
	}
	if x.sort == "Bool" {
		if x.isTrue() {
			return y
		}
		if y.isTrue() {
			return x
		}
		if x.isFalse() {
			return b.Not(y)
		}
		if y.isFalse() {
			return b.Not(x)
		}
	}
	if x.op == y.op && len(x.args) > 0 && (x.op == "mkptr" || x.op == "mkif" || x.op == "mkslice" || strings.HasPrefix(x.op, "mktup")) {
		r := b.True()
		for i := range x.args {
			r = b.and2(r, b.Eq(x.args[i], y.args[i]))
		}
		return r
	}
	if x.op == "ite" && (y.op == "int" || y.op == "str") && (isLit(x.args[1]) || isLit(x.args[2])) {
		return b.Ite(x.args[0], b.Eq(x.args[1], y), b.Eq(x.args[2], y))
	}
	if y.op == "ite" && (x.op == "int" || x.op == "str") {
		return b.Eq(y, x)
	}
	if x.op == "ite" && y.op == "mkif" && (x.args[1].op == "mkif" || x.args[2].op == "mkif") {
		return b.Ite(x.args[0], b.Eq(x.args[1], y), b.Eq(x.args[2], y))
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk("=", "", "Bool", x, y)
}

func isLit(t *Term) bool { return t.op == "int" || t.op == "str" }

func (b *TermBank) Add(x, y *Term) *Term {
	n, ok := x.isInt()
	m, ok2 := y.isInt()
	if ok && ok2 {
		return b.Int(n + m)
	}
	if ok && n == 0 {
		return y
	}
	if ok2 && m == 0 {
		return x
	}
	if ok2 && x.op == "+" {
		if k, ok := x.args[1].isInt(); ok {
			return b.Add(x.args[0], b.Int(k+m))
		}
	}
	if ok && !ok2 {
		return b.Add(y, x)
	}
	if ok2 && x.op == "-" && m > 0 {
		if k, ok := x.args[1].isInt(); ok && k == m {
			return x.args[0]
		}
	}
	if y.op == "-" && y.args[1] == x {
		return y.args[0]
	}
	if x.op == "-" && x.args[1] == y {
		return x.args[0]
	}
	return b.mk("+", "", "Int", x, y)
}

func (b *TermBank) Sub(x, y *Term) *Term {
	if x == y {
		return b.Int(0)
	}
	n, ok := x.isInt()
	m, ok2 := y.isInt()
	if ok && ok2 {
		return b.Int(n - m)
	}
	if ok2 {
		return b.Add(x, b.Int(-m))
	}
	if x.op == "+" {
		if x.args[0] == y {
			return x.args[1]
		}
		if x.args[1] == y {
			return x.args[0]
		}
	}
	return b.mk("-", "", "Int", x, y)
}

func (b *TermBank) Mul(x, y *Term) *Term {
	n, ok := x.isInt()
	m, ok2 := y.isInt()
	if ok && ok2 && (n == 0 || (n*m/n == m)) {
		return b.Int(n * m)
	}
	if ok && n == 1 {
		return y
	}
	if ok2 && m == 1 {
		return x
	}
	return b.mk("*", "", "Int", x, y)
}

func (b *TermBank) Le(x, y *Term) *Term {
	n, ok := x.isInt()
	m, ok2 := y.isInt()
	if ok && ok2 {
		return b.Bool(n <= m)
	}
	if x == y {
		return b.True()
	}
	return b.mk("<=", "", "Bool", x, y)
}

func (b *TermBank) Lt(x, y *Term) *Term {
	n, ok := x.isInt()
	m, ok2 := y.isInt()
	if ok && ok2 {
		return b.Bool(n < m)
	}
	if x == y {
		return b.False()
	}
	return b.mk("<", "", "Bool", x, y)
}
func (b *TermBank) Ge(x, y *Term) *Term { return b.Le(y, x) }
func (b *TermBank) Gt(x, y *Term) *Term { return b.Lt(y, x) }

func arrSorts(s string) (k, v string) {
	// "(Array K V)"
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return s[:i], s[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func ArrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// distinctTerms reports whether two terms are certainly different.
func (b *TermBank) distinctTerms(x, y *Term) bool {
	if x.op == "int" && y.op == "int" && x != y {
		return true
	}
	if x.op == "str" && y.op == "str" && x != y {
		return true
	}
	if x.alloc && y.alloc && x != y {
		return true
	}
	if x.alloc && y.op == "int" || y.alloc && x.op == "int" {
		return true
	}
	if x.alloc && !y.bound && y.maxSym < x.maxSym && y.sort == "Int" && preAlloc(y) {
		return true
	}
	if y.alloc && !x.bound && x.maxSym < y.maxSym && x.sort == "Int" && preAlloc(x) {
		return true
	}
	// i vs i+k
	if x.op == "+" && x.args[0] == y {
		if k, ok := x.args[1].isInt(); ok && k != 0 {
			return true
		}
	}
	if y.op == "+" && y.args[0] == x {
		if k, ok := y.args[1].isInt(); ok && k != 0 {
			return true
		}
	}
	return false
}

// preAlloc: a base reference read before the allocation cannot equal it. Only
// references to existing objects (pbase/sbase/map refs) qualify; arithmetic does not.
func preAlloc(t *Term) bool {
	return t.op == "pbase" || t.op == "sbase"
}

func (b *TermBank) Select(a, i *Term) *Term {
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if b.distinctTerms(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	if a.op == "ite" {
		x, y := b.Select(a.args[1], i), b.Select(a.args[2], i)
		if x == y {
			return x
		}
		if !(x.op == "select" && y.op == "select") {
			return b.Ite(a.args[0], x, y)
		}
		if x.args[0] != a.args[1] || y.args[0] != a.args[2] {
			return b.Ite(a.args[0], x, y)
		}
	}
	_, v := arrSorts(a.sort)
	return b.mk("select", "", v, a, i)
}

func (b *TermBank) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return b.mk("store", "", a.sort, a, i, v)
}

func (b *TermBank) ConstArr(sort string, v *Term) *Term {
	return b.mk("constarr", "", sort, v)
}

func (b *TermBank) MkPtr(base, idx *Term) *Term {
	if base.op == "pbase" && idx.op == "pidx" && base.args[0] == idx.args[0] {
		return base.args[0]
	}
	return b.mk("mkptr", "", "Ptr", base, idx)
}

func (b *TermBank) acc(op, ctor string, k int, sort string, t *Term) *Term {
	if t.op == ctor {
		return t.args[k]
	}
	if t.op == "ite" {
		x, y := b.acc(op, ctor, k, sort, t.args[1]), b.acc(op, ctor, k, sort, t.args[2])
		return b.Ite(t.args[0], x, y)
	}
	return b.mk(op, "", sort, t)
}
func (b *TermBank) PBase(t *Term) *Term { return b.acc("pbase", "mkptr", 0, "Int", t) }
func (b *TermBank) PIdx(t *Term) *Term  { return b.acc("pidx", "mkptr", 1, "Int", t) }
func (b *TermBank) MkSlice(base, off, ln, cp *Term) *Term {
	if base.op == "sbase" && off.op == "soff" && ln.op == "slen" && cp.op == "scap" &&
		base.args[0] == off.args[0] && base.args[0] == ln.args[0] && base.args[0] == cp.args[0] {
		return base.args[0]
	}
	return b.mk("mkslice", "", "Slice", base, off, ln, cp)
}
func (b *TermBank) SBase(t *Term) *Term { return b.acc("sbase", "mkslice", 0, "Int", t) }
func (b *TermBank) SOff(t *Term) *Term  { return b.acc("soff", "mkslice", 1, "Int", t) }
func (b *TermBank) SLen(t *Term) *Term  { return b.acc("slen", "mkslice", 2, "Int", t) }
func (b *TermBank) SCap(t *Term) *Term  { return b.acc("scap", "mkslice", 3, "Int", t) }
func (b *TermBank) MkIf(tag, val *Term) *Term {
	return b.mk("mkif", "", "Iface", tag, val)
}
func (b *TermBank) ITag(t *Term) *Term { return b.acc("itag", "mkif", 0, "Int", t) }
func (b *TermBank) IVal(t *Term) *Term { return b.acc("ival", "mkif", 1, "Int", t) }

// App builds an application of an uninterpreted or prelude function.
func (b *TermBank) App(f, sort string, args ...*Term) *Term {
	return b.mk("app", f, sort, args...)
}

func (t *Term) String() string {
	var sb strings.Builder
	t.show(&sb, 0)
	return sb.String()
}
func (t *Term) show(sb *strings.Builder, d int) {
	if d > 12 {
		sb.WriteString("…")
		return
	}
	switch t.op {
	case "sym", "int", "var":
		sb.WriteString(t.name)
	case "str":
		sb.WriteString(strconv.Quote(t.name))
	case "true", "false":
		sb.WriteString(t.op)
	default:
		sb.WriteByte('(')
		if t.op == "app" {
			sb.WriteString(t.name)
		} else {
			sb.WriteString(t.op)
		}
		for _, a := range t.args {
			sb.WriteByte(' ')
			a.show(sb, d+1)
		}
		sb.WriteByte(')')
	}
}

var _ = fmt.Sprint
