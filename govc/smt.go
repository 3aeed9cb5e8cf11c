package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Emitter prints terms as SMT-LIB with one definition per shared node.
type Emitter struct {
	b       *TermBank
	theory  bool // strings are SMT strings, otherwise an abstract sort
	done    map[int]bool
	out     func(string)
	lits    int
	funs    map[string]bool
	sorts   map[string]bool
	factOut map[int]bool
}

func NewEmitter(b *TermBank, theory bool, out func(string)) *Emitter {
	e := &Emitter{b: b, theory: theory, out: out, done: map[int]bool{}, funs: map[string]bool{}, sorts: map[string]bool{}, factOut: map[int]bool{}}
	return e
}

const preludeCommon = `(declare-datatypes ((Ptr 0)) (((mkptr (pbase Int) (pidx Int)))))
(declare-datatypes ((Slice 0)) (((mkslice (sbase Int) (soff Int) (slen Int) (scap Int)))))
(declare-datatypes ((Iface 0)) (((mkif (itag Int) (ival Int)))))
(declare-sort Flt 0)
`
const preludeAbstract = `(declare-sort Str 0)
(declare-fun s.len (Str) Int)
(declare-fun s.code (Str) Int)
(declare-fun s.cat (Str Str) Str)
(declare-fun s.sub (Str Int Int) Str)
(declare-fun s.at (Str Int) Int)
(declare-fun s.lt (Str Str) Bool)
(declare-fun s.prefix (Str Str) Bool)
(declare-fun s.suffix (Str Str) Bool)
(declare-fun s.contains (Str Str) Bool)
(declare-fun s.index (Str Str) Int)
(declare-fun s.ofbyte (Int) Str)
(declare-fun s.replaceall (Str Str Str) Str)
`

// In theory mode Go strings are byte strings: one SMT character per byte.
const preludeTheory = `(define-sort Str () String)
(define-fun s.len ((x Str)) Int (str.len x))
(define-fun s.cat ((x Str) (y Str)) Str (str.++ x y))
(define-fun s.sub ((x Str) (o Int) (n Int)) Str (str.substr x o n))
(define-fun s.at ((x Str) (i Int)) Int (str.to_code (str.at x i)))
(define-fun s.lt ((x Str) (y Str)) Bool (str.< x y))
(define-fun s.prefix ((x Str) (p Str)) Bool (str.prefixof p x))
(define-fun s.suffix ((x Str) (p Str)) Bool (str.suffixof p x))
(define-fun s.contains ((x Str) (y Str)) Bool (str.contains x y))
(define-fun s.index ((x Str) (y Str)) Int (str.indexof x y 0))
(define-fun s.ofbyte ((c Int)) Str (str.from_code c))
(define-fun s.replaceall ((x Str) (a Str) (b Str)) Str (str.replace_all x a b))
`

var preludeFuns = map[string]bool{"s.len": true, "s.code": true, "s.cat": true, "s.sub": true, "s.at": true, "s.lt": true, "s.prefix": true, "s.suffix": true, "s.contains": true, "s.index": true, "s.ofbyte": true, "s.replaceall": true}

func (e *Emitter) Prelude() {
	e.out(preludeCommon)
	if e.theory {
		e.out(preludeTheory)
	} else {
		e.out(preludeAbstract)
	}
}

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			sb.WriteString(`""`)
		case c == '\\' || c < 32 || c > 126:
			fmt.Fprintf(&sb, "\\u{%x}", c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (e *Emitter) sortName(s string) string {
	if strings.HasPrefix(s, "(Array ") {
		k, v := arrSorts(s)
		return "(Array " + e.sortName(k) + " " + e.sortName(v) + ")"
	}
	if strings.HasPrefix(s, "Tup<") && !e.sorts[s] {
		e.sorts[s] = true
		parts := strings.Split(strings.TrimSuffix(strings.TrimPrefix(s, "Tup<"), ">"), ",")
		n := tupName(s)
		var sb strings.Builder
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((mk%s", n, n)
		for i, p := range parts {
			fmt.Fprintf(&sb, " (%s_%d %s)", n, i, e.sortName(p))
		}
		sb.WriteString("))))\n")
		e.out(sb.String())
	}
	if strings.HasPrefix(s, "Tup<") {
		return tupName(s)
	}
	return s
}

func tupName(s string) string {
	return "Tup_" + strings.NewReplacer("Tup<", "", ">", "", ",", "_").Replace(s)
}

// ref returns the text naming t, defining it (and its parts) first.
func (e *Emitter) ref(t *Term) string {
	switch t.op {
	case "int":
		if strings.HasPrefix(t.name, "-") {
			return "(- " + t.name[1:] + ")"
		}
		return t.name
	case "true", "false":
		return t.op
	case "var":
		return t.name
	case "str":
		if e.theory {
			return smtStr(t.name)
		}
		n := "lit" + strconv.Itoa(t.id)
		if !e.done[t.id] {
			e.done[t.id] = true
			e.lits++
			e.out(fmt.Sprintf("(declare-const %s Str)\n(assert (= (s.code %s) %d))\n(assert (= (s.len %s) %d))\n", n, n, t.id, n, len(t.name)))
			if len(t.name) <= 2 {
				for i := 0; i < len(t.name); i++ {
					e.out(fmt.Sprintf("(assert (= (s.at %s %d) %d))\n", n, i, t.name[i]))
				}
			}
		}
		return n
	case "sym":
		if !e.done[t.id] {
			e.done[t.id] = true
			e.out("(declare-const |" + t.name + "| " + e.sortName(t.sort) + ")\n")
			e.facts(t, "|"+t.name+"|")
		}
		return "|" + t.name + "|"
	}
	if t.bound {
		return e.body(t)
	}
	n := "t" + strconv.Itoa(t.id)
	if e.done[t.id] {
		return n
	}
	// iterative post-order over unbound children to bound recursion depth
	stack := []*Term{t}
	for len(stack) > 0 {
		u := stack[len(stack)-1]
		if e.done[u.id] || u.bound {
			stack = stack[:len(stack)-1]
			continue
		}
		pushed := false
		for _, a := range u.args {
			if len(a.args) > 0 && !a.bound && !e.done[a.id] {
				stack = append(stack, a)
				pushed = true
			}
		}
		if pushed {
			continue
		}
		stack = stack[:len(stack)-1]
		body := e.body(u)
		e.done[u.id] = true
		un := "t" + strconv.Itoa(u.id)
		e.out("(define-fun " + un + " () " + e.sortName(u.sort) + " " + body + ")\n")
		e.facts(u, un)
	}
	return n
}

// facts states what holds of every Go value of the term's sort.
func (e *Emitter) facts(t *Term, n string) {
	switch t.sort {
	case "Slice":
		if t.op != "mkslice" && t.op != "ite" {
			e.out(fmt.Sprintf("(assert (and (<= 0 (soff %s)) (<= 0 (slen %s)) (<= (slen %s) (scap %s)) (=> (= (sbase %s) 0) (= (scap %s) 0))))\n", n, n, n, n, n, n))
		}
	case "Iface":
		if t.op != "mkif" && t.op != "ite" {
			e.out(fmt.Sprintf("(assert (and (<= 0 (itag %s)) (=> (= (itag %s) 0) (= (ival %s) 0))))\n", n, n, n))
		}
	case "Ptr":
		if t.op != "mkptr" && t.op != "ite" {
			e.out(fmt.Sprintf("(assert (=> (= (pbase %s) 0) (= (pidx %s) 0)))\n", n, n))
		}
	case "Str":
		if e.theory {
			return
		}
		empty := e.ref(e.b.Str(""))
		if t.op == "ite" {
			return
		}
		e.out(fmt.Sprintf("(assert (and (<= 0 (s.len %s)) (= (= (s.len %s) 0) (= %s %s))))\n", n, n, n, empty))
		if t.op == "app" && t.name == "s.cat" {
			e.out(fmt.Sprintf("(assert (= (s.len %s) (+ (s.len %s) (s.len %s))))\n", n, e.ref(t.args[0]), e.ref(t.args[1])))
		}
		if t.op == "app" && t.name == "s.sub" {
			e.out(fmt.Sprintf("(assert (=> (and (<= 0 %s) (<= 0 %s) (<= (+ %s %s) (s.len %s))) (= (s.len %s) %s)))\n", e.ref(t.args[1]), e.ref(t.args[2]), e.ref(t.args[1]), e.ref(t.args[2]), e.ref(t.args[0]), n, e.ref(t.args[2])))
		}
	case "Int":
		if t.op == "app" && t.name == "s.at" {
			e.out(fmt.Sprintf("(assert (and (<= (- 1) %s) (<= %s 255)))\n", n, n))
		}
		if t.op == "app" && t.name == "s.index" && !e.theory {
			e.out(fmt.Sprintf("(assert (and (<= (- 1) %s) (<= (+ %s (ite (= %s (- 1)) 0 (s.len %s))) (s.len %s))))\n", n, n, n, e.ref(t.args[1]), e.ref(t.args[0])))
		}
	case "Bool":
		if t.op == "app" && !e.theory && (t.name == "s.prefix" || t.name == "s.suffix" || t.name == "s.contains") {
			e.out(fmt.Sprintf("(assert (=> %s (<= (s.len %s) (s.len %s))))\n", n, e.ref(t.args[1]), e.ref(t.args[0])))
		}
	}
}

func (e *Emitter) body(t *Term) string {
	var sb strings.Builder
	switch t.op {
	case "forall", "exists":
		// args: body; name: "x y"
		vars := strings.Fields(t.name)
		sb.WriteString("(" + t.op + " (")
		for _, v := range vars {
			i := strings.IndexByte(v, ':')
			sb.WriteString("(" + v[:i] + " " + v[i+1:] + ")")
		}
		if len(t.args) > 1 {
			sb.WriteString(") (! " + e.refNB(t.args[0]) + " :pattern (")
			for i, p := range t.args[1:] {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(e.refNB(p))
			}
			sb.WriteString(")))")
		} else {
			sb.WriteString(") " + e.refNB(t.args[0]) + ")")
		}
		return sb.String()
	case "constarr":
		return "((as const " + e.sortName(t.sort) + ") " + e.refNB(t.args[0]) + ")"
	case "app":
		if !preludeFuns[t.name] && !e.funs[t.name] {
			e.funs[t.name] = true
			var ss []string
			for _, a := range t.args {
				ss = append(ss, e.sortName(a.sort))
			}
			e.out("(declare-fun |" + t.name + "| (" + strings.Join(ss, " ") + ") " + e.sortName(t.sort) + ")\n")
		}
		if len(t.args) == 0 {
			return "|" + t.name + "|"
		}
		sb.WriteString("(|" + t.name + "|")
	case "mktup":
		e.sortName(t.sort)
		sb.WriteString("(mk" + tupName(t.sort))
	case "tupget":
		sb.WriteString("(" + tupName(t.args[0].sort) + "_" + t.name)
	default:
		sb.WriteString("(" + t.op)
	}
	var parts []string
	for _, a := range t.args {
		parts = append(parts, e.refNB(a))
	}
	for _, p := range parts {
		sb.WriteByte(' ')
		sb.WriteString(p)
	}
	sb.WriteByte(')')
	return sb.String()
}

func (e *Emitter) refNB(t *Term) string {
	if t.bound && len(t.args) > 0 {
		return e.body(t)
	}
	return e.ref(t)
}

// Solver is one incremental solver process.
type Solver struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	rd     *bufio.Reader
	buf    strings.Builder
	log    strings.Builder // complete transcript of level-0 commands, for fallbacks
	Em     *Emitter
	time   time.Duration
	calls  int
	ms     int
	dead   bool
	theory bool
}

var solverTimeNS int64

func NewSolver(b *TermBank, theory bool, ms int) (*Solver, error) {
	s := &Solver{ms: ms, theory: theory}
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	s.cmd.Stderr = nil
	s.rd = bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	s.buf.WriteString("(set-option :smt.mbqi false)\n(set-option :smt.random_seed 1)\n(set-option :model.completion true)\n")
	s.Em = NewEmitter(b, theory, func(t string) { s.buf.WriteString(t); s.log.WriteString(t) })
	s.Em.Prelude()
	return s, nil
}

func (s *Solver) Assert(t *Term) {
	if t.isTrue() {
		return
	}
	r := s.Em.ref(t)
	line := "(assert " + r + ")\n"
	s.buf.WriteString(line)
	s.log.WriteString(line)
}

func (s *Solver) flush() {
	if f := os.Getenv("GOVC_LOG"); f != "" {
		w, _ := os.OpenFile(fmt.Sprintf("%s.%d", f, s.cmd.Process.Pid), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		w.WriteString(s.buf.String())
		w.Close()
	}
	io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
}

// Check decides whether the conjunction of the assertions and t is satisfiable.
func (s *Solver) Check(t *Term, ms int) string {
	r := s.Em.ref(t)
	if s.dead {
		return "unknown"
	}
	s.buf.WriteString(fmt.Sprintf("(set-option :timeout %d)\n(push)\n(assert %s)\n(check-sat)\n(pop)\n", ms, r))
	t0 := time.Now()
	s.flush()
	s.calls++
	line := s.readLine(time.Duration(ms)*time.Millisecond + 20*time.Second)
	d := time.Since(t0)
	s.time += d
	atomic.AddInt64(&solverTimeNS, int64(d))
	if os.Getenv("GOVC_TRACE") != "" && d > 500*time.Millisecond {
		fmt.Fprintln(os.Stderr, "SLOW", d, line)
	}
	return line
}

func (s *Solver) readLine(limit time.Duration) string {
	type res struct{ s string }
	ch := make(chan res, 1)
	go func() {
		for {
			l, err := s.rd.ReadString('\n')
			l = strings.TrimSpace(l)
			if err != nil {
				ch <- res{"dead"}
				return
			}
			if strings.HasPrefix(l, "(error") {
				fmt.Fprintln(os.Stderr, "solver:", l)
				ch <- res{"error " + l}
				return
			}
			if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
				ch <- res{l}
				return
			}
		}
	}()
	select {
	case r := <-ch:
		if r.s == "dead" {
			s.dead = true
			return "unknown"
		}
		if strings.HasPrefix(r.s, "error") {
			s.dead = true
		}
		return r.s
	case <-time.After(limit):
		s.dead = true
		s.cmd.Process.Kill()
		return "unknown"
	}
}

// Standalone returns a self-contained query for t.
func (s *Solver) Standalone(t *Term) string {
	r := s.Em.ref(t)
	return s.log.String() + "(assert " + r + ")\n(check-sat)\n"
}

// Fresh decides a self-contained query in a new process.
func Fresh(query string, ms int) string {
	c := exec.Command("z3-new", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false")
	c.Stdin = strings.NewReader(query)
	t0 := time.Now()
	out, _ := c.Output()
	atomic.AddInt64(&solverTimeNS, int64(time.Since(t0)))
	o := strings.TrimSpace(string(out))
	if i := strings.LastIndexByte(o, '\n'); i >= 0 {
		o = o[i+1:]
	}
	return o
}

// Fallback tries the other back ends on a standalone query.
func (s *Solver) Fallback(t *Term, ms int) (string, string) {
	q := s.Standalone(t)
	type att struct {
		name string
		args []string
	}
	atts := []att{
		{"z3-new", []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false"}},
		{"z3-4.8", []string{"z3", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false"}},
		{"cvc5", []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--arrays-exp"}},
		{"z3-mbqi", []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms)}},
	}
	type ans struct{ name, r string }
	ch := make(chan ans, len(atts))
	var cmds []*exec.Cmd
	for _, a := range atts {
		c := exec.Command(a.args[0], a.args[1:]...)
		qq := q
		if a.name == "cvc5" {
			qq = "(set-logic ALL)\n" + q
		}
		c.Stdin = strings.NewReader(qq)
		cmds = append(cmds, c)
		go func(n string, c *exec.Cmd) {
			out, _ := c.Output()
			o := strings.TrimSpace(string(out))
			if i := strings.LastIndexByte(o, '\n'); i >= 0 {
				o = o[i+1:]
			}
			ch <- ans{n, o}
		}(a.name, c)
	}
	deadline := time.After(time.Duration(ms)*time.Millisecond + 5*time.Second)
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&solverTimeNS, int64(time.Since(t0)))
		for _, c := range cmds {
			if c.Process != nil {
				c.Process.Kill()
			}
		}
	}()
	sat := ""
	for i := 0; i < len(atts); i++ {
		select {
		case a := <-ch:
			if a.r == "unsat" {
				return "unsat", a.name
			}
			if a.r == "sat" {
				sat = a.name
			}
		case <-deadline:
			i = len(atts)
		}
	}
	if sat != "" {
		return "sat", sat
	}
	return "unknown", ""
}

// Model returns values for the given symbols in a model of the assertions and t.
func (s *Solver) Model(t *Term, syms []*Term, ms int) map[string]string {
	if s.dead || len(syms) == 0 {
		return nil
	}
	r := s.Em.ref(t)
	var names []string
	for _, y := range syms {
		names = append(names, s.Em.ref(y))
	}
	q := s.log.String() + "(assert " + r + ")\n(check-sat)\n"
	for _, n := range names {
		q += "(get-value (" + n + "))\n"
	}
	c := exec.Command("z3-new", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false")
	c.Stdin = strings.NewReader(q)
	out, _ := c.Output()
	lines := strings.Split(string(out), "\n")
	m := map[string]string{}
	i := 1
	if len(lines) == 0 || !strings.HasPrefix(lines[0], "sat") && !strings.HasPrefix(lines[0], "unknown") {
		return nil
	}
	rest := strings.Join(lines[1:], "\n")
	for _, n := range names {
		p := strings.Index(rest, "(("+n+" ")
		if p < 0 {
			continue
		}
		r := rest[p+len(n)+3:]
		if j := strings.Index(r, "))\n"); j >= 0 {
			m[n] = strings.Join(strings.Fields(r[:j+0]), " ")
		}
		i++
	}
	return m
}

func (s *Solver) Close() {
	if s == nil {
		return
	}
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// CheckVals is Check that also evaluates terms in the model when satisfiable.
func (s *Solver) CheckVals(t *Term, vals []*Term, ms int) (string, []bool) {
	r := s.Em.ref(t)
	var names []string
	for _, v := range vals {
		names = append(names, s.Em.ref(v))
	}
	if s.dead {
		return "unknown", nil
	}
	s.buf.WriteString(fmt.Sprintf("(set-option :timeout %d)\n(push)\n(assert %s)\n(check-sat)\n", ms, r))
	t0 := time.Now()
	s.flush()
	s.calls++
	line := s.readLine(time.Duration(ms)*time.Millisecond + 20*time.Second)
	d := time.Since(t0)
	s.time += d
	atomic.AddInt64(&solverTimeNS, int64(d))
	if s.dead {
		return line, nil
	}
	var out []bool
	if line == "sat" {
		s.buf.WriteString("(get-value (" + strings.Join(names, " ") + "))\n(echo \"|end|\")\n")
		s.flush()
		var sb strings.Builder
		for {
			l, err := s.rd.ReadString('\n')
			if err != nil {
				s.dead = true
				break
			}
			if strings.Contains(l, "|end|") {
				break
			}
			sb.WriteString(l)
		}
		txt := sb.String()
		for _, f := range strings.Split(txt, "\n") {
			f = strings.TrimRight(f, ")\r ")
			if strings.HasSuffix(f, " true") {
				out = append(out, true)
			} else if strings.HasSuffix(f, " false") {
				out = append(out, false)
			}
		}
		if len(out) != len(vals) {
			out = nil
		}
	}
	s.buf.WriteString("(pop)\n")
	return line, out
}
