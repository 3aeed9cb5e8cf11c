package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// knownFinding is a line of known-findings.txt:
//
//	finding: property=<id> obligation=<function> <obligation name> -- <what fails>
//	fixed: property=<id> <commit> <what failed>
type knownFinding struct {
	property, obligation, text string
	used                       bool
}

func loadFindings(path string) ([]*knownFinding, error) {
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []*knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		rest, ok := strings.CutPrefix(l, "finding: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(rest, " ")
		rest, ok = strings.CutPrefix(rest, "obligation=")
		if !ok {
			return nil, fmt.Errorf("%s: bad line %q", path, l)
		}
		ob, text, _ := strings.Cut(rest, " -- ")
		out = append(out, &knownFinding{property: id, obligation: strings.TrimSpace(ob), text: strings.TrimSpace(text)})
	}
	return out, sc.Err()
}

// obligName identifies an obligation independently of line numbers.
func obligName(r *FuncResult, o *ObligResult) string {
	n := r.Func + " " + o.Name
	if o.In != "" {
		n += " in " + o.In
	}
	if o.Count > 1 {
		n += fmt.Sprintf(" #%d", o.Count)
	}
	return n
}

type violation struct {
	Property   string            `json:"property"`
	Obligation string            `json:"obligation"`
	Where      string            `json:"where"`
	Status     string            `json:"status"`
	Solver     string            `json:"solver"`
	Model      map[string]string `json:"model,omitempty"`
	Detail     string            `json:"detail,omitempty"`
}

// runCheck decides one property and returns the exit code.
func runCheck(repo, verif, id, tier string, seed int) int {
	t0 := time.Now()
	deadline = t0.Add(480 * time.Second)
	fail := func(format string, a ...any) int {
		fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
		return 2
	}
	specs, _ := filepath.Glob(filepath.Join(verif, "contracts", id+"*.spec"))
	sort.Strings(specs)
	if len(specs) == 0 {
		return fail("no contract file for %s", id)
	}
	findings, err := loadFindings(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return fail("%v", err)
	}
	known, err := loadKnown(filepath.Join(verif, "contracts", "functions.txt"))
	if err != nil {
		return fail("%v", err)
	}
	w, err := LoadWorld(repo)
	if err != nil {
		return fail("%v", err)
	}
	evdir := filepath.Join(verif, "evidence")
	if err := os.MkdirAll(filepath.Join(evdir, "replay"), 0o755); err != nil {
		return fail("%v", err)
	}
	old, _ := filepath.Glob(filepath.Join(evdir, "replay", id+"-*"))
	for _, f := range old {
		os.Remove(f)
	}
	candMs, obligMs, fallMs := 1000, 10000, 20000
	if tier == "thorough" {
		deadline = t0.Add(2 * time.Hour)
		candMs, obligMs, fallMs = 3000, 60000, 120000
	}
	var all []*FuncResult
	total, discharged, covered, open, bySolver := 0, 0, 0, 0, map[string]int{}
	externs, assumed, inlined := map[string]bool{}, map[string]bool{}, map[string]bool{}
	warns := map[string]bool{}
	var solverMs int64
	var viols []violation
	notes := map[string]string{}
	need := 0
	var invs int
	var opts []string
	for _, sf := range specs {
		spec, err := LoadSpec(sf)
		if err != nil {
			return fail("%v", err)
		}
		spec.Known = known
		if n, err := strconv.Atoi(spec.Params["min"]); err == nil {
			need += n
		}
		if spec.Params["candms"] != "" {
			candMs, _ = strconv.Atoi(spec.Params["candms"])
		}
		opts = append(opts, spec.describe(filepath.Base(sf)))
		for _, n := range sortedKeys(spec.Funcs) {
			if w.funcs[n] == nil && len(spec.Funcs[n].Ensures)+len(spec.Funcs[n].Steps) > 0 {
				total++
				viols = append(viols, violation{Property: id, Obligation: n + " has a body to verify", Status: "no such function"})
			}
		}
		rs := w.verifyAll(spec, w.targets(spec, ""), candMs, obligMs, fallMs)
		for _, r := range rs {
			all = append(all, r)
			solverMs += r.SolverMs
			invs += r.Invs
			for k := range r.Externs {
				externs[k] = true
			}
			for k := range r.Assumed {
				assumed[k] = true
			}
			for k := range r.Inlined {
				inlined[k] = true
			}
			for k := range r.Warn {
				warns[k] = true
			}
			if r.Covered == "sat" {
				covered++
			}
			if r.Covered != "unreachable" {
				open++
			}
			bad := func(o *ObligResult) {
				n := obligName(r, o)
				for _, kf := range findings {
					if kf.property == id && kf.obligation == n {
						if !kf.used {
							fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, n, kf.text)
						}
						kf.used = true
						notes[n] = kf.text
						return
					}
				}
				v := violation{Property: id, Obligation: n, Where: o.Pos, Status: o.Status, Solver: o.Solver, Model: o.Model}
				viols = append(viols, v)
			}
			if r.Err != "" {
				total++
				bad(&ObligResult{Name: "verification conditions", Status: "not generated: " + r.Err})
			}
			for i := range r.Obligs {
				o := &r.Obligs[i]
				total++
				if o.Status == "proved" {
					discharged++
					bySolver[o.Solver]++
					continue
				}
				bad(o)
			}
		}
	}
	lemmas := leanLemmas(filepath.Join(verif, "contracts", id+".lean"))
	for _, l := range lemmas {
		total++
		if l.ok {
			discharged++
			bySolver["lean"]++
		} else {
			viols = append(viols, violation{Property: id, Obligation: "lemma " + l.name, Status: "not proved", Solver: "lean", Detail: l.out})
		}
	}
	if total < need {
		return fail("%d obligations generated, at least %d expected: contracts and code no longer match", total, need)
	}
	if total > 0 && open == 0 {
		return fail("no function under contract has a reachable return")
	}
	// replay
	replay := ""
	foundInput := false
	if len(viols) > 0 {
		replay = filepath.Join(evdir, "replay", id+"-violation.txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: %d obligation(s) not discharged\n\n", id, len(viols))
		for _, v := range viols {
			fmt.Fprintf(&b, "obligation: %s\n  at %s\n  verdict: %s (%s)\n", v.Obligation, v.Where, v.Status, v.Solver)
			for _, k := range sortedKeys(v.Model) {
				fmt.Fprintf(&b, "    %s = %s\n", k, v.Model[k])
			}
			b.WriteByte('\n')
		}
		out, ok, err := runReplay(repo, verif, id, viols)
		if err != nil {
			fmt.Fprintf(&b, "replay on the real code: not available (%v)\n%s\n", err, out)
		} else if ok {
			foundInput = true
			fmt.Fprintf(&b, "replay on the real code: the property fails\n%s\n", out)
		} else {
			fmt.Fprintf(&b, "replay on the real code: no failing input found\n%s\n", out)
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
	}
	// evidence
	var fnames []string
	for _, r := range all {
		fnames = append(fnames, r.Func)
	}
	trusted := []string{
		"govc (verification condition generator in /verif/govc) and golang.org/x/tools/go/ssa",
		"z3 5.3.2, with z3 4.8.12 and cvc5 1.1.2 for obligations z3 5.3.2 leaves open",
		"the Go compiler and runtime",
		"assumed contracts of external functions: " + strings.Join(sortedKeys(externs), ", "),
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]any{
			"obligations": total, "discharged": discharged,
			"checker_cmd":                fmt.Sprintf("govc check -property %s -repo %s (specs: %s)", id, repo, strings.Join(base(specs), " ")),
			"trusted_base":               trusted,
			"functions_under_contract":   len(fnames),
			"functions":                  fnames,
			"discharged_by":              bySolver,
			"inferred_invariants":        invs,
			"reachable_returns":          covered,
			"solver_s":                   float64(solverMs) / 1000,
			"contracts_used_at_calls":    sortedKeys(assumed),
			"executed_in_place_at_calls": sortedKeys(inlined),
			"known_findings":             notes,
			"specifications":             opts,
			"generator_warnings":         sortedKeys(warns),
		},
		"assumptions": assumptions(specs),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(viols),
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(js, '\n'), 0o644); err != nil {
		return fail("%v", err)
	}
	fmt.Printf("%s: %d functions under contract, %d obligations, %d discharged, %d known, %d not discharged, %.1f s\n",
		id, len(all), total, discharged, len(notes), len(viols), time.Since(t0).Seconds())
	if len(viols) > 0 {
		for i, v := range viols {
			if i == 20 {
				fmt.Printf("  ... and %d more\n", len(viols)-i)
				break
			}
			fmt.Printf("  not discharged: %s at %s (%s)\n", v.Obligation, v.Where, v.Status)
		}
		if foundInput {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, replay)
		}
		return 1
	}
	return 0
}

func base(ps []string) []string {
	var out []string
	for _, p := range ps {
		out = append(out, filepath.Base(p))
	}
	return out
}

func loadKnown(path string) (map[string]bool, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	m := map[string]bool{}
	for _, l := range strings.Split(string(b), "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "#") {
			m[l] = true
		}
	}
	return m, nil
}

// describe summarises a contract file for the evidence.
func (s *Spec) describe(name string) string {
	n := 0
	for _, c := range s.Funcs {
		n += len(c.Requires) + len(c.Ensures) + len(c.Invs) + len(c.Steps)
	}
	for _, c := range s.Schemas {
		n += len(c.C.Requires) + len(c.C.Ensures) + len(c.C.Invs) + len(c.C.Steps)
	}
	return fmt.Sprintf("%s: %d clauses, %d assumed external contracts, safety=%v overflow=%v", name, n, len(s.Externs), s.Opt.safety, s.Opt.overflow)
}

// assumptions lists what the proofs take for granted: a fixed part plus the
// "assume" lines of the contract files.
func assumptions(specs []string) []string {
	out := []string{
		"integers are unbounded mathematical integers unless the contract file turns on overflow checks",
		"goroutines started through errgroup run one after another; data races are not considered",
		"objects taken from a sync.Pool are not in use elsewhere",
		"a panic ends the path (absence of panics is a separate obligation only where the contract file asks for it)",
		"external functions behave as their assumed contracts say and otherwise change only memory reachable through their pointer arguments",
		"iteration over a Go map visits arbitrary entries in arbitrary order",
	}
	for _, f := range specs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			if r, ok := strings.CutPrefix(l, "#assume "); ok {
				out = append(out, strings.TrimSpace(r))
			}
		}
	}
	return out
}

// runReplay runs the property's harness against the code under check. ok means
// a failing input was found.
func runReplay(repo, verif, id string, viols []violation) (out string, ok bool, err error) {
	src := filepath.Join(verif, "replay")
	main := filepath.Join(src, strings.ToLower(id)+"_verif_test.go")
	if _, e := os.Stat(main); e != nil {
		return "", false, fmt.Errorf("no harness for %s", id)
	}
	tmp, e := os.MkdirTemp("", "replay")
	if e != nil {
		return "", false, e
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	for _, dir := range []string{"ddl", "internal/pqarray"} {
		tests, _ := filepath.Glob(filepath.Join(repo, dir, "*_test.go"))
		for _, t := range tests {
			rep[t] = ""
		}
	}
	pkg := "ddl"
	if b, _ := os.ReadFile(main); strings.Contains(string(b), "package pqarray") {
		pkg = "internal/pqarray"
	} else {
		rep[filepath.Join(repo, "ddl", "common_verif_test.go")] = filepath.Join(src, "common_verif_test.go")
	}
	rep[filepath.Join(repo, pkg, filepath.Base(main))] = main
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(tmp, "overlay.json")
	if e := os.WriteFile(ov, js, 0o644); e != nil {
		return "", false, e
	}
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-overlay", ov, "-tags=fts5", "-count=1", "-timeout", "120s", "-vet=off", "-run", "^TestReplay$", "./"+pkg)
	cmd.Dir = repo
	cmd.WaitDelay = 5 * time.Second
	var names []string
	for _, v := range viols {
		names = append(names, v.Obligation)
	}
	cmd.Env = append(os.Environ(), "PATH=/opt/veriftools/go1.24.13/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off",
		"GOFLAGS=-mod=mod -buildvcs=false", "CGO_ENABLED=1", "TMPDIR="+tmp, "VERIF_OBLIGATIONS="+strings.Join(names, "\n"))
	b, e := cmd.CombinedOutput()
	out = string(b)
	if len(out) > 20000 {
		out = out[:20000] + "\n..."
	}
	if e == nil {
		return out, false, nil
	}
	if strings.Contains(out, "--- FAIL: TestReplay") || strings.Contains(out, "panic:") {
		return out, true, nil
	}
	return out, false, e
}

type lemma struct {
	name, out string
	ok        bool
}

var theoremRe = regexp.MustCompile(`(?m)^theorem ([A-Za-z0-9_.]+)`)

// leanLemmas checks the lemmas about the functions used in the contracts.
func leanLemmas(file string) []lemma {
	src, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var names []string
	for _, m := range theoremRe.FindAllStringSubmatch(string(src), -1) {
		names = append(names, m[1])
	}
	tmp, err := os.CreateTemp("", "lemmas*.lean")
	if err != nil {
		return []lemma{{name: file, out: err.Error()}}
	}
	defer os.Remove(tmp.Name())
	tmp.Write(src)
	for _, n := range names {
		fmt.Fprintf(tmp, "\n#print axioms %s\n", n)
	}
	tmp.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	lean := "/app/lean4-4.33.0/build/release/stage1/bin/lean"
	if p, err := exec.LookPath("lean"); err == nil {
		lean = p
	}
	b, err := exec.CommandContext(ctx, lean, tmp.Name()).CombinedOutput()
	out := string(b)
	ok := err == nil && !strings.Contains(out, "sorryAx") && !strings.Contains(out, "error")
	var ls []lemma
	for _, n := range names {
		ls = append(ls, lemma{n, out, ok})
	}
	return ls
}
