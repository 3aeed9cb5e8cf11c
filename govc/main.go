package main

import (
	"flag"
	"fmt"
	"os"
	"path"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "repository")
		verif := fs.String("verif", "/verif", "directory with contracts")
		id := fs.String("property", "", "property")
		fs.Parse(os.Args[2:])
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		os.Exit(runCheck(*repo, *verif, *id, tier, seed))
	}
	repo := flag.String("repo", "/repo", "repository")
	specFile := flag.String("spec", "", "contract file")
	only := flag.String("fn", "", "verify only functions matching")
	candMs := flag.Int("cand-ms", 1000, "")
	obligMs := flag.Int("oblig-ms", 10000, "")
	fallMs := flag.Int("fall-ms", 20000, "")
	verbose := flag.Bool("v", false, "")
	dumpSSA := flag.String("ssa", "", "print SSA of function")
	prof := flag.String("prof", "", "cpu profile")
	known := flag.String("known", "", "file naming the functions with contracts")
	list := flag.Bool("list", false, "list the functions")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	w, err := LoadWorld(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *dumpSSA != "" {
		if fn := w.funcs[*dumpSSA]; fn != nil {
			fn.WriteTo(os.Stdout)
		} else {
			for _, n := range sortedKeys(w.funcs) {
				if strings.Contains(n, *dumpSSA) {
					fmt.Println(n)
				}
			}
		}
		return
	}
	spec, err := LoadSpec(*specFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *known != "" {
		if spec.Known, err = loadKnown(*known); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	if *list {
		for _, n := range sortedKeys(w.funcs) {
			if fn := w.funcs[n]; fn.Parent() == nil && fn.Synthetic == "" && fn.Name() != "init" {
				fmt.Println(n)
			}
		}
		return
	}
	fns := w.targets(spec, *only)
	results := w.verifyAll(spec, fns, *candMs, *obligMs, *fallMs)
	report(results, *verbose)
}

// targets selects the functions whose bodies are verified.
func (w *World) targets(spec *Spec, only string) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range sortedKeys(w.funcs) {
		fn := w.funcs[n]
		if only != "" {
			if n == only || strings.Contains(only, "*") && !strings.HasPrefix(only, "(*") && pathMatch(only, n) {
				out = append(out, fn)
			}
			continue
		}
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Name() == "init" {
			continue
		}
		if matchAny(spec.Skip, n) || matchAny(spec.Inline, n) {
			continue
		}
		if _, ok := spec.Externs[n]; ok {
			continue
		}
		if matchAny(spec.Verify, n) {
			out = append(out, fn)
			continue
		}
		if _, only := spec.Params["only"]; only && spec.Funcs[n] == nil {
			// schema contracts claim nothing here, they only cut calls
			continue
		}
		if ct := w.contractFor(spec, fn); ct != nil {
			out = append(out, fn)
		} else if c := spec.Funcs[n]; c != nil {
			out = append(out, fn)
		}
	}
	return out
}

func pathMatch(p, n string) bool { ok, _ := path.Match(p, n); return ok }

func (w *World) verifyAll(spec *Spec, fns []*ssa.Function, candMs, obligMs, fallMs int) []*FuncResult {
	results := make([]*FuncResult, len(fns))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	// big functions first
	idx := make([]int, len(fns))
	for i := range idx {
		idx[i] = i
	}
	size := func(f *ssa.Function) int {
		n := 0
		for _, b := range f.Blocks {
			n += len(b.Instrs)
		}
		return n
	}
	sort.SliceStable(idx, func(i, j int) bool { return size(fns[idx[i]]) > size(fns[idx[j]]) })
	for _, i := range idx {
		i := i
		sem <- true
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			results[i] = VerifyFunc(w, spec, fns[i], candMs, obligMs, fallMs)
			if os.Getenv("GOVC_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "done %s %dms rounds=%d\n", results[i].Func, results[i].WallMs, results[i].Rounds)
			}
		}()
	}
	wg.Wait()
	return results
}

func report(rs []*FuncResult, verbose bool) {
	tot, proved := 0, 0
	for _, r := range rs {
		bad := r.Err != "" || r.Covered == "unreachable"
		np := 0
		for _, o := range r.Obligs {
			tot++
			if o.Status == "proved" {
				proved++
				np++
			} else {
				bad = true
			}
		}
		if bad || verbose {
			fmt.Printf("%s: %d/%d proved, %d invariants, %d rounds, cover %s, %d ms (solver %d) %s\n", r.Func, np, len(r.Obligs), r.Invs, r.Rounds, r.Covered, r.WallMs, r.SolverMs, r.Err)
		}
		for _, o := range r.Obligs {
			if o.Status != "proved" {
				fmt.Printf("   %s: %s %s in=%s pos=%s (%s, %d ms)\n", strings.ToUpper(o.Status), o.Name, cnt(o.Count), o.In, o.Pos, o.Solver, o.Ms)
			}
		}
		if verbose {
			for _, k := range sortedKeys(r.Warn) {
				fmt.Printf("   warn: %s (%d)\n", k, r.Warn[k])
			}
		}
	}
	fmt.Printf("functions %d obligations %d proved %d\n", len(rs), tot, proved)
}

func cnt(n int) string {
	if n > 1 {
		return fmt.Sprintf("#%d", n)
	}
	return ""
}
