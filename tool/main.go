package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Task is one verification unit of a property.
type Task struct {
	name string
	run  func() *Unit
}

// tasksFor: the units that discharge one contract (or lemma)
func (v *Verifier) tasksFor(item string) (ts []Task, assumed string) {
	if l := v.sp.lemmas[item]; l != nil && l.axiom {
		return nil, "definition " + item
	} else if l != nil {
		return []Task{{"lemma " + item, func() *Unit { return v.verifyLemma(l) }}}, ""
	}
	if r := v.sp.recs[strings.TrimPrefix(item, "rec:")]; r != nil && strings.HasPrefix(item, "rec:") {
		return []Task{{item, func() *Unit { return v.verifyRec(r) }}}, ""
	}
	ct := v.sp.contracts[item]
	if ct == nil {
		return []Task{{item, func() *Unit {
			x := newUnit(v, item)
			x.err = "no contract named " + item
			return x
		}}}, ""
	}
	switch ct.kind {
	case "lib":
		return nil, "library contract " + item
	case "iface":
		if ct.flags["assumed"] != "" {
			return nil, "interface contract " + item + " (" + ct.flags["assumed"] + ")"
		}
		i := strings.LastIndex(item, ".")
		it := v.named[item[:i]]
		if it == nil {
			return []Task{{item, func() *Unit { x := newUnit(v, item); x.err = "no interface " + item[:i]; return x }}}, ""
		}
		iu := it.Underlying().(*types.Interface)
		var m *types.Func
		for j := 0; j < iu.NumMethods(); j++ {
			if iu.Method(j).Name() == item[i+1:] {
				m = iu.Method(j)
			}
		}
		if m == nil {
			return []Task{{item, func() *Unit { x := newUnit(v, item); x.err = "no method " + item; return x }}}, ""
		}
		only := map[string]bool{}
		if o := ct.flags["only"]; o != "" {
			for _, n := range strings.Split(o, ",") {
				only[n] = true
			}
		}
		for _, f := range v.implementors(it, m) {
			f := f
			n := shortFn(f)
			if len(only) > 0 {
				rn := n[strings.Index(n, "*")+1 : strings.Index(n, ")")]
				if !only[rn] {
					continue
				}
			}
			own := v.sp.contracts[n]
			if own != nil && own.kind == "func" {
				ts = append(ts, Task{n + " refines " + item, func() *Unit { return v.verifyRefine(n+" refines "+item, f, own, ct, it) }})
			} else {
				ts = append(ts, Task{n + " as " + item, func() *Unit { return v.verifyFn(n+" as "+item, f, ct, it) }})
			}
		}
		return ts, ""
	}
	f := v.fnName[item]
	if f == nil {
		f = v.findRenamed(item, ct)
	}
	if f == nil {
		return []Task{{item, func() *Unit { x := newUnit(v, item); x.err = "function not found in the source"; return x }}}, ""
	}
	return []Task{{item, func() *Unit { return v.verifyFn(item, f, ct, nil) }}}, ""
}

func (v *Verifier) findRenamed(item string, ct *Contract) *ssa.Function { return nil }

type Report struct {
	Units      []*UnitResult
	Assumed    map[string]bool
	Lemmas     map[string]bool
	Funcs      map[string]bool
	Failed     []*Obl
	Errs       []string
	Obls, Done int
	By         map[string]int
	Invs       int
	Libs       map[string]bool
	Inlined    map[string]bool
}

// retry: when only a little was left open, do those units again with more patience
// (a busy machine makes a solver miss its limit)
func (v *Verifier) retry(rep *Report, again map[*UnitResult]func() *Unit) {
	var bad []int
	n := 0
	for i, r := range rep.Units {
		if r.err == "" && len(r.failed) > 0 {
			bad = append(bad, i)
			n += len(r.failed)
		}
	}
	if len(bad) == 0 || len(bad) > 4 || n > 40 {
		return
	}
	ob, cb, fc := oblBudget, candBudget, failCnt
	defer func() { oblBudget, candBudget, failCnt = ob, cb, fc }()
	failCnt = 0
	oblBudget = []stage{{{0, sec(5)}, {2, sec(5)}}, {{0, sec(40)}, {1, sec(40)}, {2, sec(40)}}}
	candBudget = []stage{{{0, sec(10)}, {2, sec(10)}}}
	for _, i := range bad {
		termMu.Lock()
		x := again[rep.Units[i]]()
		if x.err == "" {
			func() {
				defer func() {
					if r := recover(); r != nil {
						x.err = fmt.Sprint(r)
					}
				}()
				x.lemmaTexts()
			}()
		}
		termMu.Unlock()
		if x.err != "" {
			continue
		}
		if r := x.solve(); len(r.failed) < len(rep.Units[i].failed) {
			rep.Units[i] = r
		}
	}
}

func (v *Verifier) verifyItems(items []string, deps bool, progress bool) *Report {
	rep := &Report{Assumed: map[string]bool{}, Lemmas: map[string]bool{}, Funcs: map[string]bool{}, By: map[string]int{}, Libs: map[string]bool{}, Inlined: map[string]bool{}}
	seen := map[string]bool{}
	again := map[*UnitResult]func() *Unit{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var schedule func(item string)
	schedule = func(item string) {
		mu.Lock()
		if seen[item] {
			mu.Unlock()
			return
		}
		seen[item] = true
		mu.Unlock()
		termMu.Lock()
		ts, assumed := v.tasksFor(item)
		termMu.Unlock()
		if assumed != "" {
			mu.Lock()
			rep.Assumed[assumed] = true
			mu.Unlock()
			return
		}
		for _, t := range ts {
			t := t
			wg.Add(1)
			go func() {
				defer wg.Done()
				termMu.Lock()
				x := t.run()
				if x.err == "" {
					func() {
						defer func() {
							if r := recover(); r != nil {
								if u, ok := r.(untrans); ok {
									x.err = u.msg
									return
								}
								if u, ok := r.(specErr); ok {
									x.err = u.Error()
									return
								}
								panic(r)
							}
						}()
						x.lemmaTexts()
					}()
				}
				termMu.Unlock()
				r := x.solve()
				mu.Lock()
				rep.Units = append(rep.Units, r)
				again[r] = t.run
				mu.Unlock()
				if progress {
					s := "ok"
					if r.err != "" {
						s = "ERROR " + r.err
					} else if len(r.failed) > 0 || len(r.vacuous) > 0 {
						s = fmt.Sprintf("FAILED %d %v", len(r.failed), r.vacuous)
					}
					fmt.Printf("%-60s %4d/%4d obligations, %d inv, %.1fs %s\n", r.name, r.discharged, r.obls, r.invs, r.wall.Seconds(), s)
				}
				if deps {
					for d := range x.deps {
						schedule(d)
					}
					for _, l := range x.lemmaDeps {
						schedule(l)
					}
					for r := range x.recDeps {
						schedule("rec:" + r)
					}
				}
			}()
		}
	}
	for _, it := range items {
		schedule(it)
	}
	wg.Wait()
	if os.Getenv("GV_CACHE") == "" {
		v.retry(rep, again)
	}
	sort.Slice(rep.Units, func(i, j int) bool { return rep.Units[i].name < rep.Units[j].name })
	for _, r := range rep.Units {
		rep.Obls += r.obls
		rep.Done += r.discharged
		rep.Invs += r.invs
		for k, n := range r.by {
			rep.By[k] += n
		}
		for _, l := range r.libs {
			rep.Libs[l] = true
		}
		for _, l := range r.inlined {
			rep.Inlined[l] = true
		}
		if strings.HasPrefix(r.name, "lemma ") {
			rep.Lemmas[strings.TrimPrefix(r.name, "lemma ")] = true
		} else {
			rep.Funcs[r.name] = true
		}
		rep.Failed = append(rep.Failed, r.failed...)
		if r.err != "" {
			rep.Errs = append(rep.Errs, r.name+": "+r.err)
		}
		for _, s := range r.vacuous {
			rep.Errs = append(rep.Errs, r.name+": vacuous: "+s)
		}
	}
	return rep
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gv fn|check|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("gv", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	spec := fs.String("spec", "/verif/spec", "contracts")
	prop := fs.String("prop", "", "property")
	dump := fs.String("dump", "", "directory for failed queries")
	deps := fs.Bool("deps", false, "verify dependencies too")
	facts := fs.Bool("v", false, "verbose")
	verif := fs.String("verif", "/verif", "verification directory")
	tier := fs.String("tier", "quick", "tier")
	out := fs.String("out", "", "JSON report")
	fs.Parse(os.Args[2:])
	t0 := time.Now()
	l, err := LoadRepo(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	sp, err := LoadSpecs(*spec)
	if err != nil {
		fmt.Fprintln(os.Stderr, "specs:", err)
		os.Exit(3)
	}
	v := NewVerifier(l, sp)
	load := time.Since(t0)
	if *tier != "thorough" {
		loadHints(filepath.Join(*verif, "spec", "hints.txt"))
	}
	if *tier == "thorough" {
		oblBudget = append(oblBudget, stage{{0, sec(60)}, {1, sec(60)}, {2, sec(60)}})
		candBudget = []stage{{{0, sec(5)}}, {{2, sec(5)}}, {{1, sec(5)}}}
	}
	switch os.Args[1] {
	case "fn":
		rep := v.verifyItems(fs.Args(), *deps, true)
		for i, o := range rep.Failed {
			fmt.Printf("FAILED (%s) %s\n   goal: %.600s\n", o.res, o.name(), o.goal)
			if *facts {
				for _, f := range o.facts.list() {
					fmt.Printf("      %.400s\n", f)
				}
			}
			if *dump != "" {
				os.MkdirAll(*dump, 0755)
				n := filepath.Join(*dump, mangle(o.name())+fmt.Sprintf("_%d.smt2", i))
				os.WriteFile(n, []byte(o.text), 0644)
				fmt.Println("   ", n)
			}
		}
		fmt.Printf("%d/%d obligations, load %.1fs, solver %.1fs, wall %.1fs, errs %d\n", rep.Done, rep.Obls, load.Seconds(), solveTime.Seconds(), time.Since(t0).Seconds(), len(rep.Errs))
	case "check":
		os.Exit(v.check(*prop, *verif, *tier, *out, t0))
	case "replay": // only the search for a failing input
		f, i := replay(*verif, *prop, atoi(os.Getenv("VERIF_SEED")), *tier)
		fmt.Println(f, time.Since(t0))
		fmt.Println(i)
	case "list":
		for _, n := range sortedKeys(v.fnName) {
			fmt.Println(n)
		}
	}
}


func atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}
