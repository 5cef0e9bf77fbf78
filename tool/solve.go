package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const basePrelude = `(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.ematching true)
(declare-sort QSeq 0)
(declare-sort Flt 0)
(declare-datatypes ((Slice 0)) (((mkslice (sbase Int) (soff Int) (slen Int) (scap Int)))))
(declare-datatypes ((Iface 0)) (((iface (itag Int) (ival Int)))))
`

// consequences of the sequence axioms used by units that reason about whole sequences only
const seqStoreTheory = `
(assert (forall ((m (Array Int Int)) (k Int) (v Int) (o Int) (n Int)) (! (=> (and (= k o) (<= 1 n)) (= (sq (store m k v) o n) (qapp (qone v) (qsub (sq m o n) 1 (- n 1))))) :pattern ((sq (store m k v) o n)))))
(assert (forall ((m (Array Int Int)) (o Int) (n Int)) (! (=> (<= 1 n) (= (qat (sq m o n) 0) (select m o))) :pattern ((sq m o n)))))
`

const baseTheory = `(declare-fun kindOf (Int) Int)
(declare-fun elemOf (Int) Int)
(declare-fun implementsT (Int Int) Bool)
(declare-fun touched (Int) Bool)
(declare-const flt0 Flt)
(declare-fun feq (Flt Flt) Bool)
(declare-fun flt (Flt Flt) Bool)
(declare-fun fle (Flt Flt) Bool)
(declare-fun fadd (Flt Flt) Flt)
(declare-fun fsub (Flt Flt) Flt)
(declare-fun fmul (Flt Flt) Flt)
(declare-fun fdiv (Flt Flt) Flt)
(declare-fun fneg (Flt) Flt)
(declare-fun itof (Int) Flt)
(declare-fun ix (Int Int) Int)
(assert (forall ((o Int) (i Int)) (! (= (ix o i) (+ o i)) :pattern ((ix o i)))))
(declare-fun pow2 (Int) Int)
(assert (= (pow2 0) 1))
(assert (forall ((n Int)) (! (=> (< 0 n) (= (pow2 n) (* 2 (pow2 (- n 1))))) :pattern ((pow2 n) (pow2 (- n 1))))))
(assert (forall ((n Int)) (! (=> (<= 0 n) (<= 1 (pow2 n))) :pattern ((pow2 n)))))
(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))
(define-fun trem ((a Int) (b Int)) Int (ite (>= a 0) (mod a b) (- (mod (- a) b))))
(declare-fun qlen (QSeq) Int)
(declare-fun qat (QSeq Int) Int)
(declare-const sempty QSeq)
(declare-fun qone (Int) QSeq)
(declare-fun qapp (QSeq QSeq) QSeq)
(declare-fun qsub (QSeq Int Int) QSeq)
(declare-fun sq ((Array Int Int) Int Int) QSeq)
(declare-fun qeq (QSeq QSeq) Bool)
(declare-fun qlt (QSeq QSeq) Bool)
(assert (forall ((s QSeq)) (! (<= 0 (qlen s)) :pattern ((qlen s)))))
(assert (= (qlen sempty) 0))
(assert (forall ((s QSeq)) (! (=> (= (qlen s) 0) (= s sempty)) :pattern ((qlen s)))))
(assert (forall ((x Int)) (! (and (= (qlen (qone x)) 1) (= (qat (qone x) 0) x)) :pattern ((qone x)))))
(assert (forall ((a QSeq) (b QSeq)) (! (= (qlen (qapp a b)) (+ (qlen a) (qlen b))) :pattern ((qapp a b)))))
(assert (forall ((a QSeq) (b QSeq) (i Int)) (! (=> (and (<= 0 i) (< i (+ (qlen a) (qlen b)))) (= (qat (qapp a b) i) (ite (< i (qlen a)) (qat a i) (qat b (- i (qlen a)))))) :pattern ((qat (qapp a b) i)))))
(assert (forall ((a QSeq)) (! (= (qapp sempty a) a) :pattern ((qapp sempty a)))))
(assert (forall ((a QSeq)) (! (= (qapp a sempty) a) :pattern ((qapp a sempty)))))
(assert (forall ((a QSeq) (b QSeq) (c QSeq)) (! (= (qapp (qapp a b) c) (qapp a (qapp b c))) :pattern ((qapp (qapp a b) c)))))
(assert (forall ((s QSeq) (o Int) (n Int)) (! (=> (and (<= 0 o) (<= 0 n) (<= (+ o n) (qlen s))) (= (qlen (qsub s o n)) n)) :pattern ((qsub s o n)))))
(assert (forall ((s QSeq) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 o) (<= 0 i) (< i n) (<= (+ o n) (qlen s))) (= (qat (qsub s o n) i) (qat s (+ o i)))) :pattern ((qat (qsub s o n) i)))))
(assert (forall ((s QSeq) (n Int)) (! (=> (= n (qlen s)) (= (qsub s 0 n) s)) :pattern ((qsub s 0 n)))))
(assert (forall ((s QSeq) (o Int) (n Int)) (! (=> (= n 0) (= (qsub s o n) sempty)) :pattern ((qsub s o n)))))
(assert (forall ((a QSeq) (b QSeq) (o Int) (n Int)) (! (and
  (=> (and (<= 0 o) (<= 0 n) (<= (+ o n) (qlen a))) (= (qsub (qapp a b) o n) (qsub a o n)))
  (=> (and (<= (qlen a) o) (<= 0 n) (<= (+ o n) (+ (qlen a) (qlen b)))) (= (qsub (qapp a b) o n) (qsub b (- o (qlen a)) n))))
  :pattern ((qsub (qapp a b) o n)))))
(assert (forall ((s QSeq) (o Int) (n Int) (p Int) (k Int)) (! (=> (and (<= 0 o) (<= 0 p) (<= 0 k) (<= (+ p k) n) (<= (+ o n) (qlen s))) (= (qsub (qsub s o n) p k) (qsub s (+ o p) k))) :pattern ((qsub (qsub s o n) p k)))))
(assert (forall ((m (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (qlen (sq m o n)) n)) :pattern ((sq m o n)))))
(assert (forall ((m (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (qat (sq m o n) i) (select m (ix o i)))) :pattern ((qat (sq m o n) i)))))
(assert (forall ((m (Array Int Int)) (o Int) (n Int) (p Int) (k Int)) (! (=> (and (<= 0 p) (<= 0 k) (<= (+ p k) n)) (= (qsub (sq m o n) p k) (sq m (+ o p) k))) :pattern ((qsub (sq m o n) p k)))))
(assert (forall ((a QSeq) (b QSeq)) (! (=> (qeq a b) (= a b)) :pattern ((qeq a b)))))
(assert (forall ((a QSeq) (b QSeq)) (! (or (qeq a b) (not (= (qlen a) (qlen b))) (exists ((i Int)) (and (<= 0 i) (< i (qlen a)) (not (= (qat a i) (qat b i)))))) :pattern ((qeq a b)))))
`

var declared = map[string]bool{}

func init() {
	re := regexp.MustCompile(`\((?:declare-fun|declare-const|define-fun|declare-sort) ([^ ]+)`)
	for _, m := range re.FindAllStringSubmatch(baseTheory+basePrelude, -1) {
		declared[m[1]] = true
	}
	for _, s := range strings.Fields("and or not => = ite < <= > >= + - * div mod select store true false forall exists mkslice sbase soff slen scap iface itag ival distinct to_real to_int abs /") {
		declared[s] = true
	}
}

// queryText renders one obligation as an SMT-LIB script.
func (x *Unit) queryText(o *Obl, negate bool) string {
	V := x.V
	var facts []*T
	facts = append(facts, x.axioms...)
	for f := o.facts; f != nil; f = f.parent {
		if f.cand != nil && f.cand.rep.dead {
			continue
		}
		facts = append(facts, f.fact)
	}
	goal := o.goal
	syms := map[string]*T{}
	seen := map[int]bool{}
	var collect func(t *T, bound map[string]int)
	collect = func(t *T, bound map[string]int) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "forall" || t.op == "exists" {
			for _, v := range t.vars {
				bound[v.name]++
			}
		}
		if t.num == nil {
			if _, ok := syms[t.op]; !ok {
				syms[t.op] = t
			}
		}
		for _, a := range t.args {
			collect(a, bound)
		}
		for _, p := range t.pats {
			for _, a := range p {
				collect(a, bound)
			}
		}
	}
	bound := map[string]int{}
	for _, f := range facts {
		collect(f, bound)
	}
	gf := goal
	if negate {
		gf = goalForm(goal, true)
	}
	collect(gf, bound)
	lems := x.lemmaTexts()
	for _, t := range x.strs {
		collect(t, bound)
	}
	var sb strings.Builder
	sb.WriteString(basePrelude)
	for _, n := range V.sorts.order {
		sb.WriteString(V.sorts.decls[n] + "\n")
	}
	sb.WriteString(baseTheory)
	if x.seqOnly() {
		sb.WriteString(seqStoreTheory)
	}
	for _, f := range V.sorts.TagFactsFor(syms) {
		sb.WriteString(f + "\n")
	}
	for _, s := range sortedKeys(V.sorts.boxes) {
		so := V.sorts.boxes[s]
		if so == "Bool" || so == "Int" {
			continue
		}
		if so != "Slice" && so != "QSeq" && so != "Flt" && !strings.HasPrefix(so, "D_") {
			continue
		}
		fmt.Fprintf(&sb, "(declare-fun box_%s (%s) Int)(declare-fun unbox_%s (Int) %s)\n", s, so, s, so)
		fmt.Fprintf(&sb, "(assert (forall ((v %s)) (! (= (unbox_%s (box_%s v)) v) :pattern ((box_%s v)))))\n", so, s, s, s)
		fmt.Fprintf(&sb, "(assert (forall ((v Int)) (! (= (box_%s (unbox_%s v)) v) :pattern ((unbox_%s v)))))\n", s, s, s)
	}
	mods := x.modules(syms)
	for _, r := range V.sp.recs {
		if mods[r.file] {
			if x.recDeps == nil {
				x.recDeps = map[string]bool{}
			}
			x.recDeps[r.name] = true
		}
	}
	for _, b := range V.sp.smt {
		if mods[b.file] {
			sb.WriteString(b.text)
		}
	}
	noAx := false
	for _, b := range V.recText {
		if mods[b.file] {
			sb.WriteString(b.decl)
			if b.name == x.recUnit {
				noAx = true
			}
			if !noAx && !x.isOpaque(b.name) {
				if x.ct != nil {
					sb.WriteString(b.fnAx)
				} else {
					sb.WriteString(b.ax)
				}
			}
		}
	}
	heapFuns := map[string]bool{}
	for _, d := range V.sp.defs {
		if d.heap && mods[d.file] {
			heapFuns[d.name] = true
			sb.WriteString(V.heapFunDecl(d))
		}
	}
	ks := sortedKeys(syms)
	for _, k := range ks {
		t := syms[k]
		if declared[k] || bound[k] > 0 || heapFuns[k] || strings.HasPrefix(k, "(") || strings.HasPrefix(k, "tag_") {
			continue
		}
		if _, ok := V.sp.sigs[k]; ok {
			continue
		}
		if V.isCtor(k) || strings.HasPrefix(k, "box_") || strings.HasPrefix(k, "unbox_") {
			continue
		}
		if strings.HasSuffix(t.sort, ".0") || k[0] >= '0' && k[0] <= '9' {
			continue
		}
		var as []string
		for _, a := range t.args {
			as = append(as, a.sort)
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", k, strings.Join(as, " "), t.sort)
	}
	for _, l := range lems {
		sb.WriteString(l)
	}
	for i := range facts {
		sb.WriteString("(assert ")
		facts[i].write(&sb)
		sb.WriteString(")\n")
	}
	if negate {
		sb.WriteString("(assert (not ")
		gf.write(&sb)
		sb.WriteString("))\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

func (v *Verifier) isCtor(k string) bool {
	if strings.HasPrefix(k, "mk_D_") {
		return true
	}
	if strings.HasPrefix(k, "D_") && strings.Contains(k, ".") {
		return true
	}
	return false
}

func (v *Verifier) heapFunDecl(d *Def) string {
	var as []string
	for _, k := range d.reads {
		for _, kk := range expandKey(k) {
			as = append(as, v.resolveKey(kk).sort)
		}
	}
	for _, p := range d.params {
		_, so := v.resolveType(p.typ)
		as = append(as, so)
	}
	_, r := v.resolveType(d.ret)
	return fmt.Sprintf("(declare-fun %s (%s) %s)\n", d.name, strings.Join(as, " "), r)
}

// modules whose theory is needed
func (x *Unit) modules(syms map[string]*T) map[string]bool {
	out := map[string]bool{}
	var add func(m string)
	add = func(m string) {
		if m == "" || out[m] {
			return
		}
		out[m] = true
		if mod := x.V.sp.modules[m]; mod != nil {
			for _, u := range mod.uses {
				add(u)
			}
		}
	}
	for s := range syms {
		if m, ok := x.V.sp.sigMod[s]; ok {
			add(m)
		}
		if d, ok := x.V.sp.defs[s]; ok {
			add(d.file)
		}
	}
	for _, l := range x.lemmaList() {
		add(x.V.sp.lemmas[l].file)
	}
	return out
}

// ------------------------------------------------------------ running solvers

type solverCfg struct {
	name string
	args []string
}

var solvers = []solverCfg{
	{"z3", []string{"z3", "-smt2", "-in"}},
	{"z3-new", []string{"z3-new", "-smt2", "-in"}},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--no-interactive", "-q"}},
}

var (
	slots     = make(chan struct{}, 8)
	solveMu   sync.Mutex
	solveTime time.Duration
	solveCnt  = map[string]int{}
	cacheDir  = os.Getenv("GV_CACHE")
)

func runSolver(parent context.Context, s solverCfg, text string, timeout time.Duration) (string, string) {
	select {
	case slots <- struct{}{}:
	case <-parent.Done():
		return "timeout", ""
	}
	defer func() { <-slots }()
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(parent, timeout)
	defer cancel()
	if s.name == "cvc5" {
		text = "(set-logic ALL)\n" + stripZ3(text)
	}
	cmd := exec.CommandContext(ctx, s.args[0], s.args[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	solveMu.Lock()
	solveTime += time.Since(t0)
	solveCnt[s.name]++
	solveMu.Unlock()
	r := out.String()
	if i := strings.Index(r, "(error"); i >= 0 {
		return "error", r
	}
	for _, ln := range strings.Split(r, "\n") {
		switch strings.TrimSpace(ln) {
		case "unsat":
			return "unsat", r
		case "sat":
			return "sat", r
		case "unknown":
			return "unknown", r
		}
	}
	return "timeout", r
}

func stripZ3(s string) string {
	var sb strings.Builder
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "(set-option :auto_config") || strings.HasPrefix(l, "(set-option :smt.") {
			continue
		}
		sb.WriteString(l + "\n")
	}
	return sb.String()
}

func cacheKey(text string) string {
	h := sha256.Sum256([]byte(text))
	return filepath.Join(cacheDir, hex.EncodeToString(h[:]))
}

// hints.txt names, for queries seen before, the solver that discharges them, so that it is asked first, and
// the candidate invariants and joins it is not worth trying again (9): giving one up only weakens what may be
// assumed. Every obligation is still put to a solver on every run; an unknown query goes through all stages.
var (
	hints    = map[string]int{}
	hintsOut = os.Getenv("GV_HINTS_OUT")
	hintMu   sync.Mutex
)

func hintKey(text string) string {
	h := sha256.New()
	for _, l := range strings.SplitAfter(text, "\n") {
		if !strings.HasPrefix(l, "(declare-") { // sorts nothing refers to may be declared or not
			h.Write([]byte(l))
		}
	}
	return hex.EncodeToString(h.Sum(nil)[:6])
}

func hintFor(text string) (int, bool) {
	if len(hints) == 0 {
		return 0, false
	}
	h, ok := hints[hintKey(text)]
	return h, ok
}

func loadHints(file string) {
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		if len(l) == 14 && l[13] >= '0' && l[13] <= '9' {
			hints[l[:12]] = int(l[13] - '0')
		}
	}
}

func noteHint(text string, n int) {
	if hintsOut == "" {
		return
	}
	if d := os.Getenv("GV_TX"); d != "" {
		os.WriteFile(d+"/"+hintKey(text), []byte(text), 0644)
	}
	hintMu.Lock()
	defer hintMu.Unlock()
	if f, err := os.OpenFile(hintsOut, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
		fmt.Fprintf(f, "%s %d\n", hintKey(text), n)
		f.Close()
	}
}

// stage: solvers run side by side; the first definite answer wins.
type stage []struct {
	solver int
	limit  time.Duration
}

func sec(f float64) time.Duration { return time.Duration(f * float64(time.Second)) }

// decide runs the portfolio on a query; unsat means discharged.
var fastOnly = os.Getenv("GV_FAST") != ""

func decide(text string, budget []stage, quickOnly func() bool) (res, by, detail string) {
	slow := text + fmt.Sprint(budget)
	optional := len(budget) > 0 && len(budget) != len(oblBudget)
	if cacheDir != "" {
		for _, k := range []string{text, slow} {
			if b, err := os.ReadFile(cacheKey(k)); err == nil {
				p := strings.SplitN(string(b), " ", 2)
				if p[0] == "unsat" || k == slow {
					if p[0] != "unsat" && optional {
						noteHint(slow, 9)
					}
					for i, s := range solvers {
						if p[0] == "unsat" && i > 0 && s.name == p[1] {
							noteHint(text, i)
						}
					}
					return p[0], p[1], "cached"
				}
			}
		}
	}
	if stopped() {
		return "skipped", "", ""
	}
	if h, ok := hintFor(text); ok && h < len(solvers) {
		if r, _ := runSolver(runCtx, solvers[h], text, sec(60)); r == "unsat" {
			noteHint(text, h)
			return r, solvers[h].name, ""
		}
	}
	if _, ok := hintFor(slow); ok && optional {
		noteHint(slow, 9)
		return "unknown", "", "not proved when the same query was tried before"
	}
	last := 0
	defer func() {
		if res == "unsat" && (by != solvers[0].name || last >= 2) {
			for i, s := range solvers {
				if s.name == by {
					noteHint(text, i)
				}
			}
		} else if res != "unsat" && res != "error" && res != "skipped" && optional && !stopped() {
			noteHint(slow, 9)
		}
	}()
	cut := false // with GV_FAST only the first, short attempt is made (development)
	for i, st := range budget {
		last = i
		if i > 0 && stopped() {
			cut = true
			break
		}
		if i > 0 && fastOnly && len(budget) > 2 || i > 1 && quickOnly != nil && quickOnly() {
			cut = true
			break
		}
		ctx, cancel := context.WithCancel(runCtx)
		type ans struct{ r, by, d string }
		ch := make(chan ans, len(st))
		for _, e := range st {
			e := e
			go func() {
				s := solvers[e.solver]
				r, d := runSolver(ctx, s, text, e.limit)
				ch <- ans{r, s.name, d}
			}()
		}
		for range st {
			a := <-ch
			if a.r == "error" {
				if errCnt++; errCnt < 4 {
					fmt.Fprintf(os.Stderr, "solver error (%s): %s\n", a.by, firstLines(a.d, 3))
					os.WriteFile("/tmp/gv_err.smt2", []byte(text), 0644)
				}
			}
			if res != "unsat" && (res != "sat" || a.r == "unsat") {
				res, by, detail = a.r, a.by, a.d
			}
			if a.r == "unsat" {
				break
			}
		}
		cancel()
		if res == "unsat" || res == "sat" {
			break
		}
	}
	if cacheDir != "" && res != "error" && !cut {
		k := text
		if res != "unsat" {
			k = slow
		}
		os.WriteFile(cacheKey(k), []byte(res+" "+by), 0644)
	}
	return
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// parallel map
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); f(i) }(i)
	}
	wg.Wait()
}

var errCnt int

var termMu sync.Mutex

type UnitResult struct {
	name       string
	obls       int
	discharged int
	trivial    int
	failed     []*Obl
	by         map[string]int
	err        string
	deps, libs []string
	inlined    []string
	invs       int
	vacuous    []string
	wall       time.Duration
	paths      int
}

var (
	oblBudget  = []stage{{{0, sec(2)}}, {{2, sec(2)}}, {{0, sec(10)}, {1, sec(10)}, {2, sec(10)}}, {{0, sec(25)}, {1, sec(25)}, {2, sec(25)}}}
	candBudget = []stage{{{0, sec(3)}}, {{1, sec(2)}, {2, sec(2)}}}
	joinBudget = []stage{{{0, sec(2)}}, {{0, sec(10)}, {1, sec(10)}, {2, sec(10)}}}
	failCnt    int32
)

// A run ends when its time is up, or once a violation has been shown on the real code;
// what has not been decided by then is reported as skipped.
var (
	runCtx, stopRun = context.WithCancel(context.Background())
	firstFail       = make(chan struct{})
	failOnce        sync.Once
)

func stopped() bool { return runCtx.Err() != nil }

// once a run has enough failed obligations the rest get a short budget
func manyFailed() bool { return atomic.LoadInt32(&failCnt) >= 8 }

func (x *Unit) solve() *UnitResult {
	t0 := time.Now()
	r := &UnitResult{name: x.name, by: map[string]int{}, err: x.err}
	r.deps, r.libs, r.inlined = sortedKeys(x.deps), sortedKeys(x.libs), sortedKeys(x.inlined)
	r.paths = x.paths + 1
	if x.err != "" {
		return r
	}
	var candO, realO []*Obl
	for _, o := range x.obls {
		o.unit = x
		if o.res == "trivial" {
			r.trivial++
			continue
		}
		if o.cand != nil {
			candO = append(candO, o)
		} else {
			realO = append(realO, o)
		}
	}
	// Houdini: drop candidate invariants until the rest is inductive
	todo := candO
	for round := 0; len(todo) > 0; round++ {
		texts := make([]string, len(todo))
		termMu.Lock()
		for i, o := range todo {
			if !o.cand.rep.dead {
				texts[i] = x.queryText(o, true)
			}
		}
		termMu.Unlock()
		parallel(len(todo), func(i int) {
			if texts[i] == "" || todo[i].cand.rep.dead && !todo[i].cand.measure {
				return
			}
			cb := candBudget
			if todo[i].cand.rep.tmpl && x.ct != nil && x.ct.flags["join"] != "" {
				cb = joinBudget
			}
			todo[i].res, todo[i].by, _ = decide(texts[i], cb, nil)
			if todo[i].res != "unsat" {
				if d := os.Getenv("GV_DUMPC"); d != "" && strings.Contains(todo[i].cand.text, os.Getenv("GV_CAND")) {
					fmt.Printf("dropped %s %s: %s (%s)\n", x.name, todo[i].kind, todo[i].cand.key, todo[i].res)
					os.WriteFile(filepath.Join(d, mangle(fmt.Sprintf("%s_%s_%d.smt2", x.name, todo[i].cand.text, i))), []byte(texts[i]), 0644)
				}
				todo[i].cand.rep.dead = true
			}
		})
		died := map[*Cand]bool{}
		for i, o := range todo {
			if texts[i] != "" && o.cand.rep.dead && !o.cand.measure {
				died[o.cand.rep] = true
			}
		}
		if len(died) == 0 {
			break
		}
		var next []*Obl
		for _, o := range candO {
			if o.cand.rep.dead {
				continue
			}
			for f := o.facts; f != nil; f = f.parent {
				if f.cand != nil && died[f.cand.rep] {
					next = append(next, o)
					break
				}
			}
		}
		todo = next
	}
	for _, o := range candO {
		if !o.cand.rep.dead {
			r.obls++
			r.discharged++
			r.by[o.by]++
		}
	}
	for _, c := range x.candOrd {
		if !c.dead && !c.measure {
			r.invs++
		}
	}
	for _, id := range sortedKeys(x.loopN) {
		ok := false
		for _, c := range x.loopN[id] {
			if !c.dead {
				ok = true
			}
		}
		if !ok {
			realO = append(realO, &Obl{kind: "loop terminates", label: id, fn: x.name, goal: tFalse(), res: "nomeasure", unit: x})
		}
	}
	texts := make([]string, len(realO))
	termMu.Lock()
	for i, o := range realO {
		if o.res == "nomeasure" {
			continue
		}
		texts[i] = x.queryText(o, true)
	}
	ft := make([]string, len(x.feas))
	for i, o := range x.feas {
		ft[i] = x.queryText(o, false)
	}
	termMu.Unlock()
	parallel(len(realO), func(i int) {
		if texts[i] == "" {
			return
		}
		o := realO[i]
		o.res, o.by, o.detail = decide(texts[i], oblBudget, manyFailed)
		if o.res != "unsat" && o.res != "skipped" {
			if stopped() {
				o.res = "skipped"
			} else {
				atomic.AddInt32(&failCnt, 1)
				failOnce.Do(func() { close(firstFail) })
			}
		}
		o.text = texts[i]
	})
	for _, o := range realO {
		r.obls++
		if o.res == "unsat" {
			r.discharged++
			r.by[o.by]++
		} else {
			r.failed = append(r.failed, o)
		}
	}
	// vacuity: the precondition, and at least one return, must not be refutable
	if len(r.failed) == 0 && len(x.feas) > 0 {
		// a return that is not refuted also shows the precondition is not contradictory
		refuted := func(i int) bool {
			res, _, _ := decide(ft[i], []stage{{{0, sec(2)}}}, nil)
			return res == "unsat"
		}
		n := len(ft)
		if n > 12 {
			n = 12
		}
		all := true
		for i := 1; i < n && all; i++ {
			all = refuted(i)
		}
		if all && refuted(0) {
			r.vacuous = append(r.vacuous, "precondition contradictory")
		}
		if n > 1 && all && n == len(ft) {
			r.vacuous = append(r.vacuous, "no return is reachable")
		}
	}
	r.obls += r.trivial
	r.discharged += r.trivial
	if r.trivial > 0 {
		r.by["syntactic"] += r.trivial
	}
	r.wall = time.Since(t0)
	sort.Slice(r.failed, func(i, j int) bool { return r.failed[i].name() < r.failed[j].name() })
	return r
}
