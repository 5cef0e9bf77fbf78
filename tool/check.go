package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// propItems: the contracts, lemmas and recursive functions that make up a property.
// file:NAME stands for everything declared in spec/NAME.spec.
func (v *Verifier) propItems(p *Prop) []string {
	var out []string
	for _, it := range p.items {
		if strings.HasPrefix(it, "soft:") { // a label that is another property's business
			p.flags[it] = "yes"
			continue
		}
		if !strings.HasPrefix(it, "file:") {
			out = append(out, it)
			continue
		}
		f := it[5:]
		var l []string
		for n, c := range v.sp.contracts {
			if c.file == f && c.kind != "lib" {
				l = append(l, n)
			}
		}
		for n, c := range v.sp.lemmas {
			if c.file == f {
				l = append(l, n)
			}
		}
		for _, r := range v.sp.recs {
			if r.file == f {
				l = append(l, "rec:"+r.name)
			}
		}
		if len(l) == 0 {
			fmt.Fprintln(os.Stderr, "nothing in spec file", f)
			os.Exit(3)
		}
		sort.Strings(l)
		out = append(out, l...)
	}
	return out
}

type failure struct {
	Obligation string `json:"obligation"`
	Reason     string `json:"reason"`
	Goal       string `json:"goal,omitempty"`
	Detail     string `json:"detail,omitempty"`
}

// known findings: lines "known: property=<id> obligation=<exact name> :: <what fails>"
func knownFindings(file, id string) map[string]string {
	out := map[string]string{}
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + id + " obligation="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		p := strings.SplitN(l[len(pre):], " :: ", 2)
		if len(p) == 2 {
			out[p[0]] = p[1]
		}
	}
	return out
}

func (v *Verifier) check(id, verif, tier, out string, t0 time.Time) int {
	p := v.sp.props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no property", id)
		return 3
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	limit := 760 * time.Second
	if tier == "thorough" {
		limit = 800 * time.Second
	}
	timer := time.AfterFunc(limit-time.Since(t0), stopRun)
	defer timer.Stop()
	type outcome struct {
		found bool
		info  string
	}
	early := make(chan outcome, 1)
	over := make(chan struct{})
	go func() { // with the first obligation that fails, look for an input that shows it
		select {
		case <-firstFail:
		case <-time.After(150 * time.Second): // the proof is taking long
		case <-over:
			close(early)
			return
		}
		{
			f, i := replay(verif, id, seed, tier)
			early <- outcome{f, i}
			if f {
				stopRun()
			}
		}
	}()
	rep := v.verifyItems(v.propItems(p), true, false)
	close(over)
	shown, tried := <-early
	var fails []failure
	skipped := 0
	for _, o := range rep.Failed {
		if o.res == "skipped" && shown.found {
			skipped++
			continue
		}
		fails = append(fails, failure{o.name(), o.res, fmt.Sprintf("%.3000s", o.goal), fmt.Sprintf("%.500s", o.detail)})
	}
	for _, e := range rep.Errs {
		fails = append(fails, failure{Obligation: e, Reason: "not verifiable"})
	}
	known := knownFindings(filepath.Join(verif, "known_findings.txt"), id)
	var open, soft []failure
	for _, f := range fails {
		if w, ok := known[f.Obligation]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, w)
			continue
		}
		if i := strings.Index(f.Obligation, " ["); i >= 0 && p.flags["soft:"+strings.ReplaceAll(strings.SplitN(f.Obligation[i+2:], "]", 2)[0], " ", "_")] != "" && strings.Contains(f.Obligation, ": postcondition [") {
			soft = append(soft, f)
			continue
		}
		open = append(open, f)
	}
	for i, f := range soft {
		if i < 5 {
			fmt.Println("note: this obligation states another property:", f.Obligation)
		}
	}
	replayPath, found, replayInfo := "", false, ""
	if len(open) > 0 || len(soft) > 0 || tier == "thorough" || tried && shown.found || skipped > 0 {
		replayPath = filepath.Join(verif, "evidence", "replay_"+id+".txt")
		if tried {
			found, replayInfo = shown.found, shown.info
		} else {
			found, replayInfo = replay(verif, id, seed, tier)
		}
	}
	violations := 0
	if len(open) > 0 || found {
		violations = len(open)
		if violations == 0 {
			violations = 1
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n", id)
		for _, f := range append(append([]failure{}, open...), soft...) {
			fmt.Fprintf(&sb, "\nFAILED OBLIGATION %s\n  verifier: %s\n", f.Obligation, f.Reason)
			if f.Goal != "" {
				fmt.Fprintf(&sb, "  goal: %s\n", f.Goal)
			}
			if f.Detail != "" {
				fmt.Fprintf(&sb, "  solver output: %s\n", f.Detail)
			}
		}
		fmt.Fprintf(&sb, "\nREPLAY AGAINST THE REAL CODE\n%s\n", replayInfo)
		os.WriteFile(replayPath, []byte(sb.String()), 0644)
		for i, f := range open {
			if i < 10 {
				fmt.Println("failed obligation:", f.Obligation)
			}
		}
		if found {
			fmt.Println(firstLines(replayInfo, 6))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, replayPath)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, replayPath)
		}
	}
	assume := []string{}
	for _, a := range sortedKeys(rep.Assumed) {
		assume = append(assume, "assumed: "+a)
	}
	for _, a := range sortedKeys(rep.Libs) {
		assume = append(assume, "library behaviour modelled: "+a)
	}
	assume = append(assume, globalAssumptions...)
	wall := time.Since(t0).Seconds()
	cov := map[string]interface{}{
		"obligations": rep.Obls, "discharged": rep.Done, "checker_cmd": "./check.sh " + id + " " + tier,
		"trusted_base": []string{"gv (the verification condition generator in /verif/tool)", "golang.org/x/tools/go/ssa", "z3 4.8.12", "z3-new", "cvc5 1.1.2", "the contract files in /verif/spec state the property"},
		"functions_under_contract": sortedKeys(rep.Funcs), "lemmas": sortedKeys(rep.Lemmas), "inlined_helpers": sortedKeys(rep.Inlined),
		"loop_invariants_inferred": rep.Invs, "discharged_by": rep.By, "solver_s": round1(solveTime.Seconds()), "solver_queries": solveCnt,
		"failed": fails, "skipped_after_violation_shown": skipped,
	}
	if replayInfo != "" {
		cov["replay"] = firstLines(replayInfo, 12)
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assume, "wall_s": round1(wall), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	if out == "" {
		out = filepath.Join(verif, "evidence", id+".json")
	}
	os.MkdirAll(filepath.Dir(out), 0755)
	os.WriteFile(out, append(b, '\n'), 0644)
	fmt.Printf("%s: %d of %d obligations discharged, %d functions, %d lemmas, %.0fs\n", id, rep.Done, rep.Obls, len(rep.Funcs), len(rep.Lemmas), wall)
	if violations > 0 {
		return 1
	}
	return 0
}

func round1(f float64) float64 { return float64(int(f*10)) / 10 }

var globalAssumptions = []string{
	"sequential execution: no other goroutine writes the objects a function works on",
	"memory, stack and slice lengths are bounded by the machine (slices and strings shorter than 2^43, 8 TB); allocation succeeds",
	"strings, maps of the standard library and fmt output are opaque",
	"interfaces passed in do not hold nil pointers of a concrete type unless a contract says so",
}

// replay looks for a concrete failing input by running the in-package harness
// (brought in by an overlay) against the current source.
func replay(verif, id string, seed int, tier string) (bool, string) {
	tmp, err := os.MkdirTemp("", "gvreplay")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(tmp)
	var log strings.Builder
	for _, pkg := range []string{"collection", "util"} {
		dir := filepath.Join(verif, "replay", pkg)
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		has := false
		rep := map[string]string{}
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			if strings.Contains(string(b), "func TestVerif"+id+"(") {
				has = true
			}
		}
		if !has {
			continue
		}
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			n := filepath.Base(f)
			// files serving other properties are left out, so that they cannot break the build
			if strings.HasPrefix(n, "common") || strings.Contains(string(b), "func TestVerif"+id+"(") {
				rep["/repo/src/"+pkg+"/zz_"+strings.TrimSuffix(n, ".go")+"_verif_test.go"] = f
			}
		}
		// the package's own tests are not needed
		own, _ := filepath.Glob("/repo/src/" + pkg + "/*_test.go")
		for _, f := range own {
			rep[f] = ""
		}
		if pkg == "util" { // keep key files out of the real /etc
			b, err := os.ReadFile("/repo/src/util/const_util.go")
			if err == nil {
				c := strings.ReplaceAll(string(b), "\"/etc", "\""+tmp+"/etc")
				f := filepath.Join(tmp, "const_util.go")
				os.WriteFile(f, []byte(c), 0644)
				rep["/repo/src/util/const_util.go"] = f
			}
		}
		ov := filepath.Join(tmp, pkg+".json")
		b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
		os.WriteFile(ov, b, 0644)
		bin := filepath.Join(tmp, pkg+".test")
		build := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, ".")
		build.Dir = "/repo/src/" + pkg
		env := append(os.Environ(), "GO111MODULE=off", "GOFLAGS=", "GOPATH=/opt/vp/gopath", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off")
		build.Env = env
		if o, err := build.CombinedOutput(); err != nil {
			fmt.Fprintf(&log, "replay harness of package %s does not build against the current source:\n%.1500s\n", pkg, o)
			continue
		}
		res := filepath.Join(tmp, pkg+".found")
		run := func(trace bool) (string, error) {
			c := exec.Command("timeout", "-k", "5", "120", bin, "-test.run", "^TestVerif"+id+"$", "-test.count=1", "-test.timeout=110s")
			c.Dir = tmp
			c.Env = append(env, "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier, "VERIF_FOUND="+res, "VERIF_SCRATCH="+tmp, "GOMEMLIMIT=6GiB")
			if trace {
				c.Env = append(c.Env, "VERIF_TRACE="+filepath.Join(tmp, "trace"))
			}
			o, err := c.CombinedOutput()
			return string(o), err
		}
		o, err := run(false)
		if b, e := os.ReadFile(res); e == nil && len(b) > 0 {
			return true, string(b)
		}
		if err == nil {
			fmt.Fprintf(&log, "package %s: %s\n", pkg, firstLines(o, 3))
			continue
		}
		// the harness died (fault that cannot be caught, or no end): find the case
		o, err = run(true)
		t, _ := os.ReadFile(filepath.Join(tmp, "trace"))
		if err != nil && len(t) > 0 && !strings.Contains(o, "--- FAIL") {
			return true, fmt.Sprintf("the program does not survive this case:\n%s\n%.1500s", t, o)
		}
		fmt.Fprintf(&log, "package %s: %.1500s\n", pkg, o)
	}
	if log.Len() == 0 {
		return false, "no replay harness for this property"
	}
	return false, log.String()
}
