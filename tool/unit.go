package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"hash/fnv"

	"golang.org/x/tools/go/ssa"
)

func rng0(n int64) [2]*big.Int { return [2]*big.Int{big.NewInt(0), big.NewInt(n)} }

func newUnit(v *Verifier, name string) *Unit {
	x := &Unit{V: v, name: name, init: map[string]*T{}, strs: map[string]*T{}, deps: map[string]bool{}, libs: map[string]bool{}, inlined: map[string]bool{},
		cands: map[string]*Cand{}, loopsOf: map[*ssa.Function]*LoopInfo{}, loopN: map[string][]*Cand{}, rng: map[*T][2]*big.Int{}, bits: map[*T][2]int{}, clos: map[string]Val{}}
	// names depend on the function, not on the order functions are taken in
	f := fnv.New32a()
	f.Write([]byte(name))
	x.uid = 1000 + int(f.Sum32()%900000)
	for v.uids[x.uid] {
		x.uid++
	}
	v.uids[x.uid] = true
	a0 := cst("alloc_0", "Int")
	x.old = &State{heap: map[string]*T{}, alloc: a0}
	x.axioms = append(x.axioms, le(num(1), a0))
	return x
}

// verifyFn builds the obligations of one function against a contract. When asIface
// is set the contract is an interface contract and the receiver is boxed for it.
func (v *Verifier) verifyFn(name string, fn *ssa.Function, ct *Contract, asIface types.Type) (x *Unit) {
	x = newUnit(v, name)
	x.fn, x.ct = fn, ct
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case untrans:
				x.err = "outside the verifiable subset: " + r.msg
			case specErr:
				x.err = "contract does not fit the code: " + r.Error()
			default:
				panic(r)
			}
		}
	}()
	st := x.old
	var args []Val
	var svs []SV
	for i, p := range fn.Params {
		so := v.sorts.Sort(p.Type())
		c := cst(fmt.Sprintf("p%d_%s", i, mangle(p.Name())), so)
		x.noteType(c, p.Type())
		st = st.assume(v.sorts.TypeFacts(c, p.Type(), st.alloc))
		args = append(args, Val{t: c})
		sv := SV{c, p.Type()}
		if asIface != nil && i == 0 {
			sv = SV{x.makeIface(c, p.Type()), asIface}
		}
		svs = append(svs, sv)
	}
	if asIface != nil { // a method is only reached through the interface with a receiver
		if _, isP := fn.Params[0].Type().Underlying().(*types.Pointer); isP && ct.flags["nilrecv"] == "" {
			st = st.assume(not(eq(args[0].t, num(0))))
		}
	}
	x.env0 = x.bindParams(ct, svs, x.old)
	x.env0 = x.lets(ct, x.env0)
	for _, c := range ct.cl {
		if c.kind == "requires" {
			st = st.assume(x.evb(c.ex, x.env0))
		}
	}
	x.feas = append(x.feas, &Obl{kind: "precondition is satisfiable", fn: name, goal: tFalse(), facts: st.facts})
	x.runBody(fn, args, st, resultTypes(fn.Signature), ct)
	return x
}

func (x *Unit) runBody(fn *ssa.Function, args []Val, st *State, res []types.Type, ct *Contract) {
	static := x.V.touchesFn(fn)
	fr := x.newFrame(fn, nil, nil)
	fr.ret = func(s *State, rs []Val) { x.finish(s, rs, res, ct, static) }
	for i, p := range fn.Params {
		fr.vals[p] = args[i]
	}
	if len(fn.Blocks) == 0 {
		unsupported("no body for %s", shortFn(fn))
	}
	var cases []*Ex
	for _, c := range ct.cl {
		if c.kind == "case" {
			cases = append(cases, c.ex)
		}
	}
	var rec func(i int, s *State)
	rec = func(i int, s *State) {
		if i == len(cases) {
			x.block(fr, fn.Blocks[0], 0, s)
			return
		}
		c := x.evb(cases[i], x.env0)
		rec(i+1, s.assume(c))
		rec(i+1, s.assume(not(c)))
	}
	rec(0, st)
}

// finish: a return statement has been reached
func (x *Unit) finish(s *State, rs []Val, res []types.Type, ct *Contract, static map[string]bool) {
	env := &Env{vars: x.env0.vars, st: s, old: x.old}
	if len(ct.results) > len(rs) {
		unsupported("contract %s names %d results, the code has %d", ct.name, len(ct.results), len(rs))
	}
	for i, r := range ct.results {
		t := x.term(rs[i])
		if x.V.sorts.Sort(res[i]) == "Iface" && t.sort != "Iface" {
			t = x.makeIface(t, res[i])
		}
		env = env.bind(r, SV{t, res[i]})
	}
	for _, c := range ct.cl {
		if c.kind == "hint" { // proof hint: a ground term made visible to the solver
			s = s.assume(x.hint(c.ex, env))
		}
	}
	env.st = s
	chain := map[string]bool{}
	for _, l := range strings.Split(ct.flags["chain"], ",") {
		chain[l] = l != ""
	}
	for i, c := range ct.cl {
		if c.kind != "ensures" {
			continue
		}
		l := c.label
		if l == "" {
			l = fmt.Sprintf("ensures %d", i)
		}
		g := x.evb(c.ex, env)
		x.oblige(s, "postcondition", l, "", g)
		if chain[l] { // proved above, so the later ones may rest on it
			s = s.assume(g)
		}
	}
	for _, k := range sortedKeys(s.heap) {
		if s.heap[k] == x.init[k] {
			continue
		}
		if !static[k] {
			panic(fmt.Sprintf("internal error: %s writes %s which is not in its static write set", x.name, k))
		}
		x.oblige(s, "frame", k, "", x.frameGoal(k, s))
	}
	x.feas = append(x.feas, &Obl{kind: "return is reachable", fn: x.name, goal: tFalse(), facts: s.facts})
}

// hint: introduces terms without assuming anything about them
func (x *Unit) hint(e *Ex, env *Env) *T {
	v := x.ev(e, env)
	return app("Bool", "hint_"+mangle(strings.ReplaceAll(v.t.sort, " ", "_")), v.t)
}

// refine: method fn (with its own contract own) satisfies the interface contract ict.
func (v *Verifier) verifyRefine(name string, fn *ssa.Function, own, ict *Contract, it types.Type) (x *Unit) {
	x = newUnit(v, name)
	x.fn, x.ct = nil, ict
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case untrans:
				x.err = "outside the verifiable subset: " + r.msg
			case specErr:
				x.err = "contract does not fit the code: " + r.Error()
			default:
				panic(r)
			}
		}
	}()
	st := x.old
	var args []Val
	var svs []SV
	var pts []types.Type
	for i, p := range fn.Params {
		c := cst(fmt.Sprintf("p%d_%s", i, mangle(p.Name())), v.sorts.Sort(p.Type()))
		x.noteType(c, p.Type())
		st = st.assume(v.sorts.TypeFacts(c, p.Type(), st.alloc))
		args = append(args, Val{t: c})
		pts = append(pts, p.Type())
		sv := SV{c, p.Type()}
		if i == 0 {
			sv = SV{x.makeIface(c, p.Type()), it}
			if _, isP := p.Type().Underlying().(*types.Pointer); isP && ict.flags["nilrecv"] == "" {
				st = st.assume(not(eq(c, num(0))))
			}
		}
		svs = append(svs, sv)
	}
	x.env0 = x.lets(ict, x.bindParams(ict, svs, x.old))
	for _, c := range ict.cl {
		if c.kind == "requires" {
			st = st.assume(x.evb(c.ex, x.env0))
		}
	}
	x.feas = append(x.feas, &Obl{kind: "precondition is satisfiable", fn: name, goal: tFalse(), facts: st.facts})
	static := v.touchesFn(fn)
	res := resultTypes(fn.Signature)
	fr := &frame{fn: fn, vals: map[ssa.Value]Val{}}
	x.callContract(fr, st, own, fn, static, args, pts, res, nil, func(s *State, rs []Val) {
		x.finish(s, rs, res, ict, static)
	})
	return x
}

var _ = strings.TrimSpace

// usesSeq: the contract talks about the contents of slices as sequences
func (x *Unit) usesSeq() bool {
	if x.seqUse == 0 {
		x.seqUse = 1
		if x.ct != nil {
			for _, c := range x.ct.cl {
				if strings.Contains(c.text, "seq(") {
					x.seqUse = 2
				}
			}
		}
	}
	return x.seqUse == 2
}
