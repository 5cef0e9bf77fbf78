package main

import (
	"fmt"
	"strings"
)

func (x *Unit) lemmaList() []string {
	seen := map[string]bool{}
	var out []string
	add := func(text string) {
		for _, l := range strings.FieldsFunc(text, func(r rune) bool { return r == ' ' || r == ',' || r == '\t' }) {
			if !seen[l] {
				if x.V.sp.lemmas[l] == nil {
					unsupported("unknown lemma %s", l)
				}
				seen[l] = true
				out = append(out, l)
			}
		}
	}
	if x.ct != nil {
		for _, c := range x.ct.cl {
			if c.kind == "uses" {
				add(c.text)
			}
		}
	}
	if x.lem != nil {
		for _, c := range x.lem.cl {
			if c.kind == "uses" {
				add(c.text)
			}
		}
	}
	return out
}

func (x *Unit) lemmaTexts() []string {
	if x.lemTxt != nil {
		return x.lemTxt
	}
	x.lemTxt = []string{}
	for _, l := range x.lemmaList() {
		x.lemmaDeps = append(x.lemmaDeps, l)
		lm := x.V.sp.lemmas[l]
		t := x.lemmaAxiom(lm, nil)
		x.lemTxt = append(x.lemTxt, "(assert "+t.String()+")\n")
	}
	return x.lemTxt
}

func (x *Unit) lemmaEnv(l *Lemma, suffix string) (*Env, []BVar) {
	env := &Env{vars: map[string]SV{}, st: x.old, old: x.old}
	var bv []BVar
	for _, p := range l.params {
		gt, so := x.V.resolveType(p.typ)
		n := p.name + suffix
		bv = append(bv, BVar{n, so})
		env.vars[p.name] = SV{cst(n, so), gt}
	}
	return env, bv
}

// lemmaAxiom: the universally quantified statement, optionally restricted to smaller measures
func (x *Unit) lemmaAxiom(l *Lemma, smaller func(env *Env) *T) *T {
	x.qn++
	env, bv := x.lemmaEnv(l, fmt.Sprintf("!L%d", x.qn))
	env = x.letsOf(l.cl, env)
	var req, ens []*T
	var pats [][]*T
	for _, c := range l.cl {
		switch c.kind {
		case "requires":
			req = append(req, x.evb(c.ex, env))
		case "ensures":
			ens = append(ens, x.evb(c.ex, env))
		case "trigger":
			var p []*T
			for _, e := range c.at {
				p = append(p, x.ev(e, env).t)
			}
			pats = append(pats, p)
		}
	}
	if smaller != nil {
		req = append(req, smaller(env))
	}
	pre := and(req...)
	for _, c := range l.cl {
		if c.kind == "extensional" {
			pre = goalForm(pre, true) // sequence equalities of the premise are decided element by element
		}
	}
	body := implies(pre, and(ens...))
	if len(bv) == 0 {
		return body
	}
	return quant("forall", bv, pats, body)
}

// verifyLemma proves a lemma, by induction when it has a decreases clause.
func (v *Verifier) verifyLemma(l *Lemma) (x *Unit) {
	x = newUnit(v, "lemma "+l.name)
	x.lem = l
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case untrans:
				x.err = r.msg
			case specErr:
				x.err = r.Error()
			default:
				panic(r)
			}
		}
	}()
	// only earlier lemmas may be used
	ord := map[string]int{}
	for i, n := range v.sp.lemmaOrd {
		ord[n] = i
	}
	for _, u := range x.lemmaList() {
		if ord[u] >= ord[l.name] {
			unsupported("lemma %s uses the later lemma %s", l.name, u)
		}
	}
	st := x.old
	env, _ := x.lemmaEnv(l, "!P")
	env = x.letsOf(l.cl, env)
	x.env0 = env
	for _, p := range l.params {
		if gt, _ := v.resolveType(p.typ); gt != nil {
			st = st.assume(v.sorts.TypeFacts(env.vars[p.name].t, gt, st.alloc))
		}
	}
	var meas *T
	var measEx *Ex
	for _, c := range l.cl {
		switch c.kind {
		case "requires":
			st = st.assume(x.evb(c.ex, env))
		case "decreases":
			measEx = c.ex
			meas = x.ev(c.ex, env).t
		}
	}
	x.feas = append(x.feas, &Obl{kind: "premise is satisfiable", fn: x.name, goal: tFalse(), facts: st.facts})
	if meas != nil {
		ih := x.lemmaAxiom(l, func(e2 *Env) *T {
			m2 := x.ev(measEx, e2).t
			return and(le(num(0), m2), lt(m2, meas))
		})
		st = st.assume(ih)
	}
	for _, c := range l.cl {
		switch c.kind {
		case "hint":
			st = st.assume(x.hint(c.ex, env))
		case "assert":
			st = x.oblige(st, "lemma step", c.label, c.pos, x.evb(c.ex, env))
		}
	}
	var cases []*Ex
	for _, c := range l.cl {
		if c.kind == "case" {
			cases = append(cases, c.ex)
		}
	}
	var rec func(i int, s *State)
	rec = func(i int, s *State) {
		if i < len(cases) {
			c := x.evb(cases[i], env)
			rec(i+1, s.assume(c))
			rec(i+1, s.assume(not(c)))
			return
		}
		for j, c := range l.cl {
			if c.kind == "ensures" {
				lb := c.label
				if lb == "" {
					lb = fmt.Sprintf("ensures %d", j)
				}
				x.oblige(s, "lemma", lb, "", x.evb(c.ex, env))
			}
		}
	}
	rec(0, st)
	return x
}

// isOpaque: the contract or lemma names the recursive definition in an "opaque" clause,
// so its defining axiom is left out (fewer assumptions).
func (x *Unit) isOpaque(n string) bool {
	if x.opaque == nil {
		x.opaque = map[string]bool{}
		var cl []*Clause
		if x.ct != nil {
			cl = x.ct.cl
		} else if x.lem != nil {
			cl = x.lem.cl
		}
		for _, c := range cl {
			if c.kind == "opaque" {
				for _, f := range strings.Fields(c.text) {
					if x.V.sp.recs[f] == nil {
						unsupported("unknown recursive definition %s", f)
					}
					x.opaque[f] = true
				}
			}
		}
	}
	return x.opaque[n]
}
