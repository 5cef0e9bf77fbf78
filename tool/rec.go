package main

import (
	"fmt"
	"strings"
)

// Rec is a recursively defined specification function. Its definition is a
// conservative extension: the recursion is checked to be well founded (unit
// "recursive definition NAME"), and the emitted axiom unfolds one level per
// occurrence (the recursive calls are renamed NAME_L, equal to NAME where NAME occurs).
type Rec struct {
	name   string
	params []QVar
	ret    string
	body   *Ex
	dec    *Ex
	pos    string
	file   string
}

func (sp *Specs) parseRec(rest, pos, file string) {
	k := strings.Index(rest, "(")
	r := &Rec{name: strings.TrimSpace(rest[:k]), pos: pos, file: file}
	depth, j := 0, k
	for ; j < len(rest); j++ {
		if rest[j] == '(' {
			depth++
		}
		if rest[j] == ')' {
			if depth--; depth == 0 {
				break
			}
		}
	}
	r.params = parseParams(rest[k:j+1], pos)
	rest = strings.TrimSpace(rest[j+1:])
	p := strings.SplitN(rest, ":=", 2)
	if len(p) < 2 {
		panic(specErr{pos, "rec without body"})
	}
	h := strings.SplitN(p[0], " decreases ", 2)
	r.ret = strings.TrimSpace(h[0])
	if len(h) > 1 {
		r.dec = parseExpr(h[1], pos)
	}
	r.body = parseExpr(p[1], pos)
	sp.recs[r.name] = r
	sp.recOrd = append(sp.recOrd, r.name)
	sp.sigMod[r.name] = file
}

// setupRecs elaborates the recursive definitions into axioms.
func (v *Verifier) setupRecs() {
	for _, n := range v.sp.recOrd {
		r := v.sp.recs[n]
		var as []string
		for _, p := range r.params {
			_, so := v.resolveType(p.typ)
			as = append(as, so)
		}
		_, so := v.resolveType(r.ret)
		v.sp.sigs[n] = Sig{as, so}
		v.sp.sigs[n+"_L"] = Sig{as, so}
		v.sp.sigMod[n+"_L"] = r.file
	}
	for _, n := range v.sp.recOrd {
		r := v.sp.recs[n]
		x := newUnit(v, "recursive definition "+n)
		env, bv, vars := x.recEnv(r, "!R")
		body := x.ev(r.body, env).t
		if body.sort != v.sp.sigs[n].ret {
			panic(specErr{r.pos, "body sort " + body.sort})
		}
		head := app(v.sp.sigs[n].ret, n, vars...)
		lim := app(v.sp.sigs[n].ret, n+"_L", vars...)
		var sb, ax, cx strings.Builder
		sg := v.sp.sigs[n]
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n(declare-fun %s_L (%s) %s)\n", n, strings.Join(sg.args, " "), sg.ret, n, strings.Join(sg.args, " "), sg.ret)
		fmt.Fprintf(&ax, "(assert %s)\n", quant("forall", bv, [][]*T{{head}}, eq(head, lim)))
		fmt.Fprintf(&ax, "(assert %s)\n", quant("forall", bv, [][]*T{{head}}, eq(head, renameOp(body, n, n+"_L", map[*T]*T{}))))
		// on a constructor term the definition unfolds all the way: there are finitely many of those
		for i, b := range bv {
			cs := v.sp.ctors[b.sort]
			if len(cs) == 0 || r.dec == nil || !usesTerm(x.ev(r.dec, env).t, vars[i]) {
				continue
			}
			for _, c := range cs {
				var fv []BVar
				var ft []*T
				for j, s := range v.sp.sigs[c].args {
					n := fmt.Sprintf("%s!C%d", r.params[i].name, j)
					fv = append(fv, BVar{n, s})
					ft = append(ft, cst(n, s))
				}
				ct := cst(c, b.sort)
				if len(ft) > 0 {
					ct = app(b.sort, c, ft...)
				}
				m := map[string]*T{b.name: ct}
				nb := append(append(append([]BVar{}, bv[:i]...), fv...), bv[i+1:]...)
				h := subst(head, m)
				e := eq(h, v.sp.unsel(subst(body, m), c, map[*T]*T{}))
				if len(nb) > 0 {
					e = quant("forall", nb, [][]*T{{h}}, e)
				}
				fmt.Fprintf(&cx, "(assert %s)\n", e)
			}
			break
		}
		// in the code only constructor terms unfold, in lemmas any term (one level)
		fnAx := cx.String()
		if fnAx == "" {
			fnAx = ax.String()
		}
		v.recText = append(v.recText, RecBlock{sb.String(), ax.String() + cx.String(), fnAx, r.file, n})
		for _, m := range v.sp.recOrd[len(v.recText):] {
			if usesOp(body, m, map[*T]bool{}) {
				panic(specErr{r.pos, "uses the later recursive definition " + m})
			}
		}
	}
}

func (x *Unit) recEnv(r *Rec, suf string) (*Env, []BVar, []*T) {
	env := &Env{vars: map[string]SV{}, st: x.old, old: x.old}
	var bv []BVar
	var ts []*T
	for _, p := range r.params {
		gt, so := x.V.resolveType(p.typ)
		bv = append(bv, BVar{p.name + suf, so})
		c := cst(p.name+suf, so)
		ts = append(ts, c)
		env.vars[p.name] = SV{c, gt}
	}
	return env, bv, ts
}

func renameOp(t *T, from, to string, memo map[*T]*T) *T {
	if r, ok := memo[t]; ok {
		return r
	}
	var r *T
	if len(t.args) == 0 {
		r = t
	} else {
		var as []*T
		for _, a := range t.args {
			as = append(as, renameOp(a, from, to, memo))
		}
		switch t.op {
		case "forall", "exists":
			r = quant(t.op, t.vars, t.pats, as[0])
		case from:
			r = mk(t.sort, to, as...)
		default:
			r = mk(t.sort, t.op, as...)
		}
	}
	memo[t] = r
	return r
}

// verifyRec: every recursive call decreases the measure under its path condition
func (v *Verifier) verifyRec(r *Rec) (x *Unit) {
	x = newUnit(v, "recursive definition "+r.name)
	x.recUnit = r.name
	env, _, vars := x.recEnv(r, "!P")
	x.env0 = env
	var m0 *T
	if r.dec != nil {
		m0 = x.ev(r.dec, env).t
	}
	body := x.ev(r.body, env).t
	n := 0
	var walk func(t *T, st *State)
	walk = func(t *T, st *State) {
		switch {
		case t.op == "ite":
			walk(t.args[0], st)
			walk(t.args[1], st.assume(t.args[0]))
			walk(t.args[2], st.assume(not(t.args[0])))
			return
		case t.op == "and":
			for _, a := range t.args {
				walk(a, st)
				st = st.assume(a)
			}
			return
		case t.op == "or":
			for _, a := range t.args {
				walk(a, st)
				st = st.assume(not(a))
			}
			return
		case t.op == "=>":
			walk(t.args[0], st)
			walk(t.args[1], st.assume(t.args[0]))
			return
		case t.op == r.name:
			n++
			if m0 == nil {
				x.oblige(st, "recursion without a measure", "", r.pos, tFalse())
				return
			}
			e2 := &Env{vars: map[string]SV{}, st: x.old, old: x.old}
			for i, p := range r.params {
				gt, _ := v.resolveType(p.typ)
				e2.vars[p.name] = SV{t.args[i], gt}
			}
			m1 := x.ev(r.dec, e2).t
			x.oblige(st, "recursive call decreases", fmt.Sprint(n), r.pos, and(le(num(0), m0), lt(m1, m0)))
		case t.op == "forall" || t.op == "exists":
			// calls under a binder are checked for all values of the bound variable
		}
		for _, a := range t.args {
			walk(a, st)
		}
	}
	walk(body, x.old)
	_ = vars
	return x
}

func usesOp(t *T, op string, seen map[*T]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == op {
		return true
	}
	for _, a := range t.args {
		if usesOp(a, op, seen) {
			return true
		}
	}
	return false
}

func usesTerm(t, u *T) bool {
	if t == u {
		return true
	}
	for _, a := range t.args {
		if usesTerm(a, u) {
			return true
		}
	}
	return false
}

// unsel simplifies selectors applied to terms built with constructor c, and comparisons of those with other constants
func (sp *Specs) unsel(t *T, c string, memo map[*T]*T) *T {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	switch {
	case len(t.args) == 0:
	case t.op == "forall" || t.op == "exists":
		var ps [][]*T
		for _, p := range t.pats {
			var np []*T
			for _, a := range p {
				np = append(np, sp.unsel(a, c, memo))
			}
			ps = append(ps, np)
		}
		r = quant(t.op, t.vars, ps, sp.unsel(t.args[0], c, memo))
	default:
		var as []*T
		for _, a := range t.args {
			as = append(as, sp.unsel(a, c, memo))
		}
		r = nil
		if s, ok := sp.selOf[t.op]; ok && as[0].op == c {
			var k int
			if n, _ := fmt.Sscanf(s, c+"#%d", &k); n == 1 {
				r = as[0].args[k]
			}
		}
		if t.op == "=" && len(as) == 2 {
			for i := 0; i < 2; i++ {
				if as[i].op == c && len(as[1-i].args) == 0 && as[1-i].op != c && len(sp.sigs[as[1-i].op].args) == 0 && sp.sigs[as[1-i].op].ret == as[i].sort {
					r = tFalse()
				}
			}
		}
		if r == nil {
			switch t.op {
			case "and":
				r = and(as...)
			case "or":
				r = or(as...)
			case "not":
				r = not(as[0])
			case "=>":
				r = implies(as[0], as[1])
			case "ite":
				r = ite(as[0], as[1], as[2])
			case "=":
				r = eq(as[0], as[1])
			default:
				r = mk(t.sort, t.op, as...)
			}
		}
	}
	memo[t] = r
	return r
}
