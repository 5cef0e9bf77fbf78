package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
)

// SV is a specification value: a term, with its Go type when it has one.
type SV struct {
	t  *T
	gt types.Type
}

type Env struct {
	vars  map[string]SV
	st    *State
	old   *State
	entry *State
}

func (e *Env) bind(n string, v SV) *Env {
	m := make(map[string]SV, len(e.vars)+1)
	for k, x := range e.vars {
		m[k] = x
	}
	m[n] = v
	return &Env{m, e.st, e.old, e.entry}
}
func (e *Env) at(st *State) *Env { return &Env{e.vars, st, e.old, e.entry} }

func bad(e *Ex, f string, a ...interface{}) { panic(specErr{e.pos, fmt.Sprintf(f, a...)}) }

// ref of a value for ownership predicates
func refOf(v SV) *T {
	switch v.t.sort {
	case "Slice":
		return sBase(v.t)
	case "Iface":
		return iVal(v.t)
	}
	return v.t
}

// extensional sorts: equality in goals is proved by the extensional predicate
var extEq = map[string]string{"QSeq": "qeq"}

// goalForm replaces positive equalities over sequence sorts by extensional ones.
func goalForm(t *T, pos bool) *T {
	switch t.op {
	case "not":
		return mk("Bool", "not", goalForm(t.args[0], !pos))
	case "and", "or":
		var as []*T
		for _, a := range t.args {
			as = append(as, goalForm(a, pos))
		}
		return mk("Bool", t.op, as...)
	case "=>":
		return mk("Bool", "=>", goalForm(t.args[0], !pos), goalForm(t.args[1], pos))
	case "=":
		if f, ok := extEq[t.args[0].sort]; ok && pos {
			return mk("Bool", f, t.args[0], t.args[1])
		}
		return t
	case "ite":
		if t.sort == "Bool" {
			return mk("Bool", "ite", t.args[0], goalForm(t.args[1], pos), goalForm(t.args[2], pos))
		}
		return t
	case "forall":
		if pos {
			return quant("forall", t.vars, t.pats, goalForm(t.args[0], pos))
		}
		return t
	case "exists":
		return quant("exists", t.vars, t.pats, goalForm(t.args[0], pos))
	}
	return t
}

func (x *Unit) evb(e *Ex, env *Env) *T {
	v := x.ev(e, env)
	if v.t.sort != "Bool" {
		bad(e, "boolean expected, got %s", v.t.sort)
	}
	return v.t
}

func (x *Unit) ev(e *Ex, env *Env) SV {
	V := x.V
	switch e.k {
	case "num":
		return SV{t: bigT(e.n)}
	case "str":
		return SV{t: x.strConst(e.s)}
	case "id":
		switch e.s {
		case "true":
			return SV{t: tTrue()}
		case "false":
			return SV{t: tFalse()}
		case "nil":
			return SV{t: num(0), gt: types.Typ[types.UntypedNil]}
		case "MaxInt":
			return SV{t: bigT(new(big.Int).Sub(pow2(63), big.NewInt(1)))}
		case "sempty":
			return SV{t: cst("sempty", "QSeq")}
		}
		if v, ok := env.vars[e.s]; ok {
			return v
		}
		if sg, ok := V.sp.sigs[e.s]; ok && len(sg.args) == 0 {
			return SV{t: cst(e.s, sg.ret)}
		}
		if d, ok := V.sp.defs[e.s]; ok && len(d.params) == 0 && !d.heap {
			return x.ev(d.body, &Env{map[string]SV{}, env.st, env.old, env.entry})
		}
		bad(e, "unknown identifier %s", e.s)
	case "meta":
		if v, ok := env.vars[e.s]; ok {
			return v
		}
		bad(e, "unbound metavariable %s", e.s)
	case "old":
		if env.old == nil {
			bad(e, "old() not available")
		}
		return x.ev(e.a[0], env.at(env.old))
	case "entry":
		if env.entry == nil {
			bad(e, "entry() not available")
		}
		return x.ev(e.a[0], env.at(env.entry))
	case "let":
		return x.ev(e.a[1], env.bind(e.s, x.ev(e.a[0], env)))
	case "ite":
		c := x.evb(e.a[0], env)
		a, b := x.ev(e.a[1], env), x.ev(e.a[2], env)
		a, b = x.unify(e, a, b)
		gt := a.gt
		return SV{ite(c, a.t, b.t), gt}
	case "un":
		v := x.ev(e.a[0], env)
		if e.s == "!" {
			return SV{t: not(v.t)}
		}
		return SV{t: sub(num(0), v.t)}
	case "bin":
		return x.evBin(e, env)
	case "forall", "exists":
		var bv []BVar
		ne := env
		for _, q := range e.vars {
			gt, so := V.resolveType(q.typ)
			x.qn++
			n := fmt.Sprintf("%s!%d", q.name, x.qn)
			bv = append(bv, BVar{n, so})
			ne = ne.bind(q.name, SV{cst(n, so), gt})
		}
		body := x.evb(e.a[0], ne)
		var pats [][]*T
		for _, p := range e.pats {
			var ts []*T
			for _, y := range p {
				ts = append(ts, x.ev(y, ne).t)
			}
			pats = append(pats, ts)
		}
		return SV{t: quant(e.k, bv, pats, body)}
	case "field":
		return x.evField(e, env)
	case "index":
		a := x.ev(e.a[0], env)
		i := x.ev(e.a[1], env)
		if a.gt != nil {
			switch u := a.gt.Underlying().(type) {
			case *types.Slice:
				m := x.heapGet(env.st, V.key(memKey(u.Elem()), u.Elem()))
				return SV{sel(sel(m, sBase(a.t)), ixT(sOff(a.t), i.t)), u.Elem()}
			case *types.Array:
				return SV{sel(a.t, i.t), u.Elem()}
			}
		}
		if strings.HasPrefix(a.t.sort, "(Array Int ") {
			return SV{t: sel(a.t, i.t)}
		}
		if f, ok := seqAt[a.t.sort]; ok {
			return SV{t: app(f[1], f[0], a.t, i.t)}
		}
		bad(e, "cannot index sort %s", a.t.sort)
	case "slice":
		a := x.ev(e.a[0], env)
		lo := num(0)
		if e.a[1] != nil {
			lo = x.ev(e.a[1], env).t
		}
		if a.t.sort == "Slice" {
			hi := sLen(a.t)
			if e.a[2] != nil {
				hi = x.ev(e.a[2], env).t
			}
			return SV{mkSlice(sBase(a.t), add(sOff(a.t), lo), sub(hi, lo), sub(sCap(a.t), lo)), a.gt}
		}
		if a.t.sort == "QSeq" {
			hi := app("Int", "qlen", a.t)
			if e.a[2] != nil {
				hi = x.ev(e.a[2], env).t
			}
			return SV{t: app("QSeq", "qsub", a.t, lo, sub(hi, lo))}
		}
		bad(e, "cannot slice sort %s", a.t.sort)
	case "at":
		gt, so := V.resolveType(e.vars[0].typ)
		switch e.s {
		case "type":
			return SV{t: V.sorts.Tag(gt)}
		case "as":
			v := x.ev(e.a[0], env)
			if v.t.sort == "Iface" {
				return SV{x.unbox(iVal(v.t), gt), gt}
			}
			if v.t.sort != so {
				bad(e, "@as: sort %s is not %s", v.t.sort, so)
			}
			return SV{v.t, gt}
		case "box": // interface value holding e of static type T
			v := x.ev(e.a[0], env)
			return SV{x.makeIface(v.t, gt), V.named["collection.IObject"]}
		case "heap":
			kk := expandKey(e.vars[0].typ)
			if len(kk) != 1 {
				bad(e, "@heap names one part of the heap")
			}
			V.resolveKey(kk[0])
			return SV{t: x.heapGet(env.st, kk[0])}
		}
		bad(e, "unknown @%s", e.s)
	case "call":
		return x.evCall(e, env)
	}
	bad(e, "cannot elaborate %s", e.k)
	return SV{}
}

var seqAt = map[string][2]string{"QSeq": {"qat", "Int"}}
var seqLen = map[string]string{"QSeq": "qlen"}

func (x *Unit) unify(e *Ex, a, b SV) (SV, SV) {
	isNil := func(v SV) bool { return v.gt == types.Typ[types.UntypedNil] }
	fix := func(n, o SV) SV {
		switch o.t.sort {
		case "Slice":
			return SV{mkSlice(num(0), num(0), num(0), num(0)), o.gt}
		case "Iface":
			return SV{mkIface(num(0), num(0)), o.gt}
		}
		return SV{num(0), o.gt}
	}
	if isNil(a) && !isNil(b) {
		a = fix(a, b)
	} else if isNil(b) && !isNil(a) {
		b = fix(b, a)
	}
	if a.t.sort != b.t.sort {
		if a.t.sort == "Real" && b.t.num != nil {
			b.t = mk("Real", b.t.num.String()+".0")
		} else if b.t.sort == "Real" && a.t.num != nil {
			a.t = mk("Real", a.t.num.String()+".0")
		} else {
			bad(e, "sort mismatch %s vs %s: %s / %s", a.t.sort, b.t.sort, a.t, b.t)
		}
	}
	if a.gt == nil {
		a.gt = b.gt
	}
	return a, b
}

func (x *Unit) evBin(e *Ex, env *Env) SV {
	switch e.s {
	case "&&":
		return SV{t: and(x.evb(e.a[0], env), x.evb(e.a[1], env))}
	case "||":
		return SV{t: or(x.evb(e.a[0], env), x.evb(e.a[1], env))}
	case "==>":
		return SV{t: implies(x.evb(e.a[0], env), x.evb(e.a[1], env))}
	case "<==>":
		return SV{t: eq(x.evb(e.a[0], env), x.evb(e.a[1], env))}
	}
	a, b := x.ev(e.a[0], env), x.ev(e.a[1], env)
	switch e.s {
	case "==", "!=":
		var r *T
		// nil tests look at the base / tag only
		nilT := types.Typ[types.UntypedNil]
		if b.gt == nilT && a.t.sort == "Slice" {
			r = eq(sBase(a.t), num(0))
		} else if b.gt == nilT && a.t.sort == "Iface" {
			r = eq(iTag(a.t), num(0))
		} else {
			a, b = x.unify(e, a, b)
			r = eq(a.t, b.t)
		}
		if e.s == "!=" {
			r = not(r)
		}
		return SV{t: r}
	}
	a, b = x.unify(e, a, b)
	if a.t.sort != "Int" && a.t.sort != "Real" {
		bad(e, "operator %s on sort %s", e.s, a.t.sort)
	}
	switch e.s {
	case "<":
		return SV{t: lt(a.t, b.t)}
	case "<=":
		return SV{t: le(a.t, b.t)}
	case ">":
		return SV{t: lt(b.t, a.t)}
	case ">=":
		return SV{t: le(b.t, a.t)}
	case "+":
		return SV{t: add(a.t, b.t)}
	case "-":
		return SV{t: sub(a.t, b.t)}
	case "*":
		return SV{t: mul(a.t, b.t)}
	case "/":
		return SV{t: div(a.t, b.t)}
	case "%":
		return SV{t: mod(a.t, b.t)}
	}
	bad(e, "operator %s", e.s)
	return SV{}
}

func (x *Unit) evField(e *Ex, env *Env) SV {
	V := x.V
	if e.a[0].k == "id" {
		if _, isVar := env.vars[e.a[0].s]; !isVar {
			if p := V.l.Pkgs[e.a[0].s]; p != nil {
				if c, ok := p.Pkg.Scope().Lookup(e.s).(*types.Const); ok {
					if c.Val().Kind() == constant.Int {
						n, _ := new(big.Int).SetString(c.Val().ExactString(), 10)
						return SV{t: bigT(n)}
					}
					if c.Val().Kind() == constant.String {
						return SV{t: x.strConst(constant.StringVal(c.Val())), gt: types.Typ[types.String]}
					}
				}
				if g := p.Var(e.s); g != nil {
					gt := g.Type().(*types.Pointer).Elem()
					return SV{x.heapGet(env.st, V.key("G:"+p.Pkg.Name()+"."+e.s, gt)), gt}
				}
				bad(e, "unknown constant %s.%s", e.a[0].s, e.s)
			}
		}
	}
	v := x.ev(e.a[0], env)
	if v.gt == nil {
		bad(e, "field %s of untyped value", e.s)
	}
	st, u := structOf(v.gt)
	if u == nil {
		bad(e, "field %s of %s", e.s, v.gt)
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == e.s {
			ft := u.Field(i).Type()
			if _, isP := v.gt.Underlying().(*types.Pointer); isP {
				m := x.heapGet(env.st, V.key(fieldKey(st, i), ft))
				return SV{sel(m, v.t), ft}
			}
			return SV{V.sorts.Field(v.t, st, i), ft}
		}
	}
	bad(e, "no field %s in %s", e.s, st)
	return SV{}
}

func (x *Unit) evCall(e *Ex, env *Env) SV {
	V := x.V
	if d, ok := V.sp.defs[e.s]; ok {
		if len(d.params) != len(e.a) {
			bad(e, "%s expects %d arguments", e.s, len(d.params))
		}
		var as []SV
		for i, a := range e.a {
			gt, so := V.resolveType(d.params[i].typ)
			v := x.ev(a, env)
			if v.gt == types.Typ[types.UntypedNil] {
				v, _ = x.unify(e, v, SV{cst("dummy", so), gt})
			}
			if v.t.sort != so {
				if so == "Iface" && v.gt != nil { // implicit interface conversion
					v = SV{x.makeIface(v.t, v.gt), gt}
				} else {
					bad(e, "%s: argument %d has sort %s, want %s", e.s, i, v.t.sort, so)
				}
			}
			as = append(as, SV{v.t, gt})
		}
		if d.heap {
			var ts []*T
			for _, k := range d.reads {
				for _, kk := range expandKey(k) {
					V.resolveKey(kk)
					ts = append(ts, x.heapGet(env.st, kk))
				}
			}
			for _, a := range as {
				ts = append(ts, a.t)
			}
			gt, so := V.resolveType(d.ret)
			return SV{app(so, d.name, ts...), gt}
		}
		m := map[string]SV{}
		for i, p := range d.params {
			m[p.name] = as[i]
		}
		gt, _ := V.resolveType(d.ret)
		r := x.ev(d.body, &Env{m, env.st, env.old, env.entry})
		if gt != nil {
			r.gt = gt
		}
		return r
	}
	var vs []SV
	for _, a := range e.a {
		vs = append(vs, x.ev(a, env))
	}
	arg := func(i int) SV {
		if i >= len(vs) {
			bad(e, "%s: missing argument", e.s)
		}
		return vs[i]
	}
	switch e.s {
	case "len":
		v := arg(0)
		if v.t.sort == "Slice" {
			return SV{t: sLen(v.t)}
		}
		if f, ok := seqLen[v.t.sort]; ok {
			return SV{t: app("Int", f, v.t)}
		}
		bad(e, "len of %s", v.t.sort)
	case "cap":
		return SV{t: sCap(arg(0).t)}
	case "base":
		return SV{t: sBase(arg(0).t)}
	case "store":
		return SV{t: sto(arg(0).t, arg(1).t, arg(2).t)}
	case "off":
		return SV{t: sOff(arg(0).t)}
	case "ref":
		return SV{t: refOf(arg(0))}
	case "tag":
		return SV{t: iTag(arg(0).t)}
	case "mkif":
		return SV{mkIface(arg(0).t, arg(1).t), V.named["collection.IObject"]}
	case "abs":
		return SV{t: ite(le(num(0), arg(0).t), arg(0).t, sub(num(0), arg(0).t))}
	case "min":
		return SV{t: ite(le(arg(0).t, arg(1).t), arg(0).t, arg(1).t)}
	case "max":
		return SV{t: ite(le(arg(0).t, arg(1).t), arg(1).t, arg(0).t)}
	case "fresh":
		r := refOf(arg(0))
		if env.old == nil {
			bad(e, "fresh without old state")
		}
		return SV{t: and(le(env.old.alloc, r), lt(r, env.st.alloc))}
	case "alloced": // existed already in this state
		r := refOf(arg(0))
		return SV{t: and(le(num(0), r), lt(r, env.st.alloc))}
	case "allocmark":
		return SV{t: env.st.alloc}
	case "seq":
		return SV{t: x.seqOf(arg(0), env.st, e)}
	case "blk": // backing block of a slice
		v := arg(0)
		u, ok := v.gt.Underlying().(*types.Slice)
		if !ok {
			bad(e, "blk of non-slice")
		}
		return SV{t: sel(x.heapGet(env.st, V.key(memKey(u.Elem()), u.Elem())), sBase(v.t))}
	case "bignum": // number held by a *big.Int
		return SV{t: sel(x.heapGet(env.st, V.key("P:big.Int", V.named["big.Int"])), arg(0).t)}
	case "timenum":
		return SV{t: sel(x.heapGet(env.st, V.key("P:time.Time", V.named["time.Time"])), arg(0).t)}
	case "iface":
		v := arg(0)
		if v.gt == nil {
			bad(e, "iface of untyped value")
		}
		return SV{x.makeIface(v.t, v.gt), V.named["collection.IObject"]}
	}
	if sg, ok := V.sp.sigs[e.s]; ok {
		if len(sg.args) != len(vs) {
			bad(e, "%s expects %d arguments, got %d", e.s, len(sg.args), len(vs))
		}
		var ts []*T
		for i, v := range vs {
			t := v.t
			if v.gt == types.Typ[types.UntypedNil] {
				switch sg.args[i] {
				case "Slice":
					t = mkSlice(num(0), num(0), num(0), num(0))
				case "Iface":
					t = mkIface(num(0), num(0))
				}
			}
			if t.sort != sg.args[i] {
				if sg.args[i] == "Real" && t.num != nil {
					t = mk("Real", t.num.String()+".0")
				} else if sg.args[i] == "QSeq" && t.sort == "Slice" {
					t = x.seqOf(v, env.st, e)
				} else if sg.args[i] == "Iface" && v.gt != nil {
					t = x.makeIface(t, v.gt)
				} else {
					bad(e, "%s: argument %d has sort %s, want %s", e.s, i, t.sort, sg.args[i])
				}
			}
			ts = append(ts, t)
		}
		name := e.s
		if strings.HasPrefix(name, "is_") && sg.ret == "Bool" && len(sg.args) == 1 {
			if c := strings.TrimPrefix(name, "is_"); V.sp.sigs[c].ret == sg.args[0] {
				name = "(_ is " + c + ")"
			}
		}
		return SV{t: app(sg.ret, name, ts...)}
	}
	bad(e, "unknown function %s", e.s)
	return SV{}
}

// seqOf: the abstract sequence of a byte slice (or slice of byte slices, ...) or string.
func (x *Unit) seqOf(v SV, st *State, e *Ex) *T {
	if v.t.sort == "QSeq" {
		return v.t
	}
	if v.gt == nil {
		bad(e, "seq of untyped value")
	}
	u, ok := v.gt.Underlying().(*types.Slice)
	if !ok {
		bad(e, "seq of %s", v.gt)
	}
	m := x.heapGet(st, x.V.key(memKey(u.Elem()), u.Elem()))
	blk := sel(m, sBase(v.t))
	switch x.V.sorts.Sort(u.Elem()) {
	case "Int":
		return app("QSeq", "sq", blk, sOff(v.t), sLen(v.t))
	case "Slice":
		if u2, ok := u.Elem().Underlying().(*types.Slice); ok && canonElem(u2.Elem()) == "byte" {
			mb := x.heapGet(st, x.V.key("M:byte", types.Typ[types.Uint8]))
			return app("SS", "ssq", blk, mb, sOff(v.t), sLen(v.t))
		}
	case "Iface":
		return app("IS", "isq", blk, sOff(v.t), sLen(v.t))
	}
	bad(e, "seq of %s", v.gt)
	return nil
}
