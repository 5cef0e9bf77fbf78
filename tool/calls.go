package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ------------------------------------------------------------ static write sets

func (v *Verifier) touchesFn(f *ssa.Function) map[string]bool {
	if m, ok := v.touchC[f]; ok {
		return m
	}
	// fixpoint over the call graph reachable from f
	set := map[*ssa.Function]map[string]bool{}
	deps := map[*ssa.Function][]*ssa.Function{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if _, ok := set[g]; ok {
			return
		}
		if m, ok := v.touchC[g]; ok {
			set[g] = m
			return
		}
		m := map[string]bool{}
		set[g] = m
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ks, cs := v.instrTouches(in)
				for _, k := range ks {
					m[k] = true
				}
				for _, c := range cs {
					deps[g] = append(deps[g], c)
					visit(c)
				}
			}
		}
	}
	visit(f)
	for ch := true; ch; {
		ch = false
		for g, ds := range deps {
			for _, d := range ds {
				for k := range set[d] {
					if !set[g][k] {
						set[g][k] = true
						ch = true
					}
				}
			}
		}
	}
	for g, m := range set {
		v.touchC[g] = m
	}
	return set[f]
}

func (v *Verifier) touchesBlock(b *ssa.BasicBlock) map[string]bool {
	m := map[string]bool{}
	for _, in := range b.Instrs {
		ks, cs := v.instrTouches(in)
		for _, k := range ks {
			m[k] = true
		}
		for _, c := range cs {
			for k := range v.touchesFn(c) {
				m[k] = true
			}
		}
	}
	return m
}

// objKeys: the heap keys holding a whole object of type t
func (v *Verifier) objKeys(t types.Type) []string {
	if opaqueStruct(t) == "" {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			var out []string
			for i := 0; i < u.NumFields(); i++ {
				out = append(out, v.key(fieldKey(t, i), u.Field(i).Type()))
			}
			return out
		case *types.Array:
			return []string{v.key(memKey(u.Elem()), u.Elem())}
		}
	}
	return []string{v.key(cellKey(t), t)}
}

func (v *Verifier) addrKeys(a ssa.Value) []string {
	switch a := a.(type) {
	case *ssa.Global:
		gt := a.Type().(*types.Pointer).Elem()
		return []string{v.key("G:"+a.Pkg.Pkg.Name()+"."+a.Name(), gt)}
	case *ssa.FieldAddr:
		switch a.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
			return v.addrKeys(a.X)
		}
		if c, ok := a.X.(*ssa.Convert); ok { // unsafe slice header
			return v.rawKeys(c)
		}
		st, u := structOf(a.X.Type())
		return []string{v.key(fieldKey(st, a.Field), u.Field(a.Field).Type())}
	case *ssa.IndexAddr:
		switch u := a.X.Type().Underlying().(type) {
		case *types.Slice:
			return []string{v.key(memKey(u.Elem()), u.Elem())}
		case *types.Pointer:
			switch a.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
				return v.addrKeys(a.X)
			}
			at := u.Elem().Underlying().(*types.Array)
			return []string{v.key(memKey(at.Elem()), at.Elem())}
		}
	}
	return v.objKeys(a.Type().Underlying().(*types.Pointer).Elem())
}

func (v *Verifier) rawKeys(c *ssa.Convert) []string {
	c2, ok := c.X.(*ssa.Convert)
	if !ok {
		return nil
	}
	p, ok := c2.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	ks := v.objKeys(p.Elem())
	if s, ok := p.Elem().Underlying().(*types.Slice); ok {
		ks = append(ks, v.key(memKey(s.Elem()), s.Elem()))
	}
	return ks
}

func (v *Verifier) instrTouches(in ssa.Instruction) (keys []string, calls []*ssa.Function) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(untrans); ok { // types outside the subset are reported when executed
				return
			}
			panic(r)
		}
	}()
	switch in := in.(type) {
	case *ssa.Store:
		return v.addrKeys(in.Addr), nil
	case *ssa.Alloc:
		return v.objKeys(in.Type().(*types.Pointer).Elem()), nil
	case *ssa.MakeSlice:
		e := in.Type().Underlying().(*types.Slice).Elem()
		return []string{v.key(memKey(e), e)}, nil
	case *ssa.Convert:
		if isString(in.X.Type()) && isByteSlice(in.Type()) {
			e := in.Type().Underlying().(*types.Slice).Elem()
			return []string{v.key(memKey(e), e)}, nil
		}
	case ssa.CallInstruction:
		c := in.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" || b.Name() == "copy" {
				e := c.Args[0].Type().Underlying().(*types.Slice).Elem()
				return []string{v.key(memKey(e), e)}, nil
			}
			return nil, nil
		}
		if c.IsInvoke() {
			nm := v.invokeNames(c)
			for _, n := range nm {
				if ct := v.sp.contracts[n]; ct != nil {
					for _, cl := range ct.cl {
						if cl.kind == "modifies" || cl.kind == "touches" {
							for _, k := range cl.key {
								v.resolveKey(k)
								keys = append(keys, k)
							}
						}
					}
				}
			}
			return keys, v.implementors(c.Value.Type(), c.Method)
		}
		if f := c.StaticCallee(); f != nil {
			n := shortFn(f)
			if ct := v.sp.contracts[n]; ct != nil && ct.kind == "lib" {
				for _, cl := range ct.cl {
					if cl.kind == "modifies" || cl.kind == "touches" {
						for _, k := range cl.key {
							v.resolveKey(k)
							keys = append(keys, k)
						}
					}
				}
				return keys, nil
			}
			if m, ok := libModels[n]; ok {
				for _, k := range m.keys {
					v.resolveKey(k)
					keys = append(keys, k)
				}
				return keys, nil
			}
			if f.Blocks == nil {
				return nil, nil
			}
			return nil, []*ssa.Function{f}
		}
	}
	return nil, nil
}

func (x *Unit) dynTouches(fr *frame, body map[*ssa.BasicBlock]bool) []string { return nil }

func (v *Verifier) invokeNames(c *ssa.CallCommon) []string {
	var out []string
	if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
		out = append(out, n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+c.Method.Name())
	} else if ok {
		out = append(out, n.Obj().Name()+"."+c.Method.Name())
	}
	if r := c.Method.Type().(*types.Signature).Recv(); r != nil {
		if n, ok := r.Type().(*types.Named); ok {
			s := n.Obj().Name() + "." + c.Method.Name()
			if n.Obj().Pkg() != nil {
				s = n.Obj().Pkg().Name() + "." + s
			}
			if len(out) == 0 || out[0] != s {
				out = append(out, s)
			}
		}
	}
	// the same method inherited from any embedded interface
	if it, ok := c.Value.Type().Underlying().(*types.Interface); ok {
		var rec func(it *types.Interface)
		rec = func(it *types.Interface) {
			for i := 0; i < it.NumEmbeddeds(); i++ {
				if n, ok := it.EmbeddedType(i).(*types.Named); ok {
					if u, ok := n.Underlying().(*types.Interface); ok {
						for j := 0; j < u.NumMethods(); j++ {
							if u.Method(j).Name() == c.Method.Name() && n.Obj().Pkg() != nil {
								out = append(out, n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+c.Method.Name())
							}
						}
						rec(u)
					}
				}
			}
		}
		rec(it)
	}
	return out
}

// implementors of an interface method among the repository's types (closed world)
func (v *Verifier) implementors(it types.Type, m *types.Func) []*ssa.Function {
	k := typeName(it) + "." + m.Name()
	if r, ok := v.implsC[k]; ok {
		return r
	}
	var out []*ssa.Function
	iface, _ := it.Underlying().(*types.Interface)
	for _, pn := range []string{"collection", "util"} {
		sc := v.l.Pkgs[pn].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			pt := types.NewPointer(nt)
			if iface == nil || !types.Implements(pt, iface) {
				continue
			}
			if f := v.method(pt, m); f != nil {
				out = append(out, f)
			}
		}
	}
	v.implsC[k] = out
	return out
}

func (v *Verifier) method(t types.Type, m *types.Func) *ssa.Function {
	ms := v.l.Prog.MethodSets.MethodSet(t)
	s := ms.Lookup(m.Pkg(), m.Name())
	if s == nil {
		return nil
	}
	return v.l.Prog.MethodValue(s)
}

// ------------------------------------------------------------ calls

func resultTypes(s *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < s.Results().Len(); i++ {
		out = append(out, s.Results().At(i).Type())
	}
	return out
}

func pack(vs []Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	return Val{tuple: vs}
}

func (x *Unit) call(fr *frame, in *ssa.Call, st *State, k func(*State, Val)) {
	c := in.Common()
	kk := func(s *State, vs []Val) { k(s, pack(vs)) }
	if b, ok := c.Value.(*ssa.Builtin); ok {
		t, s := x.builtin(fr, in, b.Name(), st)
		if t != nil {
			x.noteType(t, in.Type())
		}
		k(s, Val{t: t})
		return
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	pos := in.Pos()
	if c.IsInvoke() {
		recv := x.val(fr, c.Value)
		rt := x.term(recv)
		st = x.safe(fr, st, "nil interface call", pos, not(eq(iTag(rt), num(0))))
		if gt := x.tagIn(st, iTag(rt)); gt != nil {
			if f := x.V.method(gt, c.Method); f != nil {
				x.callFn(fr, f, append([]Val{{t: x.unbox(iVal(rt), gt)}}, args...), st, in, kk)
				return
			}
		}
		names := x.V.invokeNames(c)
		for _, n := range names {
			if m, ok := libModels[n]; ok {
				x.libs["model "+n] = true
				m.run(x, fr, in, append([]Val{recv}, args...), st, kk)
				return
			}
		}
		for _, n := range names {
			if ct := x.V.sp.contracts[n]; ct != nil && (ct.kind == "iface" || ct.kind == "lib") {
				touch := map[string]bool{}
				if ct.kind == "iface" {
					for _, f := range x.V.implementors(c.Value.Type(), c.Method) {
						for kx := range x.V.touchesFn(f) {
							touch[kx] = true
						}
					}
				}
				x.callContract(fr, st, ct, nil, touch, append([]Val{recv}, args...), append([]types.Type{c.Value.Type()}, sigParams(c.Signature())...), resultTypes(c.Signature()), in, kk)
				return
			}
		}
		// a value of a kind not dealt with: the path must not be reachable
		x.safe(fr, st, fmt.Sprintf("kind of value on which %s is called is known", names[0]), pos, tFalse())
		return
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			_ = mc
			unsupported("call of closure %s", f.Name())
		}
		x.callFn(fr, f, args, st, in, kk)
		return
	}
	// dynamic call: an unknown pure function of the argument contents
	fv := x.get(fr, c.Value)
	st = x.safe(fr, st, "nil function call", pos, not(eq(fv, num(0))))
	x.libs["function values behave as pure functions that return"] = true
	res := resultTypes(c.Signature())
	if len(res) != 1 {
		unsupported("dynamic call with %d results", len(res))
	}
	ts := []*T{fv}
	for i, a := range args {
		gt := c.Args[i].Type()
		t := x.term(a)
		if t.sort == "Slice" {
			t = x.seqOf(SV{t, gt}, st, &Ex{pos: "call"})
		}
		ts = append(ts, t)
	}
	so := x.V.sorts.Sort(res[0])
	r := app(so, "callF", ts...)
	x.noteType(r, res[0])
	st = st.assume(x.V.sorts.TypeFacts(r, res[0], st.alloc))
	k(st, Val{t: r})
}

func sigParams(s *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < s.Params().Len(); i++ {
		out = append(out, s.Params().At(i).Type())
	}
	return out
}

func (x *Unit) callFn(fr *frame, f *ssa.Function, args []Val, st *State, in *ssa.Call, k func(*State, []Val)) {
	n := shortFn(f)
	if m, ok := libModels[n]; ok {
		x.libs["model "+n] = true
		m.run(x, fr, in, args, st, k)
		return
	}
	ct := x.V.sp.contracts[n]
	if ct != nil && ct.kind != "iface" && ct.flags["inline"] == "" {
		var pts []types.Type
		for _, p := range f.Params {
			pts = append(pts, p.Type())
		}
		if f.Blocks == nil && len(pts) == 0 {
			sig := f.Signature
			if sig.Recv() != nil {
				pts = append(pts, sig.Recv().Type())
			}
			pts = append(pts, sigParams(sig)...)
		}
		var touch map[string]bool
		if ct.kind == "func" {
			touch = x.V.touchesFn(f)
		}
		x.callContract(fr, st, ct, f, touch, args, pts, resultTypes(f.Signature), in, k)
		return
	}
	if f.Blocks == nil {
		unsupported("library function %s has no contract (called in %s)", n, shortFn(fr.fn))
	}
	for p := fr; p != nil; p = p.up {
		if p.fn == f {
			unsupported("recursive function %s has no contract", n)
		}
	}
	if f == x.fn {
		unsupported("recursive function %s has no contract", n)
	}
	x.inlined[n] = true
	nf := x.newFrame(f, fr, k)
	for i, p := range f.Params {
		nf.vals[p] = args[i]
	}
	if len(f.FreeVars) > 0 {
		unsupported("closure body %s", n)
	}
	x.block(nf, f.Blocks[0], 0, st)
}

func (x *Unit) bindParams(ct *Contract, args []SV, st *State) *Env {
	env := &Env{vars: map[string]SV{}, st: st}
	if len(ct.params) != len(args) {
		unsupported("contract %s has %d parameters, the code has %d", ct.name, len(ct.params), len(args))
	}
	for i, p := range ct.params {
		if p != "_" {
			env.vars[p] = args[i]
		}
	}
	return env
}

func (x *Unit) lets(ct *Contract, env *Env) *Env { return x.letsOf(ct.cl, env) }

func (x *Unit) letsOf(cl []*Clause, env *Env) *Env {
	for _, c := range cl {
		if c.kind == "let" {
			env = env.bind(c.label, x.ev(c.ex, env))
		}
	}
	return env
}

// callContract: the callee is replaced by its contract.
func (x *Unit) callContract(fr *frame, st *State, ct *Contract, f *ssa.Function, touch map[string]bool, args []Val, pts []types.Type, res []types.Type, in *ssa.Call, k func(*State, []Val)) {
	if ct.kind == "lib" {
		x.libs["contract "+ct.name] = true
	} else {
		x.deps[ct.name] = true
	}
	pos := ""
	if in != nil {
		pos = x.pos(fr, in.Pos())
	}
	var as []SV
	for i, a := range args {
		as = append(as, SV{x.term(a), pts[i]})
	}
	env := x.lets(ct, x.bindParams(ct, as, st))
	for _, c := range ct.cl {
		if c.kind == "requires" {
			st = x.oblige(st, "precondition of "+ct.name, c.label, pos, x.evb(c.ex, env.at(st)))
		}
	}
	env = env.at(st)
	for _, c := range ct.cl {
		if c.kind == "may_panic" {
			g := not(x.evb(c.ex, env))
			if x.ct != nil {
				for _, d := range x.ct.cl {
					if d.kind == "may_panic" {
						g = or(g, x.evb(d.ex, x.env0))
					}
				}
			}
			st = x.oblige(st, "no panic in "+ct.name, c.label, pos, g)
			st = st.assume(not(x.evb(c.ex, env)))
		}
	}
	if f != nil && x.fn != nil && x.V.sameSCC(f, x.fn) && !x.noTerm() {
		var m0, m1 *T
		for _, c := range ct.cl {
			if c.kind == "decreases" {
				m1 = x.ev(c.ex, env).t
			}
		}
		if x.ct != nil {
			for _, c := range x.ct.cl {
				if c.kind == "decreases" {
					m0 = x.ev(c.ex, x.env0).t
				}
			}
		}
		if m0 == nil || m1 == nil {
			x.oblige(st, "recursion terminates", ct.name, pos, tFalse())
		} else {
			st = x.oblige(st, "recursion measure decreases", ct.name, pos, and(lt(m1, m0), le(num(0), m0)))
		}
	}
	st = x.callHints(st)
	before := st
	keys := map[string]bool{}
	for kx := range touch {
		keys[kx] = true
	}
	allocs := len(touch) > 0 || ct.kind == "iface" || f != nil
	for _, c := range ct.cl {
		if c.kind == "modifies" || c.kind == "touches" {
			for _, kx := range c.key {
				x.V.resolveKey(kx)
				keys[kx] = true
				allocs = true
			}
		}
	}
	if ct.flags["pure"] != "" {
		keys = map[string]bool{}
		allocs = false
	}
	if ct.flags["alloc"] != "" {
		allocs = true
	}
	if allocs {
		st = x.havocAlloc(st)
	}
	for _, kx := range sortedKeys(keys) {
		st = x.havocKey(st, kx)
		ex, all := x.frameExcept(kx, ct, env)
		if all {
			continue
		}
		if kx[0] == 'G' {
			st = st.assume(eq(x.heapGet(st, kx), x.heapGet(before, kx)))
			continue
		}
		fr := x.frameT(kx, st, before, func(r *T) *T { return and(lt(r, before.alloc), not(ex(r))) })
		st = st.assume(fr)
	}
	var rs []Val
	st = x.callHints(st)
	penv := &Env{vars: env.vars, st: st, old: before}
	if len(ct.results) > len(res) {
		unsupported("contract %s names %d results, the code has %d", ct.name, len(ct.results), len(res))
	}
	for i, t := range res {
		nm := "res"
		if i < len(ct.results) {
			nm = ct.results[i]
		}
		c := x.fresh(nm, x.V.sorts.Sort(t))
		x.noteType(c, t)
		st = st.assume(x.V.sorts.TypeFacts(c, t, st.alloc))
		if i < len(ct.results) {
			penv = penv.bind(nm, SV{c, t})
		}
		rs = append(rs, Val{t: c})
	}
	penv.st = st
	for _, c := range ct.cl {
		if c.kind == "ensures" {
			st = st.assume(x.evb(c.ex, penv))
		}
	}
	k(st, rs)
}

// ------------------------------------------------------------ builtins

func (x *Unit) builtin(fr *frame, in *ssa.Call, name string, st *State) (*T, *State) {
	c := in.Common()
	switch name {
	case "len", "cap":
		v := x.get(fr, c.Args[0])
		switch v.sort {
		case "Slice":
			if name == "len" {
				return sLen(v), st
			}
			return sCap(v), st
		case "QSeq":
			return app("Int", "qlen", v), st
		}
		if a, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
			return num(a.Len()), st
		}
	case "append":
		return x.appendB(fr, in, st)
	case "copy":
		d := x.get(fr, c.Args[0])
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		k := x.V.key(memKey(et), et)
		m := x.heapGet(st, k)
		dblk := sel(m, sBase(d))
		s := x.get(fr, c.Args[1])
		var sl *T
		var at func(i *T) *T
		var sseq *T
		if s.sort == "QSeq" {
			sl = app("Int", "qlen", s)
			at = func(i *T) *T { return app("Int", "qat", s, i) }
			sseq = s
		} else {
			sl = sLen(s)
			sb := sel(m, sBase(s))
			at = func(i *T) *T { return sel(sb, ixT(sOff(s), i)) }
		}
		n := x.fresh("n", "Int")
		x.rng[n] = rng0(maxLen)
		st = st.assume(eq(n, ite(le(sLen(d), sl), sLen(d), sl)))
		if sLen(d) == sl {
			n = sl
		}
		nb := x.fresh("blk", dblk.sort)
		x.qn++
		jn := fmt.Sprintf("j!%d", x.qn)
		j := cst(jn, "Int")
		body := eq(sel(nb, j), ite(and(le(sOff(d), j), lt(j, add(sOff(d), n))), at(sub(j, sOff(d))), sel(dblk, j)))
		st = st.assume(quant("forall", []BVar{{jn, "Int"}}, [][]*T{{sel(nb, j)}}, body), implies(eq(n, num(0)), eq(nb, dblk)))
		es := x.V.sorts.Sort(et)
		if es == "Int" && canonElem(et) == "byte" {
			if sseq == nil {
				sseq = app("QSeq", "sq", sel(m, sBase(s)), sOff(s), n)
			} else {
				sseq = app("QSeq", "qsub", s, num(0), n)
			}
			st = st.assume(implies(lt(num(0), n), and(eq(app("QSeq", "sq", nb, sOff(d), n), sseq),
				eq(app("QSeq", "sq", nb, sOff(d), sLen(d)), app("QSeq", "qapp", sseq, app("QSeq", "sq", dblk, add(sOff(d), n), sub(sLen(d), n)))))))
		}
		st = x.heapSet(st, k, sto(m, sBase(d), nb))
		return n, st
	case "print", "println":
		return num(0), st
	case "min", "max":
		a := x.get(fr, c.Args[0])
		for _, y := range c.Args[1:] {
			b := x.get(fr, y)
			if name == "min" {
				a = ite(le(a, b), a, b)
			} else {
				a = ite(le(a, b), b, a)
			}
		}
		return a, st
	}
	unsupported("builtin %s", name)
	return nil, st
}

func seqFn(et types.Type, es string) (fn, sort, cat, one string) {
	if es == "Int" && canonElem(et) == "byte" {
		return "sq", "QSeq", "qapp", "qone"
	}
	return "", "", "", ""
}

// appendB models append exactly: in place when the capacity allows, else into a new block.
func (x *Unit) appendB(fr *frame, in *ssa.Call, st *State) (*T, *State) {
	c := in.Common()
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	k := x.V.key(memKey(et), et)
	s := x.get(fr, c.Args[0])
	m := x.heapGet(st, k)
	blk := sel(m, sBase(s))
	y := x.get(fr, c.Args[1])
	var n *T
	var at func(i *T) *T
	var ysl *T // source block
	if y.sort == "QSeq" {
		n = app("Int", "qlen", y)
		at = func(i *T) *T { return app("Int", "qat", y, i) }
	} else {
		n = sLen(y)
		ysl = sel(m, sBase(y))
		at = func(i *T) *T { return sel(ysl, ixT(sOff(y), i)) }
	}
	if n.num != nil && n.num.Sign() == 0 {
		return s, st
	}
	ln := sLen(s)
	tot := add(ln, n)
	fits := le(tot, sCap(s))
	// a slice longer than the address space cannot exist: append panics before returning one
	st = st.assume(le(tot, num(maxLen)))
	r, ns := x.newRef(st)
	st = ns
	nr := x.fresh("app", "Int")
	nc := x.fresh("cap", "Int")
	no := x.fresh("off", "Int")
	x.rng[no] = rng0(maxLen)
	x.rng[nc] = rng0(maxLen)
	nb := x.fresh("blk", blk.sort)
	st = st.assume(eq(nr, ite(fits, sBase(s), r)), eq(nc, ite(fits, sCap(s), nc)), eq(no, ite(fits, sOff(s), num(0))), le(tot, nc), le(nc, num(maxLen)))
	st = st.assume(implies(fits, eq(nc, sCap(s))), le(num(0), no))
	x.qn++
	jn := fmt.Sprintf("j!%d", x.qn)
	j := cst(jn, "Int")
	inNew := and(le(add(no, ln), j), lt(j, add(no, tot)))
	body := and(implies(inNew, eq(sel(nb, j), at(sub(j, add(no, ln))))),
		implies(and(not(inNew), fits), eq(sel(nb, j), sel(blk, j))),
		implies(and(le(num(0), j), lt(j, ln), not(fits)), eq(sel(nb, j), sel(blk, add(sOff(s), j)))))
	// flag seqonly: only the sequence equation below is kept (less is assumed about the new block)
	sf := seqFamily(et, x.V.sorts)
	seqOnly := x.seqOnly() && sf != nil && !sf.deep
	if !seqOnly {
		st = st.assume(quant("forall", []BVar{{jn, "Int"}}, [][]*T{{sel(nb, j)}}, body), implies(eq(n, num(0)), eq(nb, blk)))
		st = st.assume(quant("forall", []BVar{{jn, "Int"}}, [][]*T{{sel(nb, ixT(no, j))}, {sel(blk, ixT(sOff(s), j))}},
			implies(and(le(num(0), j), lt(j, ln)), eq(sel(nb, ixT(no, j)), sel(blk, ixT(sOff(s), j))))))
		if n.num == nil {
			pat := at(j)
			if y.sort == "QSeq" || pat.op == "select" {
				st = st.assume(quant("forall", []BVar{{jn, "Int"}}, [][]*T{{pat}}, implies(and(le(num(0), j), lt(j, n)), eq(sel(nb, ixT(no, add(ln, j))), at(j)))))
			}
		}
	}
	if lo, hi, ok := intRange(et); ok {
		st = st.assume(quant("forall", []BVar{{jn, "Int"}}, [][]*T{{sel(nb, j)}}, and(le(bigT(lo), sel(nb, j)), le(sel(nb, j), bigT(hi)))))
	}
	if n.num != nil && n.num.IsInt64() && n.num.Int64() <= 8 {
		for i := int64(0); i < n.num.Int64(); i++ {
			st = st.assume(eq(sel(nb, ixT(no, add(ln, num(i)))), at(num(i))))
		}
	}
	st = x.heapSet(st, k, sto(m, nr, nb))
	// abstract sequences
	if sf != nil {
		var src *T
		if y.sort == "QSeq" {
			src = y
		} else if sf.deep {
			src = nil
		} else {
			src = app(sf.sort, sf.mk, ysl, sOff(y), n)
			if n.num != nil && n.num.IsInt64() && n.num.Int64() == 1 {
				src = app(sf.sort, sf.one, at(num(0)))
			}
		}
		if src != nil {
			st = st.assume(eq(app(sf.sort, sf.mk, nb, no, tot), app(sf.sort, sf.cat, app(sf.sort, sf.mk, blk, sOff(s), ln), src)))
		}
	}
	return mkSlice(nr, no, tot, nc), st
}

func (x *Unit) seqOnly() bool { return x.ct != nil && x.ct.flags["seqonly"] != "" }

type seqFam struct {
	sort, mk, cat, one string
	deep               bool
}

func seqFamily(et types.Type, s *Sorts) *seqFam {
	switch s.Sort(et) {
	case "Int":
		if canonElem(et) == "byte" {
			return &seqFam{"QSeq", "sq", "qapp", "qone", false}
		}
	}
	return nil
}

// ------------------------------------------------------------ recursion

func (v *Verifier) sameSCC(a, b *ssa.Function) bool {
	if a == b {
		return v.reaches(a, a)
	}
	return v.reaches(a, b) && v.reaches(b, a)
}

func (v *Verifier) reaches(a, b *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var st []*ssa.Function
	push := func(f *ssa.Function) {
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && !seen[g] {
						seen[g] = true
						st = append(st, g)
					}
				}
			}
		}
	}
	push(a)
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		if f == b {
			return true
		}
		push(f)
	}
	return false
}

var _ = strings.HasPrefix

// callHints: proof hints labelled [calls] name terms before and after every call
func (x *Unit) callHints(st *State) *State {
	if x.ct == nil || x.env0 == nil {
		return st
	}
	for _, c := range x.ct.cl {
		if c.kind == "hint" && c.label == "calls" {
			st = st.assume(x.hint(c.ex, x.env0.at(st)))
		}
	}
	return st
}
