package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func dedupe(s []string) []string {
	m := map[string]bool{}
	var o []string
	for _, x := range s {
		if !m[x] {
			m[x] = true
			o = append(o, x)
		}
	}
	sort.Strings(o)
	return o
}

// named value usable in an invariant template
type tv struct {
	name string
	v    func() (Val, bool)
	gt   types.Type
}

func (x *Unit) enterLoop(fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, vs []Val, st *State) {
	lc := &loopCtx{id: fmt.Sprintf("%s#%d", fr.id, fr.li.ord[h]), entry: st, hv: map[*ssa.Phi]Val{}, iv: map[*ssa.Phi]Val{}, measVal: map[*Cand]*T{}}
	for i, p := range phis {
		lc.iv[p] = vs[i]
	}
	// which values are live in, and which keys the body writes
	touched := map[string]bool{}
	for b := range body {
		for k := range x.V.touchesBlock(b) {
			touched[k] = true
		}
	}
	for _, in := range x.dynTouches(fr, body) {
		touched[in] = true
	}
	keys := sortedKeys(touched)
	live := x.liveIn(fr, body)

	// candidate invariants
	lc.cands = x.candidates(fr, h, body, phis, keys, live, lc)
	// initially true?
	get0 := func(v ssa.Value) (Val, bool) {
		if p, ok := v.(*ssa.Phi); ok {
			if r, ok := lc.iv[p]; ok {
				return r, true
			}
		}
		r, ok := fr.vals[v]
		if !ok {
			if c, isC := v.(*ssa.Const); isC {
				return Val{t: x.constant(c)}, true
			}
		}
		return r, ok
	}
	var keep []*Cand
	for _, c := range lc.cands {
		if c.dead {
			continue
		}
		g := c.eval(get0, st)
		if g == nil {
			continue
		}
		keep = append(keep, c)
		x.candObl(st, c, "holds on entry", g)
	}
	lc.cands = keep
	// havoc
	hs := st
	if len(keys) > 0 || x.allocsIn(fr, body) {
		hs = x.havocAlloc(hs)
	}
	for _, k := range keys {
		hs = x.havocKey(hs, k)
	}
	for _, p := range phis {
		v := lc.iv[p]
		nv := x.havocPhi(fr, p, v, &hs)
		lc.hv[p] = nv
		fr.vals[p] = nv
	}
	get := func(v ssa.Value) (Val, bool) { r, ok := get0x(x, fr, v); return r, ok }
	for _, c := range lc.cands {
		g := c.eval(get, hs)
		if g == nil {
			continue
		}
		hs = assumeCand(hs, g, c)
	}
	for _, m := range x.measures(fr, h, body, phis, live, lc) {
		t := m.eval(get, hs)
		if t != nil {
			lc.measVal[m] = t
			lc.meas = append(lc.meas, m)
		}
	}
	if len(lc.meas) == 0 && !x.noTerm() {
		x.oblige(hs, "loop terminates", lc.id, x.pos(fr, h.Instrs[0].Pos()), tFalse())
	}
	lc.hdr = hs
	nl := map[*ssa.BasicBlock]*loopCtx{}
	for k, v := range fr.loops {
		nl[k] = v
	}
	nl[h] = lc
	saved := fr.loops
	fr.loops = nl
	x.loopBlock(fr, h, len(phis), hs)
	fr.loops = saved
}

func (x *Unit) noTerm() bool { return x.ct != nil && x.ct.flags["noterm"] != "" }

func (x *Unit) loopBlock(fr *frame, h *ssa.BasicBlock, i int, st *State) { x.block(fr, h, i, st) }

func get0x(x *Unit, fr *frame, v ssa.Value) (Val, bool) {
	if c, ok := v.(*ssa.Const); ok {
		return Val{t: x.constant(c)}, true
	}
	r, ok := fr.vals[v]
	return r, ok
}

func assumeCand(st *State, g *T, c *Cand) *State {
	if isTrue(g) {
		return st
	}
	n := *st
	n.facts = &FactNode{n.facts, g, depthOf(n.facts) + 1, c}
	return &n
}

func (x *Unit) candObl(st *State, c *Cand, when string, g *T) {
	if isTrue(g) || st.knows(g) {
		return
	}
	x.obls = append(x.obls, &Obl{kind: "invariant " + when, label: c.text, fn: x.name, goal: g, facts: st.facts, cand: c})
}

func (x *Unit) havocPhi(fr *frame, p *ssa.Phi, init Val, st **State) Val {
	if init.addr != nil && init.t == nil {
		unsupported("loop-carried address %s", p.Name())
	}
	if init.tuple != nil {
		unsupported("loop-carried tuple")
	}
	so := x.V.sorts.Sort(p.Type())
	c := x.fresh("phi_"+mangle(p.Comment)+"_"+p.Name(), so)
	x.noteType(c, p.Type())
	*st = (*st).assume(x.V.sorts.TypeFacts(c, p.Type(), (*st).alloc))
	return Val{t: c}
}

func (x *Unit) backEdge(fr *frame, h *ssa.BasicBlock, lc *loopCtx, phis []*ssa.Phi, vs []Val, st *State) {
	next := map[*ssa.Phi]Val{}
	for i, p := range phis {
		next[p] = vs[i]
	}
	get := func(v ssa.Value) (Val, bool) {
		if p, ok := v.(*ssa.Phi); ok {
			if r, ok := next[p]; ok {
				return r, true
			}
		}
		return get0x(x, fr, v)
	}
	for _, c := range lc.cands {
		g := c.eval(get, st)
		if g == nil {
			continue
		}
		x.candObl(st, c, "is preserved", g)
	}
	for _, m := range lc.meas {
		t := m.eval(get, st)
		if t == nil {
			t = lc.measVal[m]
		}
		v0 := lc.measVal[m]
		x.obls = append(x.obls, &Obl{kind: "loop measure decreases", label: m.text, fn: x.name, goal: and(lt(t, v0), le(num(0), v0)), facts: st.facts, cand: m})
	}
}

// liveIn: values defined outside the loop and usable in it
func (x *Unit) liveIn(fr *frame, body map[*ssa.BasicBlock]bool) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
			return
		}
		if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && body[in.Block()] {
			return
		}
		if _, ok := fr.vals[v]; ok {
			out = append(out, v)
		}
	}
	var blocks []*ssa.BasicBlock
	for b := range body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					add(*op)
				}
			}
		}
	}
	for _, p := range fr.fn.Params {
		add(p)
	}
	return out
}

func (x *Unit) allocsIn(fr *frame, body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.Call, *ssa.MakeClosure, *ssa.Convert:
				return true
			}
		}
	}
	return false
}

// candidates builds the invariant candidates of a loop.
func (x *Unit) candidates(fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, keys []string, live []ssa.Value, lc *loopCtx) []*Cand {
	var out []*Cand
	add := func(text string, ev func(get func(ssa.Value) (Val, bool), st *State) *T) {
		k := lc.id + "|" + text
		c := x.cands[k]
		if c == nil {
			c = &Cand{key: k, text: text, loop: lc.id}
			x.cands[k] = c
			x.candOrd = append(x.candOrd, c)
		}
		// evaluation closures refer to the current visit of the loop
		cc := &Cand{key: c.key, text: c.text, loop: c.loop, eval: ev, rep: c}
		cc.dead = c.dead
		out = append(out, cc)
	}
	entry := lc.entry
	term := func(get func(ssa.Value) (Val, bool), v ssa.Value) *T {
		r, ok := get(v)
		if !ok || r.t == nil {
			return nil
		}
		return r.t
	}
	// frames
	for _, k := range keys {
		k := k
		if k[0] == 'G' {
			add("global "+k+" unchanged", func(get func(ssa.Value) (Val, bool), st *State) *T {
				return eq(x.heapGet(st, k), x.heapGet(entry, k))
			})
			continue
		}
		add("frame "+k+" since loop entry", func(get func(ssa.Value) (Val, bool), st *State) *T {
			return x.frameT(k, st, entry, func(r *T) *T { return lt(r, entry.alloc) })
		})
		if x.ct != nil {
			add("frame "+k+" since function entry", func(get func(ssa.Value) (Val, bool), st *State) *T {
				return x.frameGoal(k, st)
			})
		}
		if k[0] == 'M' {
			for _, v := range append(append([]ssa.Value{}, live...), phiVals(phis)...) {
				v := v
				s, ok := v.Type().Underlying().(*types.Slice)
				if !ok || memKey(s.Elem()) != k {
					continue
				}
				add("frame "+k+" since loop entry except "+v.Name(), func(get func(ssa.Value) (Val, bool), st *State) *T {
					var t *T
					if p, isP := v.(*ssa.Phi); isP && lc.iv[p].t != nil {
						t = lc.iv[p].t
					} else {
						t = term(get, v)
					}
					if t == nil {
						return nil
					}
					return x.frameT(k, st, entry, func(r *T) *T { return and(lt(r, entry.alloc), not(eq(r, sBase(t)))) })
				})
			}
		}
	}
	// relations of integer phis with their initial value and with bounds compared in the loop
	for _, p := range phis {
		p := p
		if _, _, isInt := intBits(p.Type()); isInt {
			add(p.Name()+" >= initial", func(get func(ssa.Value) (Val, bool), st *State) *T {
				i := lc.iv[p]
				if i.t == nil {
					return nil
				}
				return le(i.t, term(get, p))
			})
			add(p.Name()+" <= initial", func(get func(ssa.Value) (Val, bool), st *State) *T {
				i := lc.iv[p]
				if i.t == nil {
					return nil
				}
				return le(term(get, p), i.t)
			})
			add(p.Name()+" >= 0", func(get func(ssa.Value) (Val, bool), st *State) *T { return le(num(0), term(get, p)) })
		}
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			add(p.Name()+" block is initial or new", func(get func(ssa.Value) (Val, bool), st *State) *T {
				i, c := lc.iv[p].t, term(get, p)
				if i == nil || c == nil {
					return nil
				}
				return or(eq(sBase(c), sBase(i)), le(entry.alloc, sBase(c)))
			})
			add(p.Name()+" block is new or nil", func(get func(ssa.Value) (Val, bool), st *State) *T {
				c := term(get, p)
				if c == nil {
					return nil
				}
				return or(eq(sCap(c), num(0)), le(x.old.alloc, sBase(c)))
			})
			add(p.Name()+" block is new since loop entry or nil", func(get func(ssa.Value) (Val, bool), st *State) *T {
				c := term(get, p)
				if c == nil {
					return nil
				}
				return or(eq(sCap(c), num(0)), le(entry.alloc, sBase(c)))
			})
			add(p.Name()+" unchanged", func(get func(ssa.Value) (Val, bool), st *State) *T {
				i, c := lc.iv[p].t, term(get, p)
				if i == nil || c == nil {
					return nil
				}
				return mk("Bool", "=", i, c)
			})
		}
	}
	for _, cmp := range x.comparisons(fr, body) {
		cmp := cmp
		for _, strict := range []int{0, 1, -1} {
			strict := strict
			op := " <= "
			if strict == 1 {
				op = " < "
			} else if strict == -1 {
				if !cmp.weak {
					continue
				}
				op = " <= 1 + " // where the exit of a loop compared with <= leaves it
			}
			add(cmp.a.text+op+cmp.b.text, func(get func(ssa.Value) (Val, bool), st *State) *T {
				a, b := cmp.a.ev(x, get, st), cmp.b.ev(x, get, st)
				if a == nil || b == nil {
					return nil
				}
				switch strict {
				case 1:
					return lt(a, b)
				case -1:
					return le(a, x.slack(b))
				}
				return le(a, b)
			})
		}
	}
	// templates from the contract
	if x.ct != nil {
		n := 0
		for _, c := range x.ct.cl {
			if c.kind != "invariant" {
				continue
			}
			n++
			c := c
			for _, asg := range x.assignments(fr, h, phis, live, c.metas) {
				asg := asg
				txt := c.label
				if txt == "" {
					txt = fmt.Sprintf("invariant %d", n)
				}
				add(txt+asg.text, func(get func(ssa.Value) (Val, bool), st *State) *T {
					env := x.tmplEnv(fr, asg, get, st, lc)
					if env == nil {
						return nil
					}
					return x.evb(c.ex, env)
				})
				out[len(out)-1].rep.tmpl = true
			}
		}
	}
	return out
}

func phiVals(ps []*ssa.Phi) []ssa.Value {
	var o []ssa.Value
	for _, p := range ps {
		o = append(o, p)
	}
	return o
}

type asgn struct {
	text string
	v    map[string]ssa.Value
	off  map[string]int64
	gt   map[string]types.Type
}

func (x *Unit) tmplEnv(fr *frame, a asgn, get func(ssa.Value) (Val, bool), st *State, lc *loopCtx) *Env {
	env := &Env{vars: x.env0.vars, st: st, old: x.old, entry: lc.entry}
	for n, v := range a.v {
		r, ok := get(v)
		if !ok || r.t == nil {
			return nil
		}
		t := r.t
		if a.off[n] != 0 {
			t = add(t, num(a.off[n]))
		}
		env = env.bind(n, SV{t, a.gt[n]})
		if p, ok := v.(*ssa.Phi); ok && lc.iv[p].t != nil {
			t := lc.iv[p].t
			if a.off[n] != 0 {
				t = add(t, num(a.off[n]))
			}
			env = env.bind(n+"0", SV{t, a.gt[n]})
		} else {
			env = env.bind(n+"0", SV{t, a.gt[n]})
		}
	}
	return env
}

func sameType(gt types.Type, want types.Type, so string) bool {
	if want == nil {
		_, _, ok := intBits(gt)
		if so == "Int" {
			return ok
		}
		if so == "Bool" {
			b, isb := gt.Underlying().(*types.Basic)
			return isb && b.Info()&types.IsBoolean != 0
		}
		return false
	}
	return types.Identical(gt, want)
}

// assignments of loop values to the metavariables of a template. A metavariable
// ranges over the phis of the loop and of enclosing loops (and p+1 for the
// integer phis) and over values defined before the loop.
func (x *Unit) assignments(fr *frame, h *ssa.BasicBlock, phis []*ssa.Phi, live []ssa.Value, metas []QVar) []asgn {
	out := []asgn{{"", map[string]ssa.Value{}, map[string]int64{}, map[string]types.Type{}}}
	if len(metas) == 0 {
		return out
	}
	type pv struct {
		v   ssa.Value
		off int64
		gt  types.Type
	}
	for _, m := range metas {
		tname := m.typ
		phiOnly := strings.HasPrefix(tname, "phi ")
		tname = strings.TrimPrefix(tname, "phi ")
		want, so := x.V.resolveType(tname)
		var ch []pv
		cons := func(v ssa.Value, isPhi bool) {
			if !sameType(v.Type(), want, so) {
				return
			}
			gt := want
			ch = append(ch, pv{v, 0, gt})
			if isPhi && so == "Int" && want == nil {
				ch = append(ch, pv{v, 1, gt})
			}
		}
		for _, p := range phis {
			cons(p, true)
		}
		if !phiOnly {
			for _, v := range live {
				if _, isPhi := v.(*ssa.Phi); isPhi {
					cons(v, false)
					if want == nil && so == "Int" && sameType(v.Type(), want, so) {
						ch = append(ch, pv{v, 1, want})
					}
				} else {
					cons(v, false)
				}
			}
		}
		// a template variable named after a variable of this loop stands for that variable
		if nm := strings.TrimPrefix(m.name, "$"); len(nm) > 1 {
			var only []pv
			for _, c := range ch {
				if p, ok := c.v.(*ssa.Phi); ok && p.Comment == nm {
					only = append(only, c)
				}
			}
			if only != nil {
				ch = only
			}
		}
		var next []asgn
		for _, a := range out {
			for _, c := range ch {
				n := asgn{a.text + fmt.Sprintf(" %s=%s", m.name, c.v.Name()), map[string]ssa.Value{}, map[string]int64{}, map[string]types.Type{}}
				if c.off != 0 {
					n.text += "+1"
				}
				dup := false
				for k, v := range a.v {
					n.v[k], n.off[k], n.gt[k] = v, a.off[k], a.gt[k]
					if v == c.v && so != "Int" {
						dup = true
					}
				}
				if dup {
					continue
				}
				n.v[m.name], n.off[m.name], n.gt[m.name] = c.v, c.off, c.gt
				next = append(next, n)
			}
		}
		out = next
		if len(out) > 3000 {
			unsupported("too many invariant instances")
		}
	}
	return out
}

type pureEx struct {
	text string
	ev   func(x *Unit, get func(ssa.Value) (Val, bool), st *State) *T
}
type cmpT struct {
	a, b pureEx
	weak bool
}

// comparisons between integers that occur in the loop
func (x *Unit) comparisons(fr *frame, body map[*ssa.BasicBlock]bool) []cmpT {
	var out []cmpT
	seen := map[string]bool{}
	var blocks []*ssa.BasicBlock
	for b := range body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			if _, _, isInt := intBits(bo.X.Type()); !isInt {
				continue
			}
			a, ok1 := x.pure(bo.X, body, 0)
			c, ok2 := x.pure(bo.Y, body, 0)
			if !ok1 || !ok2 {
				continue
			}
			weak := bo.Op == token.LEQ || bo.Op == token.GEQ
			push := func(p, q pureEx) {
				k := fmt.Sprint(p.text, "<", q.text, weak)
				if !seen[k] {
					seen[k] = true
					out = append(out, cmpT{p, q, weak})
				}
			}
			switch bo.Op {
			case token.LSS, token.LEQ:
				push(a, c)
			case token.GTR, token.GEQ:
				push(c, a)
			default:
				push(a, c)
				push(c, a)
			}
		}
	}
	return out
}

// pure rebuilds an integer expression from phis and loop-invariant values.
func (x *Unit) pure(v ssa.Value, body map[*ssa.BasicBlock]bool, d int) (pureEx, bool) {
	if d > 6 {
		return pureEx{}, false
	}
	if c, ok := v.(*ssa.Const); ok {
		return pureEx{c.Name(), func(x *Unit, get func(ssa.Value) (Val, bool), st *State) *T { return x.constant(c) }}, true
	}
	leaf := pureEx{v.Name(), func(x *Unit, get func(ssa.Value) (Val, bool), st *State) *T {
		r, ok := get(v)
		if !ok {
			return nil
		}
		return r.t
	}}
	in, isIn := v.(ssa.Instruction)
	if !isIn || in.Block() == nil || !body[in.Block()] {
		return leaf, true
	}
	switch i := v.(type) {
	case *ssa.Phi:
		// only header phis have a value at the loop head
		for b := range body {
			if b == i.Block() {
				for _, p := range b.Preds {
					if !body[p] {
						return leaf, true
					}
				}
			}
		}
		return pureEx{}, false
	case *ssa.BinOp:
		a, ok1 := x.pure(i.X, body, d+1)
		b, ok2 := x.pure(i.Y, body, d+1)
		if !ok1 || !ok2 {
			return pureEx{}, false
		}
		if _, _, isInt := intBits(i.Type()); !isInt {
			return pureEx{}, false
		}
		switch i.Op {
		case token.ADD, token.SUB:
			return pureEx{"(" + a.text + i.Op.String() + b.text + ")", func(x *Unit, get func(ssa.Value) (Val, bool), st *State) *T {
				p, q := a.ev(x, get, st), b.ev(x, get, st)
				if p == nil || q == nil {
					return nil
				}
				if i.Op == token.ADD {
					return add(p, q)
				}
				return sub(p, q)
			}}, true
		case token.MUL, token.QUO, token.SHL, token.SHR:
			c, isC := i.Y.(*ssa.Const)
			if !isC || c.Value == nil {
				return pureEx{}, false
			}
			k, exact := constant.Int64Val(constant.ToInt(c.Value))
			if !exact || k <= 0 || i.Op != token.QUO && i.Op != token.MUL && k > 62 {
				return pureEx{}, false
			}
			if i.Op == token.SHL || i.Op == token.SHR {
				k = 1 << uint(k)
			}
			return pureEx{"(" + a.text + i.Op.String() + b.text + ")", func(x *Unit, get func(ssa.Value) (Val, bool), st *State) *T {
				p := a.ev(x, get, st)
				if p == nil {
					return nil
				}
				switch i.Op {
				case token.MUL, token.SHL:
					return mul(num(k), p)
				case token.SHR:
					return app("Int", "div", p, num(k))
				}
				return app("Int", "tdiv", p, num(k))
			}}, true
		}
	case *ssa.Convert:
		if _, _, ok := intBits(i.X.Type()); !ok {
			return pureEx{}, false
		}
		if _, _, ok := intBits(i.Type()); !ok {
			return pureEx{}, false
		}
		return x.pure(i.X, body, d+1)
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a, ok := x.pureAny(i.Call.Args[0], body, d+1)
			if !ok {
				return pureEx{}, false
			}
			return pureEx{"len(" + a.text + ")", func(x *Unit, get func(ssa.Value) (Val, bool), st *State) *T {
				p := a.ev(x, get, st)
				if p == nil {
					return nil
				}
				switch p.sort {
				case "Slice":
					return sLen(p)
				case "QSeq":
					return app("Int", "qlen", p)
				}
				return nil
			}}, true
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			return x.pureAny(v, body, d)
		}
	}
	return pureEx{}, false
}

func (x *Unit) pureAny(v ssa.Value, body map[*ssa.BasicBlock]bool, d int) (pureEx, bool) {
	if d > 6 {
		return pureEx{}, false
	}
	in, isIn := v.(ssa.Instruction)
	if !isIn || in.Block() == nil || !body[in.Block()] {
		return pureEx{v.Name(), func(x *Unit, get func(ssa.Value) (Val, bool), st *State) *T {
			r, ok := get(v)
			if !ok {
				return nil
			}
			return r.t
		}}, true
	}
	switch i := v.(type) {
	case *ssa.Phi:
		return x.pure(v, body, d)
	case *ssa.UnOp:
		if i.Op == token.MUL {
			if fa, ok := i.X.(*ssa.FieldAddr); ok {
				b, ok := x.pureAny(fa.X, body, d+1)
				if !ok {
					return pureEx{}, false
				}
				st0, u := structOf(fa.X.Type())
				if u == nil || opaqueStruct(st0) != "" {
					return pureEx{}, false
				}
				ft := u.Field(fa.Field).Type()
				return pureEx{b.text + "." + u.Field(fa.Field).Name(), func(x *Unit, get func(ssa.Value) (Val, bool), st *State) *T {
					p := b.ev(x, get, st)
					if p == nil || p.sort != "Int" {
						return nil
					}
					return sel(x.heapGet(st, x.V.key(fieldKey(st0, fa.Field), ft)), p)
				}}, true
			}
		}
	}
	return pureEx{}, false
}

// measures: candidate termination measures of a loop
func (x *Unit) measures(fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, live []ssa.Value, lc *loopCtx) []*Cand {
	var out []*Cand
	add := func(text string, ev func(get func(ssa.Value) (Val, bool), st *State) *T) {
		k := lc.id + "|measure " + text
		c := x.cands[k]
		if c == nil {
			c = &Cand{key: k, text: text, loop: lc.id, measure: true}
			x.cands[k] = c
			x.candOrd = append(x.candOrd, c)
			x.loopN[lc.id] = append(x.loopN[lc.id], c)
		}
		out = append(out, &Cand{key: k, text: text, loop: lc.id, eval: ev, rep: c, measure: true})
	}
	if x.noTerm() {
		return nil
	}
	for _, cmp := range x.comparisons(fr, body) {
		cmp := cmp
		add(cmp.b.text+" - "+cmp.a.text, func(get func(ssa.Value) (Val, bool), st *State) *T {
			a, b := cmp.a.ev(x, get, st), cmp.b.ev(x, get, st)
			if a == nil || b == nil {
				return nil
			}
			return x.slack(sub(b, a))
		})
	}
	for _, p := range phis {
		p := p
		if _, _, isInt := intBits(p.Type()); isInt {
			add(p.Name(), func(get func(ssa.Value) (Val, bool), st *State) *T {
				r, ok := get(p)
				if !ok {
					return nil
				}
				return r.t
			})
		}
	}
	if x.ct != nil {
		for i, c := range x.ct.cl {
			if c.kind != "measure" {
				continue
			}
			c := c
			for _, asg := range x.assignments(fr, h, phis, live, c.metas) {
				asg := asg
				add(fmt.Sprintf("measure %d%s", i, asg.text), func(get func(ssa.Value) (Val, bool), st *State) *T {
					env := x.tmplEnv(fr, asg, get, st, lc)
					if env == nil {
						return nil
					}
					return x.ev(c.ex, env).t
				})
			}
		}
	}
	return out
}

// a bound compared with <= leaves the difference one below zero at the end
func (x *Unit) slack(t *T) *T { return add(t, bigT(big.NewInt(1))) }

// frameT: key k is unchanged at the references selected by p
func (x *Unit) frameT(k string, st, from *State, p func(r *T) *T) *T {
	a, b := x.heapGet(st, k), x.heapGet(from, k)
	if a == b {
		return tTrue()
	}
	x.qn++
	n := fmt.Sprintf("r!%d", x.qn)
	r := cst(n, "Int")
	s1 := mk(elemSort(a.sort), "select", a, r)
	s2 := mk(elemSort(b.sort), "select", b, r)
	return quant("forall", []BVar{{n, "Int"}}, [][]*T{{s1}}, implies(and(le(num(0), r), p(r)), eq(s1, s2)))
}

// frameGoal: what the contract promises about key k at a state reached from the entry state
func (x *Unit) frameGoal(k string, st *State) *T {
	ex, all := x.frameExcept(k, x.ct, x.env0)
	if all {
		return tTrue()
	}
	if k[0] == 'G' {
		return eq(x.heapGet(st, k), x.heapGet(x.old, k))
	}
	return x.frameT(k, st, x.old, func(r *T) *T { return and(lt(r, x.old.alloc), not(ex(r))) })
}

// frameExcept: the references of key k the contract allows to change
func (x *Unit) frameExcept(k string, ct *Contract, env *Env) (func(r *T) *T, bool) {
	var ps []func(r *T) *T
	if ct != nil {
		for _, c := range ct.cl {
			if c.kind != "modifies" {
				continue
			}
			hit := false
			for _, kk := range c.key {
				if kk == k {
					hit = true
				}
			}
			if !hit {
				continue
			}
			c := c
			if c.bv == nil && len(c.at) == 0 {
				return nil, true
			}
			if c.bv != nil {
				ps = append(ps, func(r *T) *T { return x.evb(c.ex, env.bind(c.bv.name, SV{t: r})) })
			} else {
				for _, e := range c.at {
					t := refOf(x.ev(e, env))
					ps = append(ps, func(r *T) *T { return eq(r, t) })
				}
			}
		}
	}
	return func(r *T) *T {
		var os []*T
		for _, p := range ps {
			os = append(os, p(r))
		}
		return or(os...)
	}, false
}
