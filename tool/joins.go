package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// flag join: where the branches of an if meet again (outside loops), the function is cut
// like at a loop header: every path arriving there must establish the invariants, and the
// code behind is executed once, from a state that satisfies them and in which everything
// the branches may have changed is unknown.

type joinCtx struct {
	lc    *loopCtx
	base  *State // state before the branch
	vals  map[ssa.Value]Val
	body  map[*ssa.BasicBlock]bool
	keys  []string
	at    *ssa.BasicBlock // block that branches
	first bool
}

func (x *Unit) joinOf(fr *frame, b *ssa.BasicBlock) *ssa.BasicBlock {
	if fr.up != nil || x.ct == nil || x.ct.flags["join"] == "" || len(fr.loops) > 0 {
		return nil
	}
	for _, body := range fr.li.header {
		if body[b] {
			return nil
		}
	}
	var found *ssa.BasicBlock
	for _, d := range b.Dominees() {
		if len(d.Preds) < 2 {
			continue
		}
		if _, isH := fr.li.header[d]; isH {
			return nil
		}
		if found != nil {
			return nil
		}
		found = d
	}
	return found
}

func (x *Unit) openJoin(fr *frame, b *ssa.BasicBlock, st *State) func() {
	j := x.joinOf(fr, b)
	if j == nil {
		return nil
	}
	jc := &joinCtx{base: st, at: b, first: true, body: map[*ssa.BasicBlock]bool{}}
	var rec func(d *ssa.BasicBlock)
	rec = func(d *ssa.BasicBlock) {
		for _, c := range d.Dominees() {
			if c != j {
				jc.body[c] = true
				rec(c)
			}
		}
	}
	rec(b)
	jc.vals = map[ssa.Value]Val{}
	for k, v := range fr.vals {
		jc.vals[k] = v
	}
	touched := map[string]bool{}
	for c := range jc.body {
		for k := range x.V.touchesBlock(c) {
			touched[k] = true
		}
	}
	jc.keys = sortedKeys(touched)
	saved := fr.joins
	nj := map[*ssa.BasicBlock]*joinCtx{}
	for k, v := range saved {
		nj[k] = v
	}
	nj[j] = jc
	fr.joins = nj
	return func() { fr.joins = saved }
}

func (x *Unit) enterJoin(fr *frame, j *ssa.BasicBlock, jc *joinCtx, phis []*ssa.Phi, vs []Val, st *State) {
	if jc.lc == nil {
		lc := &loopCtx{id: fmt.Sprintf("%s@join%d", fr.id, j.Index), entry: jc.base, hv: map[*ssa.Phi]Val{}, iv: map[*ssa.Phi]Val{}, measVal: map[*Cand]*T{}}
		for _, p := range phis {
			// the value the variable had before the branch
			for _, e := range p.Edges {
				if v, ok := jc.vals[e]; ok {
					lc.iv[p] = v
				}
			}
		}
		// values known before the branch and used behind it
		var live []ssa.Value
		seen := map[ssa.Value]bool{}
		use := func(v ssa.Value) {
			if v == nil || seen[v] {
				return
			}
			seen[v] = true
			if _, ok := jc.vals[v]; ok {
				live = append(live, v)
			}
		}
		var after []*ssa.BasicBlock
		done := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if done[b] {
				return
			}
			done[b] = true
			after = append(after, b)
			for _, s := range b.Succs {
				walk(s)
			}
		}
		walk(j)
		sort.Slice(after, func(a, b int) bool { return after[a].Index < after[b].Index })
		for _, b := range after {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != nil {
						switch (*op).(type) {
						case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
							continue
						}
						use(*op)
					}
				}
			}
		}
		for _, p := range fr.fn.Params {
			use(p)
		}
		lc.cands = x.candidates(fr, j, jc.body, phis, jc.keys, live, lc)
		jc.lc = lc
	}
	lc := jc.lc
	next := map[*ssa.Phi]Val{}
	for i, p := range phis {
		next[p] = vs[i]
	}
	get := func(v ssa.Value) (Val, bool) {
		if p, ok := v.(*ssa.Phi); ok {
			if r, ok := next[p]; ok {
				return r, true
			}
		}
		if c, ok := v.(*ssa.Const); ok {
			return Val{t: x.constant(c)}, true
		}
		r, ok := jc.vals[v]
		return r, ok
	}
	for _, c := range lc.cands {
		if c.dead {
			continue
		}
		g := c.eval(get, st)
		if g == nil {
			c.dead, c.rep.dead = true, true
			continue
		}
		x.candObl(st, c, "holds where branches meet", g)
	}
	if !jc.first {
		return
	}
	jc.first = false
	hs := jc.base
	if len(jc.keys) > 0 || x.allocsIn(fr, jc.body) {
		hs = x.havocAlloc(hs)
	}
	for _, k := range jc.keys {
		hs = x.havocKey(hs, k)
	}
	vals, joins := fr.vals, fr.joins
	fr.vals = map[ssa.Value]Val{}
	for k, v := range jc.vals {
		fr.vals[k] = v
	}
	for i, p := range phis {
		nv := x.havocPhi(fr, p, vs[i], &hs)
		lc.hv[p] = nv
		fr.vals[p] = nv
	}
	get2 := func(v ssa.Value) (Val, bool) { return get0x(x, fr, v) }
	for _, c := range lc.cands {
		if c.dead {
			continue
		}
		g := c.eval(get2, hs)
		if g == nil {
			continue
		}
		hs = assumeCand(hs, g, c)
	}
	nj := map[*ssa.BasicBlock]*joinCtx{}
	for k, v := range joins {
		if k != j {
			nj[k] = v
		}
	}
	fr.joins = nj
	x.block(fr, j, len(phis), hs)
	fr.vals, fr.joins = vals, joins
}
