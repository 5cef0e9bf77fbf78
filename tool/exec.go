package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Unit is one verification task: a function (or method as interface implementor)
// executed symbolically against its contract.
type Unit struct {
	noMark bool
	V       *Verifier
	name    string
	fn      *ssa.Function
	ct      *Contract
	obls    []*Obl
	qn      int
	cn      int
	axioms  []*T
	recDeps map[string]bool
	opaque  map[string]bool
	recUnit string
	seqUse  int
	init    map[string]*T
	strs    map[string]*T
	strOrd  []string
	deps    map[string]bool // contracts relied on
	libs    map[string]bool // trusted contracts and models relied on
	inlined map[string]bool
	old     *State
	env0    *Env
	cands   map[string]*Cand
	candOrd []*Cand
	loopsOf map[*ssa.Function]*LoopInfo
	loopN   map[string][]*Cand // loop id -> measure candidates
	rng     map[*T][2]*big.Int
	bits    map[*T][2]int // trailing zero bits, width
	feas    []*Obl        // reachability (vacuity) probes
	paths   int
	err     string
	clos    map[string]Val
	depthRt *frame
	boxes   map[string]string
	lem     *Lemma
	lemTxt  []string
	lemmaDeps []string
	uid     int
}

type frame struct {
	fn    *ssa.Function
	vals  map[ssa.Value]Val
	loops map[*ssa.BasicBlock]*loopCtx
	joins map[*ssa.BasicBlock]*joinCtx
	unr   map[*ssa.BasicBlock]int
	ret   func(st *State, res []Val)
	depth int
	up    *frame
	li    *LoopInfo
	id    string
}

type loopCtx struct {
	id      string
	entry   *State
	hdr     *State
	hv      map[*ssa.Phi]Val
	iv      map[*ssa.Phi]Val
	cands   []*Cand
	meas    []*Cand
	measVal map[*Cand]*T
}

func (x *Unit) fresh(name, sort string) *T {
	x.cn++
	return cst(fmt.Sprintf("%s!%d_%d", name, x.uid, x.cn), sort)
}

func unsupported(f string, a ...interface{}) { panic(untrans{fmt.Sprintf(f, a...)}) }

// ------------------------------------------------------------ heap

func (x *Unit) heapGet(st *State, k string) *T {
	if t, ok := st.heap[k]; ok {
		return t
	}
	if t, ok := x.init[k]; ok {
		return t
	}
	ki := x.V.resolveKey(k)
	t := cst(keyConst(k)+"_0", ki.sort)
	x.init[k] = t
	for _, f := range x.keyFacts(k, t, x.old.alloc) {
		x.axioms = append(x.axioms, f)
	}
	return t
}

// keyFacts: every value stored in the heap is well typed.
func (x *Unit) keyFacts(k string, m, alloc *T) []*T {
	ki := x.V.resolveKey(k)
	switch k[0] {
	case 'G':
		return append([]*T{x.V.sorts.TypeFacts(m, ki.gt, alloc)}, x.globalFacts(k, m)...)
	case 'M':
		x.qn++
		r, i := fmt.Sprintf("r!%d", x.qn), fmt.Sprintf("i!%d", x.qn)
		s := sel(sel(m, cst(r, "Int")), cst(i, "Int"))
		f := x.V.sorts.TypeFacts(s, ki.gt, alloc)
		if isTrue(f) {
			return nil
		}
		return []*T{quant("forall", []BVar{{r, "Int"}, {i, "Int"}}, [][]*T{{s}}, f)}
	default:
		x.qn++
		r := fmt.Sprintf("r!%d", x.qn)
		s := sel(m, cst(r, "Int"))
		f := x.V.sorts.TypeFacts(s, ki.gt, alloc)
		if isTrue(f) {
			return nil
		}
		return []*T{quant("forall", []BVar{{r, "Int"}}, [][]*T{{s}}, f)}
	}
}

func (x *Unit) heapSet(st *State, k string, t *T) *State {
	if t.op == "store" {
		c := x.fresh(keyConst(k), t.sort)
		storeDef[c] = t
		st = st.with(k, c)
		return st.assume(eq(c, t))
	}
	return st.with(k, t)
}

func (x *Unit) havocKey(st *State, k string) *State {
	ki := x.V.resolveKey(k)
	c := x.fresh(keyConst(k), ki.sort)
	st = st.with(k, c)
	return st.assume(x.keyFacts(k, c, st.alloc)...)
}

func (x *Unit) havocAlloc(st *State) *State {
	n := st.clone()
	n.alloc = x.fresh("alloc", "Int")
	return n.assume(le(st.alloc, n.alloc))
}

func (x *Unit) newRef(st *State) (*T, *State) {
	r := st.alloc
	n := st.clone()
	n.alloc = add(st.alloc, num(1))
	return r, n
}

// read a located value
func (x *Unit) load(st *State, a *Addr) *T {
	m := x.heapGet(st, a.key)
	t := m
	if a.ref != nil {
		t = sel(m, a.ref)
	}
	for _, p := range a.pr {
		if p.ix != nil {
			t = sel(t, p.ix)
		} else {
			t = x.V.sorts.Field(t, p.st, p.idx)
		}
	}
	x.noteType(t, a.gt)
	return t
}

func (x *Unit) noteType(t *T, gt types.Type) {
	if opaqueStruct(gt) != "" {
		return
	}
	// The note holds on every path, so it is only made for terms that are in
	// range by themselves: not for sums and the like, which are in range only
	// under the conditions of the path that built them.
	switch t.op {
	case "+", "-", "*", "div", "mod", "ite", "tdiv", "trem", "pow2":
		return
	}
	if lo, hi, ok := intRange(gt); ok && t.num == nil {
		if _, has := x.rng[t]; !has {
			x.rng[t] = [2]*big.Int{lo, hi}
			b, s, _ := intBits(gt)
			if !s {
				if _, has := x.bits[t]; !has {
					x.bits[t] = [2]int{0, b}
				}
			}
		}
	}
}

func (x *Unit) store(st *State, a *Addr, v *T) *State {
	m := x.heapGet(st, a.key)
	var upd func(t *T, pr []Proj) *T
	upd = func(t *T, pr []Proj) *T {
		if len(pr) == 0 {
			return v
		}
		p := pr[0]
		if p.ix != nil {
			return sto(t, p.ix, upd(sel(t, p.ix), pr[1:]))
		}
		return x.V.sorts.WithField(t, p.st, p.idx, upd(x.V.sorts.Field(t, p.st, p.idx), pr[1:]))
	}
	if a.ref == nil {
		return x.heapSet(st, a.key, upd(m, a.pr))
	}
	old := sel(m, a.ref)
	nv := upd(old, a.pr)
	if nv.op == "store" { // name inner block
		c := x.fresh("blk", nv.sort)
		storeDef[c] = nv
		st = st.assume(eq(c, nv))
		nv = c
	}
	return x.mark(st, x.heapSet(st, a.key, sto(m, a.ref, nv)), a)
}

// mark states the marker predicates of a store.
func (x *Unit) mark(before, st *State, a *Addr) *State {
	for _, w := range x.V.sp.watches {
		if x.noMark || x.ct == nil || !x.V.sp.uses(x.ct.file, w.file, map[string]bool{}) {
			continue
		}
		var o, n []*T
		hit := false
		for _, k := range w.keys {
			x.V.resolveKey(k)
			o = append(o, x.heapGet(before, k))
			n = append(n, x.heapGet(st, k))
			hit = hit || o[len(o)-1] != n[len(n)-1]
		}
		if hit {
			st = st.assume(app("Bool", w.name, append(append(o, n...), a.ref)...))
		}
	}
	return st
}

// ------------------------------------------------------------ boxing

func boxSuffix(sort string) string {
	return strings.NewReplacer("(", "", ")", "", " ", "_").Replace(sort)
}

func (x *Unit) makeIface(t *T, gt types.Type) *T {
	if t.sort == "Iface" {
		return t
	}
	tag := x.V.sorts.Tag(gt)
	if t.sort == "Int" {
		return mkIface(tag, t)
	}
	s := boxSuffix(t.sort)
	x.V.sorts.boxes[s] = t.sort
	if t.sort == "Bool" {
		return mkIface(tag, ite(t, num(1), num(0)))
	}
	if t.op == "unbox_"+s {
		return mkIface(tag, t.args[0])
	}
	return mkIface(tag, app("Int", "box_"+s, t))
}

func (x *Unit) unbox(v *T, gt types.Type) *T {
	so := x.V.sorts.Sort(gt)
	if so == "Int" {
		return v
	}
	if so == "Bool" {
		return eq(v, num(1))
	}
	s := boxSuffix(so)
	x.V.sorts.boxes[s] = so
	if v.op == "box_"+s {
		return v.args[0]
	}
	return app(so, "unbox_"+s, v)
}

// ------------------------------------------------------------ strings

func (x *Unit) strConst(s string) *T {
	if s == "" {
		return cst("sempty", "QSeq")
	}
	if t, ok := x.strs[s]; ok {
		return t
	}
	t := cst(fmt.Sprintf("str_%d", len(x.strs)), "QSeq")
	x.strs[s] = t
	x.axioms = append(x.axioms, eq(app("Int", "qlen", t), num(int64(len(s)))))
	if len(s) <= 80 {
		x.axioms = append(x.axioms, x.table(int64(len(s)), func(i *T) *T { return app("Int", "qat", t, i) }, func(i int64) *big.Int { return big.NewInt(int64(s[i])) })...)
	}
	return t
}

// ------------------------------------------------------------ obligations

func (x *Unit) pos(fr *frame, p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.V.l.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Unit) oblige(st *State, kind, label, pos string, goal *T) *State {
	if isTrue(goal) {
		x.obls = append(x.obls, &Obl{kind: kind, label: label, pos: pos, fn: x.name, goal: goal, res: "trivial"})
		return st
	}
	if st.knows(goal) {
		x.obls = append(x.obls, &Obl{kind: kind, label: label, pos: pos, fn: x.name, goal: goal, res: "trivial"})
		return st
	}
	x.obls = append(x.obls, &Obl{kind: kind, label: label, pos: pos, fn: x.name, goal: goal, facts: st.facts})
	if len(x.obls) > 60000 {
		unsupported("too many proof obligations")
	}
	return st.assume(goal)
}

func (st *State) knows(g *T) bool {
	if g.op == "and" {
		for _, a := range g.args {
			if !st.knows(a) {
				return false
			}
		}
		return true
	}
	for f := st.facts; f != nil; f = f.parent {
		if f.fact == g && f.cand == nil {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------ integer ranges

func (x *Unit) static(t *T) (lo, hi *big.Int) {
	if t.num != nil {
		return t.num, t.num
	}
	switch t.op {
	case "slen", "scap", "qlen", "soff":
		return big.NewInt(0), big.NewInt(maxLen)
	case "sslen", "islen":
		return big.NewInt(0), big.NewInt(maxLen)
	}
	if r, ok := x.rng[t]; ok {
		lo, hi = r[0], r[1]
	}
	var l2, h2 *big.Int
	switch t.op {
	case "+":
		l2, h2 = new(big.Int), new(big.Int)
		for _, a := range t.args {
			al, ah := x.static(a)
			if al == nil {
				l2 = nil
			} else if l2 != nil {
				l2 = new(big.Int).Add(l2, al)
			}
			if ah == nil {
				h2 = nil
			} else if h2 != nil {
				h2 = new(big.Int).Add(h2, ah)
			}
		}
	case "*":
		if t.args[0].num != nil {
			al, ah := x.static(t.args[1])
			if al != nil && ah != nil {
				a, b := new(big.Int).Mul(t.args[0].num, al), new(big.Int).Mul(t.args[0].num, ah)
				if a.Cmp(b) > 0 {
					a, b = b, a
				}
				l2, h2 = a, b
			}
		} else {
			al, ah := x.static(t.args[0])
			bl, bh := x.static(t.args[1])
			if al != nil && ah != nil && bl != nil && bh != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
				l2, h2 = new(big.Int).Mul(al, bl), new(big.Int).Mul(ah, bh)
			}
		}
	case "mod":
		if t.args[1].num != nil && t.args[1].num.Sign() > 0 {
			l2, h2 = big.NewInt(0), new(big.Int).Sub(t.args[1].num, big.NewInt(1))
		}
	case "div":
		if t.args[1].num != nil && t.args[1].num.Sign() > 0 {
			al, ah := x.static(t.args[0])
			if al != nil {
				l2 = new(big.Int).Div(al, t.args[1].num)
			}
			if ah != nil {
				h2 = new(big.Int).Div(ah, t.args[1].num)
			}
		}
	case "ite":
		al, ah := x.static(t.args[1])
		bl, bh := x.static(t.args[2])
		if al != nil && bl != nil {
			l2 = al
			if bl.Cmp(al) < 0 {
				l2 = bl
			}
		}
		if ah != nil && bh != nil {
			h2 = ah
			if bh.Cmp(ah) > 0 {
				h2 = bh
			}
		}
	}
	if l2 != nil && (lo == nil || l2.Cmp(lo) > 0) {
		lo = l2
	}
	if h2 != nil && (hi == nil || h2.Cmp(hi) < 0) {
		hi = h2
	}
	return
}

func (x *Unit) rangeOf(t *T, st *State) (lo, hi *big.Int) {
	lo, hi = x.static(t)
	if t.num != nil {
		return
	}
	// split linear atoms using path facts
	if t.op == "+" || (t.op == "*" && t.args[0].num != nil) {
		m := map[*T]*big.Int{}
		c := new(big.Int)
		lin(t, big.NewInt(1), m, c)
		l2, h2 := new(big.Int).Set(c), new(big.Int).Set(c)
		for a, k := range m {
			if a == t {
				return
			}
			al, ah := x.rangeOf(a, st)
			if k.Sign() < 0 {
				al, ah = ah, al
			}
			if al == nil {
				l2 = nil
			} else if l2 != nil {
				l2.Add(l2, new(big.Int).Mul(k, al))
			}
			if ah == nil {
				h2 = nil
			} else if h2 != nil {
				h2.Add(h2, new(big.Int).Mul(k, ah))
			}
		}
		if l2 != nil && (lo == nil || l2.Cmp(lo) > 0) {
			lo = l2
		}
		if h2 != nil && (hi == nil || h2.Cmp(hi) < 0) {
			hi = h2
		}
	}
	one := big.NewInt(1)
	upd := func(f *T) {
		if (f.op != "<" && f.op != "<=" && f.op != "=") || f.args[0].sort != "Int" {
			return
		}
		a, b := f.args[0], f.args[1]
		var k int64
		if f.op == "<" {
			k = 1
		}
		// a + k <= b ; bounds on t when t is an atom of the difference with coefficient +-1
		if a == t || f.op == "=" && a == t {
			if _, h := x.static(b); h != nil {
				h = new(big.Int).Sub(h, big.NewInt(k))
				if hi == nil || h.Cmp(hi) < 0 {
					hi = h
				}
			}
			if f.op == "=" {
				if l, _ := x.static(b); l != nil && (lo == nil || l.Cmp(lo) > 0) {
					lo = l
				}
			}
		}
		if b == t {
			if l, _ := x.static(a); l != nil {
				l = new(big.Int).Add(l, big.NewInt(k))
				if lo == nil || l.Cmp(lo) > 0 {
					lo = l
				}
			}
			if f.op == "=" {
				if _, h := x.static(a); h != nil && (hi == nil || h.Cmp(hi) < 0) {
					hi = h
				}
			}
		}
		if a != t && b != t && (a.op == "+" || b.op == "+") {
			// t + c (+ others) <= b
			m := map[*T]*big.Int{}
			c := big.NewInt(k)
			lin(a, big.NewInt(1), m, c)
			lin(b, big.NewInt(-1), m, c)
			kt, ok := m[t]
			if !ok || kt.CmpAbs(one) != 0 {
				return
			}
			rest := new(big.Int).Set(c) // lower bound of the rest
			for q, kq := range m {
				if q == t {
					continue
				}
				l, h := x.static(q)
				if kq.Sign() < 0 {
					l, h = h, l
				}
				_ = h
				if l == nil {
					return
				}
				rest.Add(rest, new(big.Int).Mul(kq, l))
			}
			// kt*t + rest <= 0
			if kt.Sign() > 0 {
				h := new(big.Int).Neg(rest)
				if hi == nil || h.Cmp(hi) < 0 {
					hi = h
				}
			} else if lo == nil || rest.Cmp(lo) > 0 {
				lo = rest
			}
		}
	}
	for f := st.facts; f != nil; f = f.parent {
		if f.cand == nil {
			upd(f.fact)
		}
	}
	return
}

func (x *Unit) inType(t *T, gt types.Type, st *State) bool {
	lo, hi, ok := intRange(gt)
	if !ok {
		return false
	}
	l, h := x.rangeOf(t, st)
	return l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0
}

// wrap reduces the mathematical value t to type gt. small: t is known to be off by at most one modulus.
func (x *Unit) wrap(t *T, gt types.Type, st *State, small bool) *T {
	b, s, ok := intBits(gt)
	if !ok {
		unsupported("arithmetic on %s", gt)
	}
	if x.inType(t, gt, st) {
		return t
	}
	lo, hi, _ := intRange(gt)
	M := bigT(pow2(b))
	var r *T
	if t.num != nil {
		v := new(big.Int).Mod(t.num, pow2(b))
		if s && v.Cmp(hi) > 0 {
			v.Sub(v, pow2(b))
		}
		return bigT(v)
	}
	l, h := x.rangeOf(t, st)
	if l != nil && h != nil && new(big.Int).Add(l, pow2(b)).Cmp(lo) >= 0 && new(big.Int).Sub(h, pow2(b)).Cmp(hi) <= 0 {
		small = true
	}
	if small {
		r = t
		if h == nil || h.Cmp(hi) > 0 {
			r = ite(lt(bigT(hi), t), sub(t, M), r)
		}
		if l == nil || l.Cmp(lo) < 0 {
			r = ite(lt(t, bigT(lo)), add(t, M), r)
		}
	} else if s {
		half := bigT(pow2(b - 1))
		r = sub(mod(add(t, half), M), half)
	} else {
		r = mod(t, M)
	}
	x.rng[r] = [2]*big.Int{lo, hi}
	return r
}

// ------------------------------------------------------------ bit operations

// noFacts: a state in which only what holds on every path is known
func (x *Unit) noFacts() *State { return &State{heap: map[string]*T{}, alloc: num(0)} }

func (x *Unit) bitsOf(t *T, st *State) (tz, w int) {
	if t.num != nil {
		if t.num.Sign() == 0 {
			return 64, 0
		}
		return int(t.num.TrailingZeroBits()), t.num.BitLen()
	}
	tz, w = 0, 64
	if b, ok := x.bits[t]; ok {
		tz, w = b[0], b[1]
	}
	if lo, hi := x.rangeOf(t, st); lo != nil && hi != nil && lo.Sign() >= 0 {
		w = min(w, hi.BitLen())
	}
	switch t.op {
	case "*":
		if t.args[0].num != nil {
			a, b := x.bitsOf(t.args[1], st)
			k := int(t.args[0].num.TrailingZeroBits())
			tz = max(tz, a+k)
			if t.args[0].num.BitLen()-1 == k {
				w = min(w, b+k)
			}
		}
	case "mod":
		if k := pow2log(t.args[1]); k >= 0 {
			a, _ := x.bitsOf(t.args[0], st)
			tz = max(tz, a)
			w = min(w, k)
		}
	case "+":
		m := 64
		for _, a := range t.args {
			q, _ := x.bitsOf(a, st)
			m = min(m, q)
		}
		tz = max(tz, m)
	}
	return
}

func pow2log(t *T) int {
	if t.num == nil || t.num.Sign() <= 0 {
		return -1
	}
	k := int(t.num.TrailingZeroBits())
	if t.num.BitLen()-1 == k {
		return k
	}
	return -1
}

func (x *Unit) maskConst(a *T, c *big.Int, st *State) *T {
	_, w := x.bitsOf(a, st)
	r := num(0)
	n := c.BitLen()
	for i := 0; i < n && i < w; {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && c.Bit(j) == 1 {
			j++
		}
		p := a
		if i > 0 {
			p = div(p, bigT(pow2(i)))
		}
		if j < w {
			p = mod(p, bigT(pow2(j-i)))
		}
		r = add(r, mul(bigT(pow2(i)), p))
		i = j
	}
	return r
}

func (x *Unit) bitop(op token.Token, a, b *T, gt types.Type, st *State) *T {
	bits, signed, _ := intBits(gt)
	// constants as unsigned patterns
	if a.num != nil && b.num == nil && op != token.AND_NOT {
		a, b = b, a
	}
	if a.num != nil && b.num != nil {
		m := pow2(bits)
		u, v := new(big.Int).Mod(a.num, m), new(big.Int).Mod(b.num, m)
		var r *big.Int
		switch op {
		case token.AND:
			r = u.And(u, v)
		case token.OR:
			r = u.Or(u, v)
		case token.XOR:
			r = u.Xor(u, v)
		case token.AND_NOT:
			r = u.AndNot(u, v)
		}
		return x.wrap(bigT(r), gt, st, false)
	}
	if b.num != nil {
		c := new(big.Int).Mod(b.num, pow2(bits))
		if !signed || (b.num.Sign() >= 0 && op == token.AND) {
			an := x.maskConst(a, c, st)
			switch op {
			case token.AND:
				return an
			case token.OR:
				return sub(add(a, b), an)
			case token.XOR:
				return sub(add(a, b), mul(num(2), an))
			case token.AND_NOT:
				return sub(a, an)
			}
		}
	}
	if !signed {
		ta, wa := x.bitsOf(a, st)
		tb, wb := x.bitsOf(b, st)
		if wa <= tb || wb <= ta { // disjoint bits
			switch op {
			case token.OR, token.XOR:
				r := add(a, b)
				// remembered for every path, so only what holds without path facts
				e := x.noFacts()
				ta0, wa0 := x.bitsOf(a, e)
				tb0, wb0 := x.bitsOf(b, e)
				if wa0 <= tb0 || wb0 <= ta0 {
					x.bits[r] = [2]int{min(ta0, tb0), max(wa0, wb0)}
				}
				return r
			case token.AND:
				return num(0)
			case token.AND_NOT:
				return a
			}
		}
	}
	f := map[token.Token]string{token.AND: "bit_and", token.OR: "bit_or", token.XOR: "bit_xor", token.AND_NOT: "bit_andnot"}[op] + fmt.Sprint(bits)
	if signed {
		f += "s"
	}
	if op != token.AND_NOT && b.h < a.h {
		a, b = b, a
	}
	r := app("Int", f, a, b)
	lo, hi, _ := intRange(gt)
	x.rng[r] = [2]*big.Int{lo, hi}
	// type range of the result is an axiom of the operator at this type
	x.axioms = append(x.axioms, and(le(bigT(lo), r), le(r, bigT(hi))))
	if op == token.AND {
		x.axioms = append(x.axioms, implies(and(le(num(0), a), le(num(0), b)), and(le(num(0), r), le(r, a), le(r, b))))
	}
	return r
}

// ------------------------------------------------------------ values

func (x *Unit) val(fr *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return Val{t: x.constant(v)}
	case *ssa.Function:
		return Val{t: x.fnConst(v, nil), fn: v}
	case *ssa.Global:
		gt := v.Type().(*types.Pointer).Elem()
		k := "G:" + v.Pkg.Pkg.Name() + "." + v.Name()
		x.V.key(k, gt)
		return Val{addr: &Addr{key: k, gt: gt}}
	case *ssa.Builtin:
		return Val{}
	}
	r, ok := fr.vals[v]
	if !ok {
		unsupported("value %s (%T) in %s has no definition", v.Name(), v, shortFn(fr.fn))
	}
	return r
}

func (x *Unit) fnConst(f *ssa.Function, bind []Val) *T {
	n := "fn_" + mangle(shortFn(f))
	var as []*T
	for _, b := range bind {
		if b.t == nil {
			unsupported("closure over an address")
		}
		as = append(as, b.t)
	}
	t := app("Int", n, as...)
	x.axioms = append(x.axioms, lt(num(0), t))
	return t
}

func (x *Unit) constant(c *ssa.Const) *T {
	if c.Value == nil {
		return x.V.sorts.Zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return tTrue()
		}
		return tFalse()
	case constant.String:
		return x.strConst(constant.StringVal(c.Value))
	case constant.Int:
		if isFloat(c.Type()) {
			return x.floatConst(c.Value)
		}
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return bigT(n)
	case constant.Float:
		if isFloat(c.Type()) {
			return x.floatConst(c.Value)
		}
		if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
			n, _ := new(big.Int).SetString(v.ExactString(), 10)
			return bigT(n)
		}
	}
	unsupported("constant %s", c)
	return nil
}

func (x *Unit) floatConst(v constant.Value) *T {
	f, _ := constant.Float64Val(v)
	if f == 0 {
		return cst("flt0", "Flt")
	}
	return cst("flt_"+mangle(strings.ReplaceAll(strings.ReplaceAll(fmt.Sprint(f), "+", "p"), "-", "m")), "Flt")
}

// term of a value (addresses of whole heap objects become references)
func (x *Unit) term(v Val) *T {
	if v.t != nil {
		return v.t
	}
	if v.addr != nil {
		if len(v.addr.pr) == 0 && v.addr.ref != nil && (v.addr.key[0] == 'P' || v.addr.key[0] == 'M') {
			return v.addr.ref
		}
		unsupported("address of a field or element escapes (%s)", v.addr.key)
	}
	unsupported("tuple used as a value")
	return nil
}

func (x *Unit) get(fr *frame, v ssa.Value) *T { return x.term(x.val(fr, v)) }

// address denoted by a pointer value
func (x *Unit) addrOf(v Val, elem types.Type) *Addr {
	if v.addr != nil {
		return v.addr
	}
	switch u := elem.Underlying().(type) {
	case *types.Struct:
		if opaqueStruct(elem) == "" {
			return &Addr{key: "S", ref: v.t, gt: elem} // whole struct: fields live in F maps
		}
	case *types.Array:
		return &Addr{key: x.V.key(memKey(u.Elem()), u.Elem()), ref: v.t, gt: elem}
	}
	return &Addr{key: x.V.key(cellKey(elem), elem), ref: v.t, gt: elem}
}

func (x *Unit) loadAny(st *State, a *Addr) *T {
	if a.key == "S" {
		u := a.gt.Underlying().(*types.Struct)
		n := x.V.sorts.structSort(a.gt, u)
		var as []*T
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, x.load(st, x.fieldAddr(a, i)))
		}
		return mk(n, "mk_"+n, as...)
	}
	return x.load(st, a)
}

func (x *Unit) storeAny(st *State, a *Addr, v *T) *State {
	if a.key == "S" {
		u := a.gt.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			st = x.store(st, x.fieldAddr(a, i), x.V.sorts.Field(v, a.gt, i))
		}
		return st
	}
	return x.store(st, a, v)
}

func (x *Unit) fieldAddr(a *Addr, i int) *Addr {
	u := a.gt.Underlying().(*types.Struct)
	ft := u.Field(i).Type()
	if a.key == "S" {
		return &Addr{key: x.V.key(fieldKey(a.gt, i), ft), ref: a.ref, gt: ft}
	}
	return &Addr{key: a.key, ref: a.ref, gt: ft, pr: append(append([]Proj{}, a.pr...), Proj{st: a.gt, idx: i})}
}

func (x *Unit) indexAddr(a *Addr, ix *T, et types.Type) *Addr {
	return &Addr{key: a.key, ref: a.ref, gt: et, pr: append(append([]Proj{}, a.pr...), Proj{ix: ix, et: et})}
}

func (x *Unit) elemAddr(s *T, i *T, et types.Type) *Addr {
	return &Addr{key: x.V.key(memKey(et), et), ref: sBase(s), gt: et, pr: []Proj{{ix: ixT(sOff(s), i), et: et}}, sl: s, si: i}
}

// ------------------------------------------------------------ control flow

type LoopInfo struct {
	header map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	ord    map[*ssa.BasicBlock]int
}

func findLoops(f *ssa.Function) *LoopInfo {
	li := &LoopInfo{header: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, ord: map[*ssa.BasicBlock]int{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := li.header[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					li.header[s] = body
					li.ord[s] = len(li.ord)
				}
				var st []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					c := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range c.Preds {
						if !body[p] {
							body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	return li
}

func (x *Unit) newFrame(fn *ssa.Function, up *frame, ret func(*State, []Val)) *frame {
	li := x.loopsOf[fn]
	if li == nil {
		li = findLoops(fn)
		x.loopsOf[fn] = li
	}
	d := 0
	id := ""
	if up != nil {
		d = up.depth + 1
		id = up.id + "/" + fn.Name()
	} else {
		id = fn.Name()
	}
	if d > 24 {
		unsupported("inlining too deep at %s", shortFn(fn))
	}
	return &frame{fn: fn, vals: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, joins: map[*ssa.BasicBlock]*joinCtx{}, unr: map[*ssa.BasicBlock]int{}, ret: ret, depth: d, up: up, li: li, id: id}
}

func (x *Unit) enter(fr *frame, from, to *ssa.BasicBlock, st *State) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	// phis are evaluated simultaneously
	var phis []*ssa.Phi
	var vs []Val
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vs = append(vs, x.val(fr, p.Edges[pi]))
	}
	if jc := fr.joins[to]; jc != nil {
		x.enterJoin(fr, to, jc, phis, vs, st)
		return
	}
	if body, isH := fr.li.header[to]; isH && x.unrollOf(fr) > 0 {
		n := 0
		if body[from] {
			n = fr.unr[to]
		}
		if n > x.unrollOf(fr) {
			x.oblige(st, "loop ends within its bound", shortFn(fr.fn), x.pos(fr, to.Instrs[0].Pos()), tFalse())
			return
		}
		saved, vals := fr.unr[to], fr.vals
		fr.unr[to] = n + 1
		fr.vals = map[ssa.Value]Val{}
		for k, v := range vals {
			fr.vals[k] = v
		}
		for i, p := range phis {
			fr.vals[p] = vs[i]
		}
		x.block(fr, to, len(phis), st)
		fr.unr[to] = saved
		fr.vals = vals
		return
	}
	if body, isH := fr.li.header[to]; isH {
		if lc := fr.loops[to]; lc != nil && body[from] {
			x.backEdge(fr, to, lc, phis, vs, st)
			return
		}
		x.enterLoop(fr, to, body, phis, vs, st)
		return
	}
	for i, p := range phis {
		fr.vals[p] = vs[i]
	}
	x.block(fr, to, len(phis), st)
}

// unrollOf: flag unroll=N executes the loops of the function itself up to N times;
// running longer is an obligation, so nothing is cut off.
func (x *Unit) unrollOf(fr *frame) int {
	if fr.up != nil || x.ct == nil || x.ct.flags["unroll"] == "" {
		return 0
	}
	n := 0
	fmt.Sscan(x.ct.flags["unroll"], &n)
	return n
}

func (x *Unit) block(fr *frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Jump:
			x.enter(fr, b, b.Succs[0], st)
			return
		case *ssa.If:
			c := x.get(fr, in.Cond)
			restore := x.openJoin(fr, b, st)
			x.branch(fr, c, st,
				func(s *State) { x.enter(fr, b, b.Succs[0], s) },
				func(s *State) { x.enter(fr, b, b.Succs[1], s) })
			if restore != nil {
				restore()
			}
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, x.val(fr, r))
			}
			fr.ret(st, rs)
			return
		case *ssa.Panic:
			x.panics(fr, st, "panic", in.Pos())
			return
		case *ssa.Call:
			bb, ii := b, i
			saved, savedJ := fr.loops, fr.joins
			x.call(fr, in, st, func(s *State, res Val) {
				fr.loops, fr.joins = saved, savedJ
				fr.vals[in] = res
				x.block(fr, bb, ii+1, s)
			})
			return
		default:
			var ok bool
			st, ok = x.step(fr, b.Instrs[i], st)
			if !ok {
				return
			}
		}
	}
}

func (x *Unit) branch(fr *frame, c *T, st *State, a, b func(*State)) {
	if isTrue(c) || st.knows(c) {
		a(st.assume(c))
		return
	}
	if isFalse(c) || st.knows(not(c)) {
		b(st.assume(not(c)))
		return
	}
	x.paths++
	if x.paths > 30000 {
		unsupported("too many paths")
	}
	a(st.assume(c))
	b(st.assume(not(c)))
}

// panics: this point must not be reached unless the contract allows it.
func (x *Unit) panics(fr *frame, st *State, what string, p token.Pos) {
	g := tFalse()
	if x.ct != nil {
		for _, c := range x.ct.cl {
			if c.kind == "may_panic" {
				g = or(g, x.evb(c.ex, x.env0))
			}
		}
	}
	x.oblige(st, "no "+what, shortFn(fr.fn), x.pos(fr, p), g)
}

// safe: run-time check
func (x *Unit) safe(fr *frame, st *State, what string, p token.Pos, g *T) *State {
	return x.oblige(st, what, shortFn(fr.fn), x.pos(fr, p), g)
}

func (x *Unit) bindVal(fr *frame, v ssa.Value, t *T, st *State) *State {
	if t.size > 80 && len(t.args) > 0 {
		c := x.fresh("v", t.sort)
		if lo, hi := x.rangeOf(t, st); lo != nil && hi != nil {
			x.rng[c] = [2]*big.Int{lo, hi}
		}
		if b, ok := x.bits[t]; ok {
			x.bits[c] = b
		}
		st = st.assume(mk("Bool", "=", c, t))
		t = c
	}
	x.noteType(t, v.Type())
	fr.vals[v] = Val{t: t}
	return st
}

func (x *Unit) nonNil(fr *frame, st *State, v Val, p token.Pos) *State {
	if v.addr != nil {
		return st
	}
	if l, _ := x.static(v.t); l != nil && l.Sign() > 0 {
		return st
	}
	if x.isFreshRef(v.t) {
		return st
	}
	return x.safe(fr, st, "nil dereference", p, not(eq(v.t, num(0))))
}

func (x *Unit) isFreshRef(t *T) bool {
	if t.op == "+" || strings.HasPrefix(t.op, "alloc") {
		d := t
		if t.op == "+" {
			d = t.args[0]
			for _, a := range t.args {
				if strings.HasPrefix(a.op, "alloc") {
					d = a
				}
			}
		}
		return strings.HasPrefix(d.op, "alloc")
	}
	return false
}

func (x *Unit) step(fr *frame, in ssa.Instruction, st *State) (*State, bool) {
	V := x.V
	switch in := in.(type) {
	case *ssa.DebugRef:
		return st, true
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		r, ns := x.newRef(st)
		st = ns
		a := x.addrOf(Val{t: r}, et)
		if at, ok := et.Underlying().(*types.Array); ok {
			st = x.heapSet(st, a.key, sto(x.heapGet(st, a.key), r, constArr("(Array Int "+V.sorts.Sort(at.Elem())+")", V.sorts.Zero(at.Elem()))))
		} else {
			before := st
			x.noMark = true
			st = x.storeAny(st, a, V.sorts.Zero(et))
			x.noMark = false
			st = x.mark(before, st, &Addr{ref: r})
		}
		fr.vals[in] = Val{t: r}
		return st, true
	case *ssa.Store:
		a := x.val(fr, in.Addr)
		et := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		st = x.nonNil(fr, st, a, in.Pos())
		vv := x.val(fr, in.Val)
		return x.storeAny(st, x.addrOf(a, et), x.term(vv)), true
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			a := x.val(fr, in.X)
			st = x.nonNil(fr, st, a, in.Pos())
			if a.raw != nil { // unsafe view
				t, s := x.rawLoad(fr, st, a, in)
				return x.bindVal(fr, in, t, s), true
			}
			ad := x.addrOf(a, in.Type())
			t := x.loadAny(st, ad)
			if ad.sl != nil && x.V.sorts.Sort(ad.gt) == "Int" && x.usesSeq() {
				blk := sel(x.heapGet(st, ad.key), ad.ref)
				f := eq(app("Int", "qat", app("QSeq", "sq", blk, sOff(ad.sl), sLen(ad.sl)), ad.si), t)
				if !st.knows(f) {
					st = st.assume(f)
				}
			}
			if t.num == nil && t.op != "iface" && t.op != "mkslice" {
				f := V.sorts.TypeFacts(t, in.Type(), st.alloc)
				if _, isS := in.Type().Underlying().(*types.Struct); !isS && !st.knows(f) {
					st = st.assume(f)
				}
			}
			return x.bindVal(fr, in, t, st), true
		case token.NOT:
			return x.bindVal(fr, in, not(x.get(fr, in.X)), st), true
		case token.SUB:
			if isFloat(in.Type()) {
				return x.bindVal(fr, in, app("Flt", "fneg", x.get(fr, in.X)), st), true
			}
			return x.bindVal(fr, in, x.wrap(sub(num(0), x.get(fr, in.X)), in.Type(), st, true), st), true
		case token.XOR: // bitwise complement
			b, s, _ := intBits(in.Type())
			v := x.get(fr, in.X)
			if s {
				return x.bindVal(fr, in, sub(num(-1), v), st), true
			}
			return x.bindVal(fr, in, sub(bigT(new(big.Int).Sub(pow2(b), big.NewInt(1))), v), st), true
		}
		unsupported("unary %s", in.Op)
	case *ssa.BinOp:
		t, s := x.binop(fr, in, st)
		return x.bindVal(fr, in, t, s), true
	case *ssa.FieldAddr:
		a := x.val(fr, in.X)
		et := in.X.Type().Underlying().(*types.Pointer).Elem()
		st = x.nonNil(fr, st, a, in.Pos())
		if a.t != nil {
			tf := app("Bool", "touched", a.t)
			if !st.knows(tf) {
				st = st.assume(tf)
			}
		}
		fr.vals[in] = Val{addr: x.fieldAddr(x.addrOf(a, et), in.Field)}
		return st, true
	case *ssa.Field:
		v := x.get(fr, in.X)
		return x.bindVal(fr, in, V.sorts.Field(v, in.X.Type(), in.Field), st), true
	case *ssa.IndexAddr:
		i := x.get(fr, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.get(fr, in.X)
			st = x.safe(fr, st, "index in range", in.Pos(), and(le(num(0), i), lt(i, sLen(s))))
			fr.vals[in] = Val{addr: x.elemAddr(s, i, u.Elem())}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			a := x.val(fr, in.X)
			st = x.nonNil(fr, st, a, in.Pos())
			st = x.safe(fr, st, "index in range", in.Pos(), and(le(num(0), i), lt(i, num(at.Len()))))
			fr.vals[in] = Val{addr: x.indexAddr(x.addrOf(a, u.Elem()), i, at.Elem())}
		}
		return st, true
	case *ssa.Index:
		i := x.get(fr, in.Index)
		v := x.get(fr, in.X)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			st = x.safe(fr, st, "index in range", in.Pos(), and(le(num(0), i), lt(i, num(u.Len()))))
			return x.bindVal(fr, in, sel(v, i), st), true
		case *types.Basic:
			st = x.safe(fr, st, "index in range", in.Pos(), and(le(num(0), i), lt(i, app("Int", "qlen", v))))
			return x.bindVal(fr, in, app("Int", "qat", v, i), st), true
		}
	case *ssa.Lookup:
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			i, v := x.get(fr, in.Index), x.get(fr, in.X)
			st = x.safe(fr, st, "index in range", in.Pos(), and(le(num(0), i), lt(i, app("Int", "qlen", v))))
			return x.bindVal(fr, in, app("Int", "qat", v, i), st), true
		}
	case *ssa.Slice:
		return x.slice(fr, in, st), true
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		n, c := x.get(fr, in.Len), x.get(fr, in.Cap)
		sz := max(1, types.SizesFor("gc", "amd64").Sizeof(et))
		st = x.safe(fr, st, "make size", in.Pos(), and(le(num(0), n), le(n, c), le(mul(num(sz), c), num(1<<48))))
		// what does not exhaust the address space is taken to succeed
		st = st.assume(le(mul(num(sz), c), num(maxLen)))
		r, ns := x.newRef(st)
		k := V.key(memKey(et), et)
		st = x.heapSet(ns, k, sto(x.heapGet(ns, k), r, constArr("(Array Int "+V.sorts.Sort(et)+")", V.sorts.Zero(et))))
		fr.vals[in] = Val{t: mkSlice(r, num(0), n, c)}
		return st, true
	case *ssa.MakeInterface:
		v := x.val(fr, in.X)
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return x.bindVal(fr, in, x.makeIface(x.term(v), in.X.Type()), st), true
		}
		if v.addr != nil && len(v.addr.pr) > 0 || v.addr != nil && v.addr.ref == nil {
			// address handed to a library (binary.Read target): keep the address
			fr.vals[in] = Val{t: mkIface(V.sorts.Tag(in.X.Type()), num(-1)), addr: v.addr}
			return st, true
		}
		nv := Val{t: x.makeIface(x.term(v), in.X.Type())}
		fr.vals[in] = nv
		return st, true
	case *ssa.ChangeInterface:
		fr.vals[in] = x.val(fr, in.X)
		return st, true
	case *ssa.ChangeType:
		v := x.val(fr, in.X)
		if v.t != nil {
			a, b := V.sorts.Sort(in.X.Type()), V.sorts.Sort(in.Type())
			if a != b {
				unsupported("change of type %s to %s", in.X.Type(), in.Type())
			}
		}
		fr.vals[in] = v
		return st, true
	case *ssa.Convert:
		return x.convert(fr, in, st), true
	case *ssa.Extract:
		tv := x.val(fr, in.Tuple)
		fr.vals[in] = tv.tuple[in.Index]
		return st, true
	case *ssa.TypeAssert:
		return x.typeAssert(fr, in, st)
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bind []Val
		for _, b := range in.Bindings {
			bind = append(bind, x.val(fr, b))
		}
		t := x.fnConst(fn, bind)
		fr.vals[in] = Val{t: t, fn: fn, bind: bind}
		return st, true
	case *ssa.Phi:
		unsupported("phi out of place")
	}
	unsupported("instruction %T in %s", in, shortFn(fr.fn))
	return st, false
}

func (x *Unit) binop(fr *frame, in *ssa.BinOp, st *State) (*T, *State) {
	a, b := x.get(fr, in.X), x.get(fr, in.Y)
	gt := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		var r *T
		switch a.sort {
		case "Slice": // only comparison with nil exists
			s := a
			if c, ok := in.X.(*ssa.Const); ok && c.Value == nil {
				s = b
			}
			r = eq(sBase(s), num(0))
		case "Flt":
			r = app("Bool", "feq", a, b)
		case "Iface":
			if b.sort != "Iface" {
				b = x.makeIface(b, in.Y.Type())
			}
			if iTag(b).num != nil && iTag(b).num.Sign() == 0 {
				r = eq(iTag(a), num(0))
			} else if iTag(a).num != nil && iTag(a).num.Sign() == 0 {
				r = eq(iTag(b), num(0))
			} else {
				r = eq(a, b)
			}
		default:
			if b.sort == "Iface" {
				a = x.makeIface(a, in.X.Type())
			}
			r = eq(a, b)
		}
		if in.Op == token.NEQ {
			r = not(r)
		}
		return r, st
	}
	if isFloat(gt) {
		switch in.Op {
		case token.LSS:
			return app("Bool", "flt", a, b), st
		case token.GTR:
			return app("Bool", "flt", b, a), st
		case token.LEQ:
			return app("Bool", "fle", a, b), st
		case token.GEQ:
			return app("Bool", "fle", b, a), st
		case token.ADD:
			return app("Flt", "fadd", a, b), st
		case token.SUB:
			return app("Flt", "fsub", a, b), st
		case token.MUL:
			return app("Flt", "fmul", a, b), st
		case token.QUO:
			return app("Flt", "fdiv", a, b), st
		}
	}
	if a.sort == "QSeq" {
		switch in.Op {
		case token.ADD:
			return app("QSeq", "qapp", a, b), st
		case token.LSS:
			return app("Bool", "qlt", a, b), st
		case token.GTR:
			return app("Bool", "qlt", b, a), st
		case token.LEQ:
			return not(app("Bool", "qlt", b, a)), st
		case token.GEQ:
			return not(app("Bool", "qlt", a, b)), st
		}
	}
	if a.sort != "Int" {
		unsupported("operator %s on %s", in.Op, gt)
	}
	switch in.Op {
	case token.LSS:
		return lt(a, b), st
	case token.GTR:
		return lt(b, a), st
	case token.LEQ:
		return le(a, b), st
	case token.GEQ:
		return le(b, a), st
	case token.ADD:
		return x.wrap(add(a, b), gt, st, true), st
	case token.SUB:
		return x.wrap(sub(a, b), gt, st, true), st
	case token.MUL:
		return x.wrap(mul(a, b), gt, st, false), st
	case token.QUO, token.REM:
		if b.num == nil || b.num.Sign() == 0 {
			st = x.safe(fr, st, "division by zero", in.Pos(), not(eq(b, num(0))))
		}
		la, _ := x.rangeOf(a, st)
		lb, _ := x.rangeOf(b, st)
		nonneg := la != nil && la.Sign() >= 0 && lb != nil && lb.Sign() >= 0
		if in.Op == token.QUO {
			if nonneg {
				return div(a, b), st
			}
			return x.wrap(app("Int", "tdiv", a, b), gt, st, true), st
		}
		if nonneg {
			r := mod(a, b)
			x.noteType(r, gt)
			return r, st
		}
		r := app("Int", "trem", a, b)
		x.noteType(r, gt)
		return r, st
	case token.SHL:
		if b.num != nil {
			k := int(b.num.Int64())
			bits, _, _ := intBits(gt)
			if k >= bits {
				return num(0), st
			}
			r := x.wrap(mul(bigT(pow2(k)), a), gt, st, false)
			if _, s, _ := intBits(gt); !s {
				e := x.noFacts()
				tz, _ := x.bitsOf(a, e)
				_, w := x.bitsOf(r, e)
				x.bits[r] = [2]int{tz + k, w}
			}
			return r, st
		}
		if _, s, _ := intBits(in.Y.Type()); s {
			st = x.safe(fr, st, "negative shift", in.Pos(), le(num(0), b))
		}
		return x.wrap(mul(a, app("Int", "pow2", b)), gt, st, false), st
	case token.SHR:
		if b.num != nil {
			k := int(b.num.Int64())
			if k > 200 {
				k = 200
			}
			r := div(a, bigT(pow2(k)))
			return r, st
		}
		if _, s, _ := intBits(in.Y.Type()); s {
			st = x.safe(fr, st, "negative shift", in.Pos(), le(num(0), b))
		}
		r := div(a, app("Int", "pow2", b))
		x.noteType(r, gt)
		return r, st
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return x.bitop(in.Op, a, b, gt, st), st
	}
	unsupported("operator %s", in.Op)
	return nil, st
}

func (x *Unit) slice(fr *frame, in *ssa.Slice, st *State) *State {
	opt := func(v ssa.Value, d *T) *T {
		if v == nil {
			return d
		}
		return x.get(fr, v)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.get(fr, in.X)
		lo, hi := opt(in.Low, num(0)), opt(in.High, sLen(s))
		mx := opt(in.Max, sCap(s))
		if in.Low == nil && in.High != nil && hi == sLen(s) {
			fr.vals[in] = Val{t: s}
			return st
		}
		g := and(le(num(0), lo), le(lo, hi), le(hi, mx))
		if in.Max != nil {
			g = and(g, le(mx, sCap(s)))
		} else if hi == sLen(s) {
			g = and(le(num(0), lo), le(lo, hi))
		}
		st = x.safe(fr, st, "slice bounds", in.Pos(), g)
		r := mkSlice(sBase(s), add(sOff(s), lo), sub(hi, lo), sub(mx, lo))
		fr.vals[in] = Val{t: r}
		return st
	case *types.Basic:
		s := x.get(fr, in.X)
		n := app("Int", "qlen", s)
		lo, hi := opt(in.Low, num(0)), opt(in.High, n)
		st = x.safe(fr, st, "slice bounds", in.Pos(), and(le(num(0), lo), le(lo, hi), le(hi, n)))
		fr.vals[in] = Val{t: app("QSeq", "qsub", s, lo, sub(hi, lo))}
		return st
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a := x.val(fr, in.X)
		st = x.nonNil(fr, st, a, in.Pos())
		if a.t == nil {
			unsupported("slice of an embedded array")
		}
		n := num(at.Len())
		lo, hi := opt(in.Low, num(0)), opt(in.High, n)
		st = x.safe(fr, st, "slice bounds", in.Pos(), and(le(num(0), lo), le(lo, hi), le(hi, n)))
		fr.vals[in] = Val{t: mkSlice(a.t, lo, sub(hi, lo), sub(n, lo))}
		return st
	}
	unsupported("slice of %s", in.X.Type())
	return st
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && canonElem(s.Elem()) == "byte"
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Unit) convert(fr *frame, in *ssa.Convert, st *State) *State {
	V := x.V
	from, to := in.X.Type(), in.Type()
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		v := x.val(fr, in.X)
		v.raw = from
		fr.vals[in] = v
		return st
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		v := x.val(fr, in.X)
		v.raw = to
		fr.vals[in] = v
		return st
	}
	v := x.get(fr, in.X)
	switch {
	case isByteSlice(from) && isString(to):
		bt := from.Underlying().(*types.Slice).Elem()
		blk := sel(x.heapGet(st, V.key(memKey(bt), bt)), sBase(v))
		t := app("QSeq", "sq", blk, sOff(v), sLen(v))
		fr.vals[in] = Val{t: t}
		return st
	case isString(from) && isByteSlice(to):
		bt := to.Underlying().(*types.Slice).Elem()
		r, ns := x.newRef(st)
		k := V.key(memKey(bt), bt)
		blk := x.fresh("blk", "(Array Int Int)")
		n := app("Int", "qlen", v)
		st = x.heapSet(ns, k, sto(x.heapGet(ns, k), r, blk))
		c := x.fresh("cap", "Int")
		st = st.assume(eq(app("QSeq", "sq", blk, num(0), n), v), le(n, c), le(c, num(maxLen)), le(num(0), n), x.byteBlk(blk))
		fr.vals[in] = Val{t: mkSlice(r, num(0), n, c)}
		return st
	}
	_, _, fi := intBits(from)
	_, _, ti := intBits(to)
	switch {
	case fi && ti:
		return x.bindVal(fr, in, x.wrap(v, to, st, false), st)
	case fi && isFloat(to):
		return x.bindVal(fr, in, app("Flt", "itof", v), st)
	case isFloat(from) && isFloat(to):
		return x.bindVal(fr, in, app("Flt", "ftof_"+typeName(to.Underlying()), v), st)
	case isFloat(from) && ti:
		r := app("Int", "ftoi_"+typeName(to.Underlying()), v)
		st = st.assume(V.sorts.TypeFacts(r, to, st.alloc))
		return x.bindVal(fr, in, r, st)
	}
	if V.sorts.Sort(from) == V.sorts.Sort(to) && v.sort != "Int" {
		fr.vals[in] = Val{t: v}
		return st
	}
	unsupported("conversion %s to %s", from, to)
	return st
}

func (x *Unit) byteBlk(blk *T) *T {
	x.qn++
	n := fmt.Sprintf("i!%d", x.qn)
	s := sel(blk, cst(n, "Int"))
	return quant("forall", []BVar{{n, "Int"}}, [][]*T{{s}}, and(le(num(0), s), le(s, num(255))))
}

// load through an unsafe pointer to a wider integer: little endian bytes of the block
func (x *Unit) rawLoad(fr *frame, st *State, a Val, in *ssa.UnOp) (*T, *State) {
	b, s, ok := intBits(in.Type())
	if !ok || s || a.addr == nil || len(a.addr.pr) != 1 || a.addr.pr[0].ix == nil || canonElem(a.addr.gt) != "byte" {
		unsupported("unsafe access")
	}
	blk := sel(x.heapGet(st, a.addr.key), a.addr.ref)
	ix := a.addr.pr[0].ix
	// the caller's slice bounds only covered the first byte: demand the rest
	base := a.raw2
	if base == nil {
		unsupported("unsafe access to unknown block")
	}
	st = x.safe(fr, st, "unsafe read in range", in.Pos(), le(add(unix(ix), num(int64(b/8))), add(sOff(base), sLen(base))))
	r := num(0)
	for i := 0; i < b/8; i++ {
		e := sel(blk, ixAdd(ix, num(int64(i))))
		x.noteType(e, types.Typ[types.Uint8])
		r = add(r, mul(bigT(pow2(8*i)), e))
	}
	x.noteType(r, in.Type())
	return r, st
}

func (x *Unit) typeAssert(fr *frame, in *ssa.TypeAssert, st *State) (*State, bool) {
	V := x.V
	v := x.get(fr, in.X)
	var ok, res *T
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if it.NumMethods() == 0 {
			ok = not(eq(iTag(v), num(0)))
		} else {
			nt, named := in.AssertedType.(*types.Named)
			if !named {
				unsupported("assertion to unnamed interface")
			}
			if tt := x.tagType(iTag(v)); tt != nil {
				if types.Implements(tt, it) {
					ok = tTrue()
				} else {
					ok = tFalse()
				}
			} else if types.AssignableTo(in.X.Type(), in.AssertedType) {
				ok = not(eq(iTag(v), num(0)))
			} else {
				ok = and(not(eq(iTag(v), num(0))), app("Bool", "implementsT", iTag(v), V.sorts.Tag(nt)))
			}
		}
		res = v
	} else {
		ok = eq(iTag(v), V.sorts.Tag(in.AssertedType))
		if tt := x.tagType(iTag(v)); tt != nil && !types.Identical(tt, in.AssertedType) {
			ok = tFalse()
		}
		if iTag(v).num != nil {
			ok = tFalse()
		}
		res = x.unbox(iVal(v), in.AssertedType)
	}
	if !in.CommaOk {
		st = x.safe(fr, st, "type assertion", in.Pos(), ok)
		if _, isI := in.AssertedType.Underlying().(*types.Interface); !isI {
			st = st.assume(V.sorts.TypeFacts(res, in.AssertedType, st.alloc))
		}
		return x.bindVal(fr, in, res, st), true
	}
	z := V.sorts.Zero(in.AssertedType)
	r := ite(ok, res, z)
	if _, isI := in.AssertedType.Underlying().(*types.Interface); !isI {
		st = st.assume(implies(ok, V.sorts.TypeFacts(res, in.AssertedType, st.alloc)))
	}
	fr.vals[in] = Val{tuple: []Val{{t: r}, {t: ok}}}
	return st, true
}

// tagType: the Go type named by a literal tag constant
// tagIn: the type a tag stands for, as far as the facts of the state say it outright
func (x *Unit) tagIn(st *State, t *T) types.Type {
	if gt := x.tagType(t); gt != nil {
		return gt
	}
	for f := st.facts; f != nil; f = f.parent {
		if f.fact != nil && f.cand == nil && f.fact.op == "=" {
			a, b := f.fact.args[0], f.fact.args[1]
			if b == t {
				a, b = b, a
			}
			if a == t {
				if gt := x.tagType(b); gt != nil {
					return gt
				}
			}
		}
	}
	return nil
}

func (x *Unit) tagType(t *T) types.Type {
	if len(t.args) == 0 {
		if gt, ok := x.V.sorts.tags[t.op]; ok {
			return gt
		}
	}
	return nil
}
