package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// T is a hash-consed SMT term.
type T struct {
	op   string
	args []*T
	id   int
	h    uint64 // structural: orders terms the same way in every run
	sort string
	num  *big.Int // integer literal
	vars []BVar   // quantifier
	pats [][]*T
	str  string // cached printing
	size int
}

type BVar struct{ name, sort string }

var (
	termTab = map[string]*T{}
	termCnt int
)

func resetTerms() { termTab = map[string]*T{}; termCnt = 0; storeDef = map[*T]*T{} }

func structHash(s string, args []*T) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	for _, a := range args {
		binary.Write(h, binary.LittleEndian, a.h)
	}
	return h.Sum64()
}

func mk(sort, op string, args ...*T) *T {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sort)
	sz := 1
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.id))
		sz += a.size
		if sz > 1<<30 {
			sz = 1 << 30
		}
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	t := &T{op: op, args: args, id: termCnt, h: structHash(op+"|"+sort, args), sort: sort, size: sz}
	termTab[k] = t
	return t
}

func (t *T) String() string {
	if t.str != "" {
		return t.str
	}
	var sb strings.Builder
	t.write(&sb)
	s := sb.String()
	t.str = s
	return s
}

func (t *T) write(sb *strings.Builder) {
	if t.str != "" {
		sb.WriteString(t.str)
		return
	}
	if t.num != nil {
		if t.num.Sign() < 0 {
			sb.WriteString("(- " + new(big.Int).Neg(t.num).String() + ")")
		} else {
			sb.WriteString(t.num.String())
		}
		return
	}
	if t.op == "forall" || t.op == "exists" {
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.vars {
			sb.WriteString("(" + v.name + " " + v.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		t.args[0].write(sb)
		for _, p := range t.pats {
			sb.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				x.write(sb)
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		sb.WriteString(t.op)
		return
	}
	sb.WriteByte('(')
	sb.WriteString(t.op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.write(sb)
	}
	sb.WriteByte(')')
}

var (
	tTrue  = func() *T { return mk("Bool", "true") }
	tFalse = func() *T { return mk("Bool", "false") }
)

func isTrue(t *T) bool  { return t.op == "true" && len(t.args) == 0 }
func isFalse(t *T) bool { return t.op == "false" && len(t.args) == 0 }

func num(n int64) *T { return bigT(big.NewInt(n)) }
func bigT(n *big.Int) *T {
	s := n.String()
	k := "#" + s
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	t := &T{op: s, id: termCnt, h: structHash(s, nil), sort: "Int", num: new(big.Int).Set(n), size: 1}
	termTab[k] = t
	return t
}
func cst(name, sort string) *T { return mk(sort, name) }

func not(a *T) *T {
	switch {
	case isTrue(a):
		return tFalse()
	case isFalse(a):
		return tTrue()
	case a.op == "not":
		return a.args[0]
	case a.op == "<" && a.sort == "Bool":
		return le(a.args[1], a.args[0])
	case a.op == "<=" && a.sort == "Bool":
		return lt(a.args[1], a.args[0])
	}
	return mk("Bool", "not", a)
}

func and(as ...*T) *T {
	var out []*T
	seen := map[int]bool{}
	var add func(as []*T) bool
	add = func(as []*T) bool {
		for _, a := range as {
			if isFalse(a) {
				return false
			}
			if isTrue(a) || seen[a.id] {
				continue
			}
			if a.op == "and" {
				if !add(a.args) {
					return false
				}
				continue
			}
			seen[a.id] = true
			out = append(out, a)
		}
		return true
	}
	if !add(as) {
		return tFalse()
	}
	if len(out) == 0 {
		return tTrue()
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("Bool", "and", out...)
}

func or(as ...*T) *T {
	var out []*T
	seen := map[int]bool{}
	for _, a := range as {
		if isTrue(a) {
			return a
		}
		if isFalse(a) || seen[a.id] {
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	if len(out) == 0 {
		return tFalse()
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("Bool", "or", out...)
}

func implies(a, b *T) *T {
	if isTrue(a) {
		return b
	}
	if isFalse(a) || isTrue(b) {
		return tTrue()
	}
	if isFalse(b) {
		return not(a)
	}
	return mk("Bool", "=>", a, b)
}

func eq(a, b *T) *T {
	if a == b {
		return tTrue()
	}
	if a.num != nil && b.num != nil {
		return tFalse() // hash-consed literals differ
	}
	if isTrue(a) {
		return b
	}
	if isTrue(b) {
		return a
	}
	if isFalse(a) {
		return not(b)
	}
	if isFalse(b) {
		return not(a)
	}
	if a.op == "iface" && b.op == "iface" && len(a.args) == 2 && len(b.args) == 2 {
		return and(eq(a.args[0], b.args[0]), eq(a.args[1], b.args[1]))
	}
	if b.h < a.h {
		a, b = b, a
	}
	return mk("Bool", "=", a, b)
}

func ite(c, a, b *T) *T {
	if isTrue(c) || a == b {
		return a
	}
	if isFalse(c) {
		return b
	}
	if isTrue(a) && isFalse(b) {
		return c
	}
	if isFalse(a) && isTrue(b) {
		return not(c)
	}
	return mk(a.sort, "ite", c, a, b)
}

func lt(a, b *T) *T {
	if a.num != nil && b.num != nil {
		if a.num.Cmp(b.num) < 0 {
			return tTrue()
		}
		return tFalse()
	}
	if a == b {
		return tFalse()
	}
	return mk("Bool", "<", a, b)
}
func le(a, b *T) *T {
	if a.num != nil && b.num != nil {
		if a.num.Cmp(b.num) <= 0 {
			return tTrue()
		}
		return tFalse()
	}
	if a == b {
		return tTrue()
	}
	return mk("Bool", "<=", a, b)
}

// linear normal form for + and -: coefficients on atoms plus constant.
func lin(t *T, k *big.Int, m map[*T]*big.Int, c *big.Int) {
	if t.num != nil {
		c.Add(c, new(big.Int).Mul(k, t.num))
		return
	}
	switch t.op {
	case "+":
		for _, a := range t.args {
			lin(a, k, m, c)
		}
		return
	case "-":
		if len(t.args) == 1 {
			lin(t.args[0], new(big.Int).Neg(k), m, c)
			return
		}
		lin(t.args[0], k, m, c)
		for _, a := range t.args[1:] {
			lin(a, new(big.Int).Neg(k), m, c)
		}
		return
	case "*":
		if len(t.args) == 2 && t.args[0].num != nil {
			lin(t.args[1], new(big.Int).Mul(k, t.args[0].num), m, c)
			return
		}
		if len(t.args) == 2 && t.args[1].num != nil {
			lin(t.args[0], new(big.Int).Mul(k, t.args[1].num), m, c)
			return
		}
	}
	if v, ok := m[t]; ok {
		v.Add(v, k)
	} else {
		m[t] = new(big.Int).Set(k)
	}
}

func unlin(m map[*T]*big.Int, c *big.Int) *T {
	var keys []*T
	for t, k := range m {
		if k.Sign() != 0 {
			keys = append(keys, t)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].h < keys[j].h })
	var parts []*T
	for _, t := range keys {
		k := m[t]
		if k.IsInt64() && k.Int64() == 1 {
			parts = append(parts, t)
		} else {
			parts = append(parts, mk("Int", "*", bigT(k), t))
		}
	}
	if c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, bigT(c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("Int", "+", parts...)
}

func add(a, b *T) *T {
	if a.sort == "Real" {
		return mk("Real", "+", a, b)
	}
	m := map[*T]*big.Int{}
	c := new(big.Int)
	lin(a, big.NewInt(1), m, c)
	lin(b, big.NewInt(1), m, c)
	return unlin(m, c)
}
func sub(a, b *T) *T {
	if a.sort == "Real" {
		return mk("Real", "-", a, b)
	}
	m := map[*T]*big.Int{}
	c := new(big.Int)
	lin(a, big.NewInt(1), m, c)
	lin(b, big.NewInt(-1), m, c)
	return unlin(m, c)
}
func mul(a, b *T) *T {
	if a.num != nil || b.num != nil {
		if a.num == nil {
			a, b = b, a
		}
		m := map[*T]*big.Int{}
		c := new(big.Int)
		lin(b, a.num, m, c)
		return unlin(m, c)
	}
	if b.h < a.h {
		a, b = b, a
	}
	return mk("Int", "*", a, b)
}
func div(a, b *T) *T { // Euclidean
	if a.num != nil && b.num != nil && b.num.Sign() > 0 {
		return bigT(new(big.Int).Div(a.num, b.num))
	}
	if b.num != nil && b.num.IsInt64() && b.num.Int64() == 1 {
		return a
	}
	// division by a power of 256 is written as repeated division by 256
	if b.num != nil && b.num.Sign() > 0 && b.num.BitLen() > 9 && b.num.BitLen()%8 == 1 && b.num.TrailingZeroBits() == uint(b.num.BitLen()-1) {
		for n := (b.num.BitLen() - 1) / 8; n > 0; n-- {
			a = div(a, num(256))
		}
		return a
	}
	return mk("Int", "div", a, b)
}
func mod(a, b *T) *T {
	if a.num != nil && b.num != nil && b.num.Sign() > 0 {
		return bigT(new(big.Int).Mod(a.num, b.num))
	}
	return mk("Int", "mod", a, b)
}

func elemSort(arr string) string {
	// (Array Int X)
	if !strings.HasPrefix(arr, "(Array Int ") {
		panic("not an array sort: " + arr)
	}
	return arr[len("(Array Int ") : len(arr)-1]
}

// storeDef maps a named array constant to the store term that defines it.
var storeDef = map[*T]*T{}

// distinctT reports whether two integer terms differ by a non-zero constant.
// ixT is the address off+i of element i of a slice that starts at off. It is kept
// as an application of ix (defined as the sum) so that quantifier patterns see it.
func ixT(o, i *T) *T {
	if o.num != nil && o.num.Sign() == 0 {
		return i
	}
	m := map[*T]*big.Int{}
	c := new(big.Int)
	lin(o, big.NewInt(1), m, c)
	var at *T
	n := 0
	for t, k := range m {
		if k.Cmp(big.NewInt(1)) == 0 && (t.op == "soff" || len(t.args) == 0) {
			at = t
			n++
		}
	}
	if n != 1 {
		if o.num != nil {
			return add(o, i)
		}
		return mk("Int", "ix", o, i)
	}
	return mk("Int", "ix", at, add(sub(o, at), i))
}

// unix writes ix applications as sums
func unix(t *T) *T {
	if t.op == "ix" {
		return add(unix(t.args[0]), unix(t.args[1]))
	}
	return t
}

func distinctT(a, b *T) bool {
	d := sub(unix(a), unix(b))
	return d.num != nil && d.num.Sign() != 0
}

func sameT(a, b *T) bool {
	if a.op != "ix" && b.op != "ix" {
		return false
	}
	d := sub(unix(a), unix(b))
	return d.num != nil && d.num.Sign() == 0
}

func sel(a, i *T) *T {
	if d, ok := storeDef[a]; ok {
		if d.args[1] == i || sameT(d.args[1], i) {
			return d.args[2]
		}
		if distinctT(d.args[1], i) {
			return sel(d.args[0], i)
		}
	}
	if a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if a.args[1].num != nil && i.num != nil || distinctT(a.args[1], i) && (a.args[1].op == "ix" || i.op == "ix") {
			return sel(a.args[0], i)
		}
	}
	if strings.HasPrefix(a.op, "(as const") {
		return a.args[0]
	}
	return mk(elemSort(a.sort), "select", a, i)
}
func sto(a, i, v *T) *T {
	if a.op == "store" && a.args[1] == i {
		return sto(a.args[0], i, v)
	}
	return mk(a.sort, "store", a, i, v)
}

func quant(q string, vars []BVar, pats [][]*T, body *T) *T {
	if isTrue(body) || isFalse(body) {
		return body
	}
	if len(pats) > 0 {
		var keep [][]*T
		for _, p := range pats {
			syms := map[string]bool{}
			ok := true
			for _, t := range p {
				if len(t.args) == 0 {
					ok = false
				}
				t.symbols(map[int]bool{}, syms)
			}
			for _, v := range vars {
				ok = ok && syms[v.name]
			}
			if ok {
				keep = append(keep, p)
			}
		}
		pats = keep
	}
	termCnt++
	sz := body.size
	return &T{op: q, vars: vars, pats: pats, args: []*T{body}, id: termCnt, h: structHash(fmt.Sprint(q, vars), []*T{body}), sort: "Bool", size: sz}
}

func app(sort, f string, args ...*T) *T {
	if f == "qat" && args[0].op == "sq" && args[1].num != nil && args[0].args[2].num != nil {
		if s := args[0]; args[1].num.Sign() >= 0 && args[1].num.Cmp(s.args[2].num) < 0 {
			return sel(s.args[0], ixT(s.args[1], args[1]))
		}
	}
	return mk(sort, f, args...)
}

func pow2(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

// collect all 0-ary symbol names in t
func (t *T) symbols(seen map[int]bool, out map[string]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.num == nil {
		out[t.op] = true
	}
	for _, a := range t.args {
		a.symbols(seen, out)
	}
	for _, p := range t.pats {
		for _, a := range p {
			a.symbols(seen, out)
		}
	}
}

// substitute nullary constants by name
func subst(t *T, m map[string]*T) *T {
	memo := map[int]*T{}
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if t.num != nil {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *T
		if len(t.args) == 0 {
			if s, ok := m[t.op]; ok {
				r = s
			} else {
				r = t
			}
		} else if t.op == "forall" || t.op == "exists" {
			var ps [][]*T
			for _, p := range t.pats {
				var np []*T
				for _, x := range p {
					np = append(np, rec(x))
				}
				ps = append(ps, np)
			}
			r = quant(t.op, t.vars, ps, rec(t.args[0]))
		} else {
			na := make([]*T, len(t.args))
			ch := false
			for i, a := range t.args {
				na[i] = rec(a)
				if na[i] != a {
					ch = true
				}
			}
			if !ch {
				r = t
			} else {
				r = rebuild(t, na)
			}
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func rebuild(t *T, a []*T) *T {
	switch t.op {
	case "not":
		return not(a[0])
	case "and":
		return and(a...)
	case "or":
		return or(a...)
	case "=>":
		return implies(a[0], a[1])
	case "=":
		return eq(a[0], a[1])
	case "select":
		return sel(a[0], a[1])
	case "ite":
		return ite(a[0], a[1], a[2])
	case "+":
		if t.sort == "Int" {
			r := a[0]
			for _, x := range a[1:] {
				r = add(r, x)
			}
			return r
		}
	case "<":
		return lt(a[0], a[1])
	case "<=":
		return le(a[0], a[1])
	}
	return mk(t.sort, t.op, a...)
}

func (t *T) dbg() string { return fmt.Sprintf("%s", t) }

func ixAdd(a, i *T) *T {
	if a.op == "ix" {
		return mk("Int", "ix", a.args[0], add(a.args[1], i))
	}
	return add(a, i)
}
