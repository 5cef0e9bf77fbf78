package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package variables that hold the same value from the end of package
// initialisation on: no function other than the package's initialiser stores to
// them or lets their address escape (checked over the whole package; variables
// that another package could reach are not considered). What the initialiser
// stores in them is taken from its code.
type constGlobal struct {
	arr  map[int64]*big.Int // constant elements of an array (missing ones are zero)
	big  *big.Int           // value of the big.Int pointed to
	num  *big.Int           // integer constant
	n    int64
}

// methods of *big.Int that leave the receiver alone
var bigReads = map[string]bool{"Cmp": true, "CmpAbs": true, "Sign": true, "Bytes": true, "String": true, "Int64": true, "Uint64": true, "BitLen": true, "IsInt64": true, "IsUint64": true, "Bit": true, "Text": true, "FillBytes": true}

func (v *Verifier) constGlobal(g *ssa.Global) *constGlobal {
	if c, ok := v.cglob[g]; ok {
		return c
	}
	if v.cglob == nil {
		v.cglob = map[*ssa.Global]*constGlobal{}
	}
	c := v.findConstGlobal(g)
	v.cglob[g] = c
	return c
}

func (v *Verifier) findConstGlobal(g *ssa.Global) *constGlobal {
	if g.Object() == nil || g.Object().Exported() {
		return nil
	}
	gt := g.Type().(*types.Pointer).Elem()
	c := &constGlobal{}
	isBig := typeName(gt) == "*big.Int"
	at, isArr := gt.Underlying().(*types.Array)
	_, _, isInt := intBits(gt)
	if !isBig && !isArr && !isInt {
		return nil
	}
	if isArr {
		if _, _, ok := intBits(at.Elem()); !ok {
			return nil
		}
		c.arr, c.n = map[int64]*big.Int{}, at.Len()
	} else if isInt {
		c.num = new(big.Int)
	}
	ok, stores := true, 0
	cval := func(x ssa.Value) *big.Int {
		k, isC := x.(*ssa.Const)
		if !isC || k.Value == nil || k.Value.Kind() != constant.Int {
			return nil
		}
		n, _ := new(big.Int).SetString(k.Value.ExactString(), 10)
		return n
	}
	var uses func(a ssa.Value, in ssa.Instruction, isInit bool, idx int64, top bool)
	uses = func(a ssa.Value, in ssa.Instruction, isInit bool, idx int64, top bool) {
		switch in := in.(type) {
		case *ssa.UnOp:
			if isBig && top {
				for _, r := range *in.Referrers() {
					call, isCall := r.(*ssa.Call)
					if _, dbg := r.(*ssa.DebugRef); dbg {
						continue
					}
					if !isCall || call.Call.IsInvoke() {
						ok = false
						continue
					}
					f := call.Call.StaticCallee()
					if f == nil || !strings.HasPrefix(shortFn(f), "big.(*Int).") || call.Call.Args[0] == in && !bigReads[f.Name()] {
						ok = false
						continue
					}
					// passed twice as an argument that receives a result (DivMod)
					if (f.Name() == "DivMod" || f.Name() == "QuoRem" || f.Name() == "GCD") && (call.Call.Args[len(call.Call.Args)-1] == in || f.Name() == "GCD") {
						ok = false
					}
				}
			}
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			if in.X != a || !isArr {
				ok = false
				return
			}
			i := int64(-1)
			if k := cval(in.Index); k != nil && k.IsInt64() {
				i = k.Int64()
			}
			for _, r := range *in.Referrers() {
				uses(in, r, isInit, i, false)
			}
		case *ssa.Store:
			if in.Addr != a || !isInit || in.Block() == nil {
				ok = false
				return
			}
			stores++
			if isArr {
				if ld, isLd := in.Val.(*ssa.UnOp); top && isLd && stores == 1 && len(c.arr) == 0 {
					// a composite literal built in a temporary and copied over
					al, isAl := ld.X.(*ssa.Alloc)
					if !isAl || al.Block() != in.Block() {
						ok = false
						return
					}
					for _, r := range *al.Referrers() {
						if r == ssa.Instruction(ld) {
							continue
						}
						ia, isIA := r.(*ssa.IndexAddr)
						if !isIA || ia.Block() != in.Block() || len(*ia.Referrers()) != 1 {
							ok = false
							return
						}
						stt, isSt := (*ia.Referrers())[0].(*ssa.Store)
						k := cval(ia.Index)
						if !isSt || stt.Addr != ia || stt.Block() != in.Block() || k == nil || cval(stt.Val) == nil || c.arr[k.Int64()] != nil {
							ok = false
							return
						}
						c.arr[k.Int64()] = cval(stt.Val)
					}
					return
				}
				n := cval(in.Val)
				if top || idx < 0 || n == nil || c.arr[idx] != nil {
					ok = false
					return
				}
				c.arr[idx] = n
				return
			}
			if stores > 1 {
				ok = false
				return
			}
			if isInt {
				if c.num = cval(in.Val); c.num == nil {
					ok = false
				}
				return
			}
			call, isCall := in.Val.(*ssa.Call)
			if !isCall || call.Call.StaticCallee() == nil || shortFn(call.Call.StaticCallee()) != "big.NewInt" || len(*call.Referrers()) != 1 {
				ok = false
				return
			}
			if c.big = cval(call.Call.Args[0]); c.big == nil {
				ok = false
			}
		default:
			ok = false
		}
	}
	for _, f := range pkgFuncs(g.Pkg) {
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if o != nil && *o == g {
						uses(g, in, isInit, -1, true)
					}
				}
			}
		}
	}
	if !ok || isBig && c.big == nil {
		return nil
	}
	return c
}

// pkgFuncs: every function of a package, methods and closures included
func pkgFuncs(p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil {
			return
		}
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, n := range sortedMembers(p) {
		switch m := p.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			nt, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				add(p.Prog.FuncValue(nt.Method(i)))
			}
		}
	}
	return out
}

func sortedMembers(p *ssa.Package) []string {
	m := map[string]bool{}
	for n := range p.Members {
		m[n] = true
	}
	return sortedKeys(m)
}

// globalFacts: what is known of a package variable from its initialiser
func (x *Unit) globalFacts(k string, m *T) []*T {
	p := strings.SplitN(strings.TrimPrefix(k, "G:"), ".", 2)
	pk := x.V.l.Pkgs[p[0]]
	if pk == nil || len(p) != 2 {
		return nil
	}
	g := pk.Var(p[1])
	if g == nil {
		return nil
	}
	c := x.V.constGlobal(g)
	if c == nil {
		return nil
	}
	switch {
	case c.arr != nil:
		if c.n > 1024 {
			return nil
		}
		fs := x.table(c.n, func(i *T) *T { return sel(m, i) }, func(i int64) *big.Int {
			if e := c.arr[i]; e != nil {
				return e
			}
			return new(big.Int)
		})
		return fs
	case c.num != nil:
		return []*T{eq(m, bigT(c.num))}
	case c.big != nil:
		h := x.heapGet(&State{heap: map[string]*T{}}, x.V.key("P:big.Int", x.V.named["big.Int"]))
		return []*T{not(eq(m, num(0))), eq(sel(h, m), bigT(c.big))}
	}
	return nil
}

// table: the elements of a constant table, runs of equal or successive values as one fact
func (x *Unit) table(n int64, at func(*T) *T, val func(int64) *big.Int) []*T {
	var fs []*T
	one := big.NewInt(1)
	for lo := int64(0); lo < n; {
		hi := lo
		slope := int64(0)
		if lo+1 < n {
			d := new(big.Int).Sub(val(lo+1), val(lo))
			if d.Sign() == 0 || d.Cmp(one) == 0 {
				slope = d.Int64()
				for hi+1 < n && new(big.Int).Sub(val(hi+1), val(hi)).Cmp(d) == 0 {
					hi++
				}
			}
		}
		if hi-lo < 2 {
			hi = lo
			fs = append(fs, eq(at(num(lo)), bigT(val(lo))))
		} else {
			x.qn++
			v := fmt.Sprintf("i!%d", x.qn)
			i := cst(v, "Int")
			e := at(i)
			fs = append(fs, quant("forall", []BVar{{v, "Int"}}, [][]*T{{e}}, implies(and(le(num(lo), i), le(i, num(hi))), eq(e, add(bigT(val(lo)), mul(num(slope), sub(i, num(lo))))))))
		}
		lo = hi + 1
	}
	return fs
}
