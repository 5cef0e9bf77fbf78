package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// libModel is a built-in model of a library operation whose meaning depends on types.
type libModel struct {
	keys []string
	run  func(x *Unit, fr *frame, in *ssa.Call, args []Val, st *State, k func(*State, []Val))
}

var libModels map[string]libModel

func rtypeTag(x *Unit) *T {
	rt := x.V.named["reflect.rtype"]
	if rt == nil {
		unsupported("reflect.rtype not found")
	}
	return x.V.sorts.Tag(types.NewPointer(rt))
}

// rtv: the type token held by a reflect.Type (an interface holding *rtype, or the *rtype itself)
func rtv(t *T) *T {
	if t.sort == "Iface" {
		return iVal(t)
	}
	return t
}

func init() {
	defer func() {
		for _, n := range []string{"Elem", "Kind", "Implements"} {
			libModels["reflect.(*rtype)."+n] = libModels["reflect.Type."+n]
		}
	}()
	libModels = map[string]libModel{
		"reflect.TypeOf": {nil, func(x *Unit, fr *frame, in *ssa.Call, args []Val, st *State, k func(*State, []Val)) {
			v := x.term(args[0])
			tg := iTag(v)
			some := mkIface(rtypeTag(x), tg)
			var r *T
			switch {
			case x.tagType(tg) != nil:
				r = some
			case tg.num != nil && tg.num.Sign() == 0:
				r = mkIface(num(0), num(0))
			default:
				c := eq(tg, num(0))
				if st.knows(not(c)) {
					r = some
				} else {
					r = mkIface(ite(c, num(0), rtypeTag(x)), tg)
				}
			}
			k(st, []Val{{t: r}})
		}},
		"reflect.Type.Elem": {nil, func(x *Unit, fr *frame, in *ssa.Call, args []Val, st *State, k func(*State, []Val)) {
			v := x.term(args[0])
			kd := app("Int", "kindOf", rtv(v))
			st = x.safe(fr, st, "reflect Elem of a pointer-like type", in.Pos(), or(eq(kd, num(22)), eq(kd, num(23)), eq(kd, num(17)), eq(kd, num(18)), eq(kd, num(21))))
			e := app("Int", "elemOf", rtv(v))
			if gt := x.tagType(rtv(v)); gt != nil {
				if p, ok := gt.Underlying().(*types.Pointer); ok {
					e = x.V.sorts.Tag(p.Elem())
				}
				if p, ok := gt.Underlying().(*types.Slice); ok {
					e = x.V.sorts.Tag(p.Elem())
				}
			}
			k(st, []Val{{t: mkIface(rtypeTag(x), e)}})
		}},
		"reflect.Type.Kind": {nil, func(x *Unit, fr *frame, in *ssa.Call, args []Val, st *State, k func(*State, []Val)) {
			v := x.term(args[0])
			r := app("Int", "kindOf", rtv(v))
			if gt := x.tagType(rtv(v)); gt != nil {
				r = num(int64(reflectKind(gt)))
			}
			k(st, []Val{{t: r}})
		}},
		"reflect.Type.Implements": {nil, func(x *Unit, fr *frame, in *ssa.Call, args []Val, st *State, k func(*State, []Val)) {
			v, u := x.term(args[0]), x.term(args[1])
			st = x.safe(fr, st, "reflect Implements of an interface type", in.Pos(), and(not(eq(iTag(u), num(0))), eq(app("Int", "kindOf", iVal(u)), num(20))))
			r := app("Bool", "implementsT", rtv(v), iVal(u))
			a, b := x.tagType(rtv(v)), x.tagType(iVal(u))
			if a != nil && b != nil {
				if it, ok := b.Underlying().(*types.Interface); ok {
					if types.Implements(a, it) {
						r = tTrue()
					} else {
						r = tFalse()
					}
				}
			}
			k(st, []Val{{t: r}})
		}},
		"reflect.ValueOf": {nil, func(x *Unit, fr *frame, in *ssa.Call, args []Val, st *State, k func(*State, []Val)) {
			k(st, []Val{{t: x.term(args[0])}})
		}},
		"reflect.Value.Kind": {nil, func(x *Unit, fr *frame, in *ssa.Call, args []Val, st *State, k func(*State, []Val)) {
			k(st, []Val{{t: app("Int", "kindOf", iTag(x.term(args[0])))}})
		}},
		"reflect.Value.IsNil": {nil, func(x *Unit, fr *frame, in *ssa.Call, args []Val, st *State, k func(*State, []Val)) {
			v := x.term(args[0])
			kd := app("Int", "kindOf", iTag(v))
			st = x.safe(fr, st, "reflect IsNil of a nilable kind", in.Pos(), or(eq(kd, num(22)), eq(kd, num(23)), eq(kd, num(18)), eq(kd, num(21)), eq(kd, num(19)), eq(kd, num(20)), eq(kd, num(26))))
			k(st, []Val{{t: x.isNilIface(v)}})
		}},
		"binary.Read": {[]string{"P:byte", "P:uint16", "P:uint32", "P:uint64", "P:int8", "P:int16", "P:int32", "P:int64", "F:bytes.Reader.i"}, binaryRead},
	}
}

// isNilIface: the boxed value (of a nilable kind) is nil
func (x *Unit) isNilIface(v *T) *T {
	if gt := x.tagType(iTag(v)); gt != nil {
		switch gt.Underlying().(type) {
		case *types.Slice:
			return eq(sBase(x.unbox(iVal(v), gt)), num(0))
		default:
			return eq(iVal(v), num(0))
		}
	}
	sl := x.unbox(iVal(v), types.NewSlice(types.Typ[types.Uint8]))
	return ite(eq(app("Int", "kindOf", iTag(v)), num(23)), eq(sBase(sl), num(0)), eq(iVal(v), num(0)))
}

// binary.Read(bytes.Reader, BigEndian, *fixed-width integer)
func binaryRead(x *Unit, fr *frame, in *ssa.Call, args []Val, st *State, k func(*State, []Val)) {
	mi, ok := in.Call.Args[2].(*ssa.MakeInterface)
	if !ok {
		unsupported("binary.Read with unknown target")
	}
	pt, ok := mi.X.Type().Underlying().(*types.Pointer)
	if !ok {
		unsupported("binary.Read into a non-pointer")
	}
	b, signed, ok := intBits(pt.Elem())
	if bt, isB := pt.Elem().Underlying().(*types.Basic); !ok || isB && (bt.Kind() == types.Int || bt.Kind() == types.Uint) {
		unsupported("binary.Read into %s", pt.Elem())
	}
	r := x.term(args[0])
	gt := x.tagType(iTag(r))
	if gt == nil || typeName(gt) != "*bytes.Reader" {
		unsupported("binary.Read from an unknown reader")
	}
	om, ok := in.Call.Args[1].(*ssa.MakeInterface)
	big := false
	if ok {
		switch typeName(om.X.Type()) {
		case "binary.bigEndian":
			big = true
		case "binary.littleEndian":
		default:
			ok = false
		}
	}
	if !ok {
		unsupported("binary.Read with unknown byte order")
	}
	ref := iVal(r)
	rd := x.V.named["bytes.Reader"]
	u := rd.Underlying().(*types.Struct)
	var fs, fi int
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "s" {
			fs = i
		}
		if u.Field(i).Name() == "i" {
			fi = i
		}
	}
	ra := &Addr{key: "S", ref: ref, gt: rd}
	s := x.load(st, x.fieldAddr(ra, fs))
	pos := x.load(st, x.fieldAddr(ra, fi))
	n := int64(b / 8)
	fits := le(add(pos, num(n)), sLen(s))
	blk := sel(x.heapGet(st, x.V.key("M:byte", types.Typ[types.Uint8])), sBase(s))
	val := num(0)
	for i := int64(0); i < n; i++ {
		e := sel(blk, ixT(sOff(s), add(pos, num(i))))
		x.noteType(e, types.Typ[types.Uint8])
		sh := 8 * i
		if big {
			sh = 8 * (n - 1 - i)
		}
		val = add(val, mul(bigT(pow2(int(sh))), e))
		st = st.assume(and(le(num(0), e), le(e, num(255))))
	}
	if signed {
		val = ite(le(bigT(pow2(b-1)), val), sub(val, bigT(pow2(b))), val)
	}
	tv := x.val(fr, mi.X)
	ta := x.addrOf(tv, pt.Elem())
	et := x.fresh("err", "Iface")
	x.branch(fr, fits, st, func(st *State) {
		st = x.storeAny(st, ta, val)
		st = x.store(st, x.fieldAddr(ra, fi), add(pos, num(n)))
		k(st, []Val{{t: mkIface(num(0), num(0))}})
	}, func(st *State) {
		st = st.assume(lt(num(0), iTag(et)))
		st = x.store(st, x.fieldAddr(ra, fi), sLen(s))
		k(st, []Val{{t: et}})
	})
}
