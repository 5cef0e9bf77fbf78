package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Universe of sorts used by one verification unit.
type Sorts struct {
	l       *Loaded
	structs map[string]*types.Struct // datatype name -> struct
	order   []string                 // declaration order
	decls   map[string]string
	tags    map[string]types.Type // tag const name -> go type
	tagList []string
	boxes   map[string]string // box suffix -> sort
}

func NewSorts(l *Loaded) *Sorts {
	return &Sorts{l: l, structs: map[string]*types.Struct{}, decls: map[string]string{}, tags: map[string]types.Type{}, boxes: map[string]string{}}
}

func qual(p *types.Package) string { return p.Name() }

func typeName(t types.Type) string { return types.TypeString(t, qual) }

func mangle(s string) string {
	r := strings.NewReplacer("*", "P_", "[]", "S_", "[", "A", "]", "_", " ", "", ".", "_", "(", "_", ")", "_", ",", "_", "{", "_", "}", "_", "/", "_", ";", "_", "µ", "mu", "-", "_", "\"", "_")
	return r.Replace(s)
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func intBits(t types.Type) (bits int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.UntypedInt, types.UntypedRune:
		return 64, true, true
	}
	return 0, false, false
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, s, ok := intBits(t)
	if !ok {
		return nil, nil, false
	}
	if s {
		return new(big.Int).Neg(pow2(b - 1)), new(big.Int).Sub(pow2(b-1), big.NewInt(1)), true
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(b), big.NewInt(1)), true
}

// opaque library struct types that are modelled by one integer or interface
func opaqueStruct(t types.Type) string {
	switch typeName(t) {
	case "reflect.Value":
		return "Iface"
	case "time.Time":
		return "Int" // nanoseconds since the epoch
	case "big.Int":
		return "Int" // the number
	}
	return ""
}

func (s *Sorts) Sort(t types.Type) string {
	if o := opaqueStruct(t); o != "" {
		return o
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsFloat != 0:
			return "Flt"
		case u.Info()&types.IsString != 0:
			return "QSeq"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		case u.Kind() == types.UntypedNil:
			return "Int"
		}
	case *types.Pointer, *types.Signature, *types.Chan, *types.Map:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Array:
		return "(Array Int " + s.Sort(u.Elem()) + ")"
	case *types.Interface:
		return "Iface"
	case *types.Struct:
		return s.structSort(t, u)
	}
	panic(untrans{fmt.Sprintf("type %s", t)})
}

type untrans struct{ msg string }

func (s *Sorts) structSort(t types.Type, u *types.Struct) string {
	n := "D_" + mangle(typeName(t))
	if _, ok := s.structs[n]; ok {
		return n
	}
	s.structs[n] = u
	var fs []string
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		fs = append(fs, fmt.Sprintf("(%s %s)", n+"."+f.Name(), s.Sort(f.Type())))
	}
	s.decls[n] = fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s %s))))", n, n, strings.Join(fs, " "))
	s.order = append(s.order, n)
	return n
}

// Tag returns the integer constant naming a dynamic type.
func (s *Sorts) Tag(t types.Type) *T {
	n := "tag_" + mangle(typeName(t))
	if _, ok := s.tags[n]; !ok {
		s.tags[n] = t
		s.tagList = append(s.tagList, n)
	}
	return cst(n, "Int")
}

func reflectKind(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		}
		return 26
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// TagFactsFor emits the facts about the dynamic types named in a query: distinctness, kinds, implements relation.
func (s *Sorts) TagFactsFor(syms map[string]*T) []string {
	var out []string
	var use []string
	in := map[string]bool{}
	for i, n := range s.tagList {
		if _, ok := syms[n]; !ok {
			continue
		}
		in[n] = true
		use = append(use, n)
		out = append(out, fmt.Sprintf("(declare-const %s Int)(assert (= %s %d))", n, n, 100+i))
	}
	_, kinds := syms["kindOf"]
	_, elems := syms["elemOf"]
	_, impls := syms["implementsT"]
	for _, n := range use {
		t := s.tags[n]
		if kinds {
			out = append(out, fmt.Sprintf("(assert (= (kindOf %s) %d))", n, reflectKind(t)))
		}
		if p, ok := t.Underlying().(*types.Pointer); ok && elems {
			e := "tag_" + mangle(typeName(p.Elem()))
			if in[e] {
				out = append(out, fmt.Sprintf("(assert (= (elemOf %s) %s))", n, e))
			}
		}
		if !impls {
			continue
		}
		for _, m := range use {
			if it, ok := s.tags[m].Underlying().(*types.Interface); ok {
				v := "false"
				if types.Implements(t, it) {
					v = "true"
				}
				out = append(out, fmt.Sprintf("(assert (= (implementsT %s %s) %s))", n, m, v))
			}
		}
	}
	return out
}

// Zero value of a type.
func (s *Sorts) Zero(t types.Type) *T {
	if o := opaqueStruct(t); o != "" {
		if o == "Iface" {
			return mkIface(num(0), num(0))
		}
		return num(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse()
		case u.Info()&types.IsFloat != 0:
			return cst("flt0", "Flt")
		case u.Info()&types.IsString != 0:
			return cst("sempty", "QSeq")
		}
		return num(0)
	case *types.Pointer, *types.Signature, *types.Chan, *types.Map:
		return num(0)
	case *types.Slice:
		return mkSlice(num(0), num(0), num(0), num(0))
	case *types.Interface:
		return mkIface(num(0), num(0))
	case *types.Array:
		return constArr(s.Sort(t), s.Zero(u.Elem()))
	case *types.Struct:
		n := s.structSort(t, u)
		var as []*T
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, s.Zero(u.Field(i).Type()))
		}
		return mk(n, "mk_"+n, as...)
	}
	panic(untrans{fmt.Sprintf("zero of %s", t)})
}

func constArr(sort string, v *T) *T { return mk(sort, "(as const "+sort+")", v) }

func mkSlice(b, o, l, c *T) *T { return mk("Slice", "mkslice", b, o, l, c) }
func mkIface(t, v *T) *T       { return mk("Iface", "iface", t, v) }

func proj(t *T, ctor, name string, idx int, sort string) *T {
	if t.op == ctor {
		return t.args[idx]
	}
	if t.op == "ite" && (t.args[1].op == ctor || t.args[2].op == ctor) {
		return ite(t.args[0], proj(t.args[1], ctor, name, idx, sort), proj(t.args[2], ctor, name, idx, sort))
	}
	return mk(sort, name, t)
}
func sBase(t *T) *T { return proj(t, "mkslice", "sbase", 0, "Int") }
func sOff(t *T) *T  { return proj(t, "mkslice", "soff", 1, "Int") }
func sLen(t *T) *T  { return proj(t, "mkslice", "slen", 2, "Int") }
func sCap(t *T) *T  { return proj(t, "mkslice", "scap", 3, "Int") }
func iTag(t *T) *T  { return proj(t, "iface", "itag", 0, "Int") }
func iVal(t *T) *T  { return proj(t, "iface", "ival", 1, "Int") }

func (s *Sorts) Field(t *T, st types.Type, i int) *T {
	u := st.Underlying().(*types.Struct)
	n := s.structSort(st, u)
	f := u.Field(i)
	return proj(t, "mk_"+n, n+"."+f.Name(), i, s.Sort(f.Type()))
}

func (s *Sorts) WithField(t *T, st types.Type, i int, v *T) *T {
	u := st.Underlying().(*types.Struct)
	n := s.structSort(st, u)
	var as []*T
	for j := 0; j < u.NumFields(); j++ {
		if j == i {
			as = append(as, v)
		} else {
			as = append(as, s.Field(t, st, j))
		}
	}
	return mk(n, "mk_"+n, as...)
}

const maxLen = int64(1) << 43

// TypeFacts: what Go's type system and the memory model guarantee about a value
// t of type gt in a state whose allocation watermark is alloc.
func (s *Sorts) TypeFacts(t *T, gt types.Type, alloc *T) *T {
	if o := opaqueStruct(gt); o != "" {
		return tTrue()
	}
	if lo, hi, ok := intRange(gt); ok {
		if t.num != nil {
			return tTrue()
		}
		return and(le(bigT(lo), t), le(t, bigT(hi)))
	}
	switch u := gt.Underlying().(type) {
	case *types.Pointer:
		if t.num != nil {
			return tTrue()
		}
		return and(le(num(0), t), lt(t, alloc))
	case *types.Slice:
		return s.sliceFacts(t, alloc)
	case *types.Interface:
		if t.op == "iface" {
			return tTrue()
		}
		fs := []*T{le(num(0), iTag(t)), implies(eq(iTag(t), num(0)), eq(t, mkIface(num(0), num(0)))),
			implies(eq(app("Int", "kindOf", iTag(t)), num(22)), and(le(num(0), iVal(t)), lt(iVal(t), alloc)))}
		if u.NumMethods() > 0 {
			if nm, ok := gt.(*types.Named); ok {
				fs = append(fs, or(eq(iTag(t), num(0)), app("Bool", "implementsT", iTag(t), s.Tag(nm))))
			}
		}
		return and(fs...)
	case *types.Struct:
		var fs []*T
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, s.TypeFacts(s.Field(t, gt, i), u.Field(i).Type(), alloc))
		}
		return and(fs...)
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if strings.HasPrefix(t.op, "str_") || t.op == "sempty" {
				return tTrue()
			}
			i := cst("i!str", "Int")
			e := app("Int", "qat", t, i)
			return and(le(num(0), app("Int", "qlen", t)), le(app("Int", "qlen", t), num(maxLen)),
				quant("forall", []BVar{{"i!str", "Int"}}, [][]*T{{e}}, implies(and(le(num(0), i), lt(i, app("Int", "qlen", t))), and(le(num(0), e), le(e, num(255))))))
		}
	}
	return tTrue()
}

func (s *Sorts) sliceFacts(t, alloc *T) *T {
	return and(le(num(0), sBase(t)), lt(sBase(t), alloc), le(num(0), sOff(t)), le(num(0), sLen(t)), le(sLen(t), sCap(t)), le(sCap(t), num(maxLen)),
		implies(eq(sBase(t), num(0)), and(eq(sCap(t), num(0)), eq(sLen(t), num(0)), eq(sOff(t), num(0)))))
}

// heap map keys ------------------------------------------------------------

func structOf(t types.Type) (types.Type, *types.Struct) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	u, _ := t.Underlying().(*types.Struct)
	return t, u
}

func fieldKey(st types.Type, i int) string {
	u := st.Underlying().(*types.Struct)
	return "F:" + typeName(st) + "." + u.Field(i).Name()
}
func memKey(elem types.Type) string  { return "M:" + canonElem(elem) }
func cellKey(elem types.Type) string { return "P:" + canonElem(elem) }

func canonElem(t types.Type) string {
	switch u := t.(type) {
	case *types.Basic:
		if u.Kind() == types.Uint8 {
			return "byte"
		}
		if u.Kind() == types.Int32 {
			return "int32"
		}
	case *types.Slice:
		return "[]" + canonElem(u.Elem())
	}
	n := typeName(t)
	if n == "interface {}" || n == "any" || n == "interface{}" || n == "collection.IObject" {
		return n
	}
	return n
}

func keyConst(k string) string {
	return mangle(strings.NewReplacer("F:", "F_", "M:", "M_", "P:", "C_", "G:", "G_").Replace(k))
}

var _ = ssa.NaiveForm
