package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Verifier holds everything shared by all units of one run.
type Verifier struct {
	l       *Loaded
	sp      *Specs
	sorts   *Sorts
	fnName  map[string]*ssa.Function
	dropped []string // contracts of helpers that are not there
	touchC  map[*ssa.Function]map[string]bool
	keyInfo map[string]KeyInfo
	named   map[string]types.Type
	scc     map[*ssa.Function]int
	implsC  map[string][]*ssa.Function
	renamed map[string]string
	tagFacts []string
	uids    map[int]bool
	cglob   map[*ssa.Global]*constGlobal
	recText []RecBlock
}

type RecBlock struct{ decl, ax, fnAx, file, name string }

type KeyInfo struct {
	sort string
	gt   types.Type
}

func shortFn(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Name()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Name()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			return pk + ".(*" + tn(p.Elem()) + ")." + f.Name()
		}
		return pk + "." + tn(t) + "." + f.Name()
	}
	return pk + "." + f.Name()
}

func tn(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func NewVerifier(l *Loaded, sp *Specs) *Verifier {
	v := &Verifier{uids: map[int]bool{}, l: l, sp: sp, sorts: NewSorts(l), fnName: map[string]*ssa.Function{}, touchC: map[*ssa.Function]map[string]bool{}, keyInfo: map[string]KeyInfo{}, named: map[string]types.Type{}, implsC: map[string][]*ssa.Function{}, renamed: map[string]string{}}
	for _, p := range l.Pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				v.fnName[shortFn(m)] = m
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok || nt.TypeParams().Len() > 0 {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					f := l.Prog.FuncValue(nt.Method(i))
					if f != nil {
						v.fnName[shortFn(f)] = f
					}
				}
			}
		}
	}
	for _, p := range l.Prog.AllPackages() {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				k := p.Pkg.Name() + "." + n
				if _, dup := v.named[k]; !dup || l.Pkgs[p.Pkg.Name()] == p {
					v.named[k] = tn.Type()
				}
			}
		}
	}
	// all concrete repo types get a tag, so that type tests are decided
	for _, pn := range []string{"collection", "util"} {
		sc := l.Pkgs[pn].Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					if _, isI := nt.Underlying().(*types.Interface); isI {
						v.sorts.Tag(nt)
					} else {
						v.sorts.Tag(types.NewPointer(nt))
					}
				}
			}
		}
	}
	// a contract of an unexported helper that is gone or has another shape is dropped:
	// nobody outside relies on it, and its callers are then verified against what there is now
	for n, c := range sp.contracts {
		i := strings.LastIndex(n, ".")
		if c.kind != "func" || i < 0 || n[i+1] < 'a' || n[i+1] > 'z' {
			continue
		}
		if f := v.fnName[n]; f == nil || len(f.Params) != len(c.params) || len(c.results) > f.Signature.Results().Len() {
			delete(sp.contracts, n)
			v.dropped = append(v.dropped, n)
		}
	}
	v.setupRecs()
	return v
}

var basicTypes = map[string]types.Type{"byte": types.Typ[types.Uint8], "uint8": types.Typ[types.Uint8], "uint16": types.Typ[types.Uint16], "uint32": types.Typ[types.Uint32], "uint64": types.Typ[types.Uint64],
	"uint": types.Typ[types.Uint], "int8": types.Typ[types.Int8], "int16": types.Typ[types.Int16], "int32": types.Typ[types.Int32], "int64": types.Typ[types.Int64], "string": types.Typ[types.String], "goint": types.Typ[types.Int], "gobool": types.Typ[types.Bool]}

// resolveType maps a type name of the specification language to a Go type (or nil) and a sort.
func (v *Verifier) resolveType(s string) (types.Type, string) {
	switch s {
	case "int":
		return nil, "Int"
	case "bool":
		return nil, "Bool"
	case "Seq":
		return nil, "QSeq"
	case "Block":
		return nil, "(Array Int Int)"
	case "IBlock":
		return nil, "(Array Int Iface)"
	case "SBlock":
		return nil, "(Array Int Slice)"
	case "Mem":
		return nil, "(Array Int (Array Int Int))"
	}
	if strings.HasPrefix(s, "*") {
		e, _ := v.resolveType(s[1:])
		if e == nil {
			panic(specErr{"", "unknown type " + s})
		}
		return types.NewPointer(e), "Int"
	}
	if strings.HasPrefix(s, "[]") {
		in := s[2:]
		if in == "int" {
			in = "goint"
		}
		if in == "bool" {
			in = "gobool"
		}
		e, _ := v.resolveType(in)
		if e == nil {
			panic(specErr{"", "unknown type " + s})
		}
		return types.NewSlice(e), "Slice"
	}
	if t, ok := basicTypes[s]; ok {
		return t, v.sorts.Sort(t)
	}
	if t, ok := v.named[s]; ok {
		return t, v.sorts.Sort(t)
	}
	if s == "error" {
		return types.Universe.Lookup("error").Type(), "Iface"
	}
	return nil, s
}

func (v *Verifier) key(k string, gt types.Type) string {
	if _, ok := v.keyInfo[k]; ok {
		return k
	}
	es := v.sorts.Sort(gt)
	var s string
	switch k[0] {
	case 'M':
		s = "(Array Int (Array Int " + es + "))"
	case 'G':
		s = es
	default:
		s = "(Array Int " + es + ")"
	}
	v.keyInfo[k] = KeyInfo{s, gt}
	return k
}

func (v *Verifier) resolveKey(k string) KeyInfo {
	if i, ok := v.keyInfo[k]; ok {
		return i
	}
	switch k[0] {
	case 'M', 'P':
		n := k[2:]
		if n == "int" {
			n = "goint"
		}
		if n == "bool" {
			n = "gobool"
		}
		gt, _ := v.resolveType(n)
		if gt == nil {
			panic(specErr{"", "unknown heap key " + k})
		}
		v.key(k, gt)
	case 'F':
		i := strings.LastIndex(k, ".")
		st, ok := v.named[k[2:i]]
		if !ok {
			panic(specErr{"", "unknown heap key " + k})
		}
		u := st.Underlying().(*types.Struct)
		for j := 0; j < u.NumFields(); j++ {
			if u.Field(j).Name() == k[i+1:] {
				v.key(k, u.Field(j).Type())
			}
		}
		if _, ok := v.keyInfo[k]; !ok {
			panic(specErr{"", "unknown field " + k})
		}
	default:
		panic(specErr{"", "unknown heap key " + k})
	}
	return v.keyInfo[k]
}

// ---------------------------------------------------------------- states

type FactNode struct {
	parent *FactNode
	fact   *T
	n      int
	cand   *Cand // assumed loop invariant candidate
}

type State struct {
	heap  map[string]*T
	alloc *T
	facts *FactNode
}

func (s *State) clone() *State {
	h := make(map[string]*T, len(s.heap)+2)
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{h, s.alloc, s.facts}
}

func (s *State) assume(fs ...*T) *State {
	n := *s
	for _, f := range fs {
		if isTrue(f) {
			continue
		}
		if f.op == "and" {
			for _, g := range f.args {
				n.facts = &FactNode{n.facts, g, depthOf(n.facts) + 1, nil}
			}
			continue
		}
		n.facts = &FactNode{n.facts, f, depthOf(n.facts) + 1, nil}
	}
	return &n
}

func depthOf(f *FactNode) int {
	if f == nil {
		return 0
	}
	return f.n
}

func (s *State) with(k string, t *T) *State {
	n := s.clone()
	n.heap[k] = t
	return n
}

func (f *FactNode) list() []*T {
	var out []*T
	for ; f != nil; f = f.parent {
		out = append(out, f.fact)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---------------------------------------------------------------- values

type Val struct {
	t     *T
	addr  *Addr
	tuple []Val
	fn    *ssa.Function
	bind  []Val
	raw   types.Type // unsafe view
	raw2  *T         // slice the unsafe view came from
}

// Addr is a symbolic location: a heap key, a reference (nil for globals) and projections.
type Addr struct {
	key string
	ref *T
	pr  []Proj
	gt  types.Type // type of the located value
	sl  *T         // slice and index this element was addressed through
	si  *T
}

type Proj struct {
	st  types.Type // struct field projection
	idx int
	ix  *T // array index projection
	et  types.Type
}

type Obl struct {
	kind  string
	label string
	pos   string
	fn    string
	goal  *T
	facts *FactNode
	extra []*T
	cand  *Cand
	path  string
	res   string
	id    int
	text  string
	by    string
	detail string
	unit  *Unit
}

type Cand struct {
	tmpl bool // from an invariant of the contract
	key   string
	text  string
	loop  string
	eval  func(get func(v ssa.Value) (Val, bool), st *State) *T
	dead  bool
	count int
	rep   *Cand // shared representative
	measure bool
}

func (o *Obl) name() string {
	n := o.fn + ": " + o.kind
	if o.label != "" {
		n += " [" + o.label + "]"
	}
	if o.pos != "" {
		n += " at " + o.pos
	}
	return n
}

var _ = fmt.Sprint
