package collection

import (
	"fmt"
	"sort"
)

// vkey: keys are equal when their ranks are; id tells the objects apart.
type vkey struct{ rank, id int }

func (k *vkey) Equal(o IObject) bool {
	x, ok := o.(*vkey)
	return ok && x != nil && x.rank == k.rank
}
func (k *vkey) Compare(c IComparable) int {
	x := c.(*vkey)
	// magnitudes beyond one: only the sign counts
	return (k.rank - x.rank) * 3
}
func (k *vkey) HashUint32(f func([]byte) uint32) uint32 {
	return f([]byte{byte(k.rank), byte(k.rank >> 8)})
}
func (k *vkey) String() string { return fmt.Sprintf("%d#%d", k.rank, k.id) }

type ventry struct {
	k *vkey
	v IObject
}

// vop: 0 put, 1 remove, 2 get
type vop struct {
	op, rank int
}

func (o vop) String() string { return fmt.Sprintf("%s %d", [...]string{"put", "remove", "get"}[o.op], o.rank) }

func vhistory(h *vh) []vop {
	n := 1 + h.r.Intn(40)
	if h.r.Intn(8) == 0 {
		n = 200 + h.r.Intn(400)
	}
	span := 1 + h.r.Intn(n+3)
	mode := h.r.Intn(5)
	var ops []vop
	for i := 0; i < n; i++ {
		o := vop{h.r.Intn(3), h.r.Intn(span)}
		switch mode {
		case 0: // fill ascending, then remove
			if i < 2*n/3 {
				o = vop{0, i % span}
			} else {
				o.op = 1
			}
		case 1: // fill descending, then remove
			if i < 2*n/3 {
				o = vop{0, span - i%span}
			} else {
				o.op = 1
			}
		case 2:
			if i < 2*n/3 {
				o.op = 0
			} else {
				o.op = 1
			}
		case 3:
			if o.op == 2 {
				o.op = 0
			}
		}
		ops = append(ops, o)
	}
	return ops
}

type vmodel map[int]ventry

func (m vmodel) sorted() []ventry {
	var out []ventry
	for _, e := range m {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].k.rank < out[j].k.rank })
	return out
}
