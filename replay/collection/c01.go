package collection

import (
	"fmt"
	"testing"
)

func vnode(n *AVLNode) string {
	if n == nil {
		return "nothing"
	}
	return fmt.Sprintf("(%v, %v)", n.key, n.value)
}
func vent(m vmodel, r int) string {
	if e, ok := m[r]; ok {
		return fmt.Sprintf("(%v, %v)", e.k, e.v)
	}
	return "nothing"
}

func TestVerifC01(t *testing.T) {
	h := newVH(t)
	for h.more(0.6) {
		ops := vhistory(h)
		which := h.r.Intn(3)
		h.try(func() string { return fmt.Sprintf("on a new %s: %v", [...]string{"tree", "sorted map", "sorted set"}[which], ops) }, func() string {
			m := vmodel{}
			tree, smap, set := NewAVLTree(), NewSortedMap(), NewSortedSet()
			for i, o := range ops {
				k := &vkey{o.rank, i}
				var v IObject = i + 1000
				if i%5 == 4 {
					v = nil
				}
				want, got := "", ""
				old, had := m[o.rank]
				val := func(x IObject) string { return fmt.Sprint(x) }
				key := func(x IObject) string {
					if IsNil(x) {
						return "nothing"
					}
					return fmt.Sprint(x)
				}
				switch which {
				case 0:
					want = vent(m, o.rank)
					switch o.op {
					case 0:
						got = vnode(tree.Put(k, v))
					case 1:
						got = vnode(tree.Remove(k))
					case 2:
						got = vnode(tree.Get(k))
					}
				case 1:
					want = val(old.v)
					switch o.op {
					case 0:
						got = val(smap.Put(k, v))
					case 1:
						got = val(smap.Remove(k))
					case 2:
						got = val(smap.Get(k))
					}
				case 2:
					v = nil
					if had {
						want = fmt.Sprint(old.k)
					} else {
						want = "nothing"
					}
					switch o.op {
					case 0:
						got = key(set.Put(k))
					case 1:
						got = key(set.Remove(k))
					case 2:
						want, got = fmt.Sprint(had), fmt.Sprint(set.Exist(k))
					}
				}
				if want != got {
					return fmt.Sprintf("step %d (%v): %s, should be %s", i, o, got, want)
				}
				switch o.op {
				case 0:
					m[o.rank] = ventry{k, v}
				case 1:
					delete(m, o.rank)
				}
				if s := [...]int{tree.Size(), smap.Size(), set.Size()}[which]; s != len(m) {
					return fmt.Sprintf("step %d (%v): size %d, should be %d", i, o, s, len(m))
				}
			}
			for r := -1; r < 600; r++ {
				p := &vkey{r, -1}
				want, got := vent(m, r), ""
				switch which {
				case 0:
					got = vnode(tree.Get(p))
				case 1:
					want, got = fmt.Sprint(m[r].v), fmt.Sprint(smap.Get(p))
				case 2:
					_, had := m[r]
					want, got = fmt.Sprint(had), fmt.Sprint(set.Exist(p))
				}
				if want != got {
					return fmt.Sprintf("finally get %d: %s, should be %s", r, got, want)
				}
			}
			return ""
		})
	}
}
