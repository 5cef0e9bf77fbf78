T = '''package collection

import (
	"math/rand"
	"testing"
)

type dk int

func (k dk) Equal(o IObject) bool { v, ok := o.(dk); return ok && v == k }
func (k dk) Compare(o IComparable) int {
	v := o.(dk)
	if k < v {
		return -1
	} else if k > v {
		return 1
	}
	return 0
}

func heightOf(t *testing.T, n *AVLNode) int {
	if n == nil {
		return 0
	}
	l, r := heightOf(t, n.link[0]), heightOf(t, n.link[1])
	if r-l != n.balance || r-l > 1 || l-r > 1 {
		t.Fatal("not balanced", n.key, l, r, n.balance)
	}
	if l > r {
		return l + 1
	}
	return r + 1
}

func TestDemo(t *testing.T) {
	for seed := int64(0); seed < 60; seed++ {
		r := rand.New(rand.NewSource(seed))
		m := NewSortedMap()
		model := map[dk]dk{}
		for i := 0; i < 200; i++ {
			k, v := dk(r.Intn(24)), dk(i)
			if r.Intn(2) == 0 {
				m.Put(k, v)
				model[k] = v
			} else {
				m.Remove(k)
				delete(model, k)
			}
			if m.Size() != len(model) {
				t.Fatal("size", m.Size(), len(model))
			}
			if m.Size() != 0 {
				for j := dk(0); j < 24; j++ {
					got := m.Get(j)
					want, ok := model[j]
					if ok != (got != nil) || ok && got.(dk) != want {
						t.Fatal("get", j, got, want, ok)
					}
				}
			}
			heightOf(t, m.tree.root)
		}
	}
}
'''
BUGS = [
dict(id='c02-double-rot', property='C02', needs='a double rotation whose inner node leans to the outside',
 breaks='a balance factor is recorded wrongly after a double rotation',
 edits=[('collection/avl.go', '		root.balance = 0\n		n.balance = bal\n	}\n	nn.balance = 0', '		root.balance = 0\n		n.balance = 0\n	}\n	nn.balance = 0')], pkg='collection', test=T),
dict(id='c02-rm-height', property='C02', needs='a removal below a node whose other side is even',
 breaks='a removal that does not lower a subtree is taken to have lowered it',
 edits=[('collection/avl.go', '	return root.single(dir), true', '	return root.single(dir), dir == 0')], pkg='collection', test=T),
dict(id='c01-heir-value', property='C01', needs='the removal of a key whose node has both sides, and whose heir is not the direct left node',
 breaks='the heir of a removed node loses its value',
 edits=[('collection/avl.go', '			heir = heir.link[1]\n		}\n		root.key = heir.key\n		root.value = heir.value\n', '			root.value = heir.value\n			heir = heir.link[1]\n		}\n		root.key = heir.key\n		if heir == root.link[0] {\n			root.value = heir.value\n		}\n')], pkg='collection', test=T),
dict(id='c01-last-size', property='C01', needs='the removal of the last key',
 breaks='the size stays at one when the last key is removed',
 edits=[('collection/avl.go', '		if !IsNil(node) {\n			t.size -= 1', '		if !IsNil(node) && t.root != nil {\n			t.size -= 1')], pkg='collection', test=T),
]
