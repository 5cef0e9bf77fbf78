package collection

import (
	"fmt"
	"testing"
)

func vheight(n *AVLNode, bad *string) int {
	if n == nil {
		return 0
	}
	l, r := vheight(n.link[0], bad), vheight(n.link[1], bad)
	if *bad == "" && (r-l > 1 || l-r > 1) {
		*bad = fmt.Sprintf("at %v the left side is %d and the right side %d deep", n.key, l, r)
	}
	if *bad == "" && n.balance != r-l {
		*bad = fmt.Sprintf("at %v the balance factor is %d, the left side is %d and the right side %d deep", n.key, n.balance, l, r)
	}
	if l > r {
		return l + 1
	}
	return r + 1
}

func TestVerifC02(t *testing.T) {
	h := newVH(t)
	for h.more(0.6) {
		ops := vhistory(h)
		h.try(func() string { return fmt.Sprintf("on a new tree: %v", ops) }, func() string {
			tree := NewAVLTree()
			for i, o := range ops {
				k := &vkey{o.rank, i}
				switch o.op {
				case 0:
					tree.Put(k, i)
				case 1:
					tree.Remove(k)
				case 2:
					continue
				}
				bad := ""
				vheight(tree.root, &bad)
				if bad != "" {
					return fmt.Sprintf("after step %d (%v): %s", i, o, bad)
				}
			}
			return ""
		})
	}
}
