package util

import (
	"fmt"
	"testing"
)

func TestVerifC08(t *testing.T) {
	h := newVH(t)
	hash := func(b []byte) uint32 {
		x := uint32(2166136261)
		for _, c := range b {
			x = (x ^ uint32(c)) * 16777619
		}
		return x
	}
	for i := 0; i < 400000 && h.more(1); i++ {
		a := vsubs(h, 4, 4, true)
		b := vmutate(h, a)
		if h.r.Intn(4) == 0 {
			b = vsubs(h, 4, 4, true)
		}
		desc := fmt.Sprintf("sub-keys %x and %x", a, b)
		h.try(func() string { return desc }, func() string {
			ka, ta := vkeyof(h, a)
			kb, tb := vkeyof(h, b)
			desc += " held in " + ta + " and " + tb
			if !vsubeq(ka.Key(), a) || ka.IsEmpty() != (len(a) == 0) {
				return fmt.Sprintf("the first key hands out %x", ka.Key())
			}
			for j := range a {
				if string(ka.SubKeyAt(j)) != string(a[j]) {
					return fmt.Sprintf("sub-key %d is %x", j, ka.SubKeyAt(j))
				}
			}
			eq, cmp := ka.Equal(kb), ka.Compare(kb)
			if eq != vsubeq(a, b) {
				return fmt.Sprintf("Equal says %v", eq)
			}
			if vsgn(cmp) != vsubcmp(a, b) {
				return fmt.Sprintf("Compare says %d", cmp)
			}
			if kb.Equal(ka) != eq || vsgn(kb.Compare(ka)) != -vsgn(cmp) {
				return "the other way round the answers do not match"
			}
			for k, f := range []func([]byte) uint32{hash, func(x []byte) uint32 { return uint32(len(x)) }, func(x []byte) uint32 { return 77 }} {
				if eq && ka.HashUint32(f) != kb.HashUint32(f) {
					return fmt.Sprintf("equal keys have different hashes under function %d: %d and %d", k, ka.HashUint32(f), kb.HashUint32(f))
				}
			}
			return ""
		})
	}
	t.Logf("%d cases", h.n)
}
