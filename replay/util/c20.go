package util

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"testing"
)

func TestVerifC20(t *testing.T) {
	h := newVH(t)
	words := func(n int) []uint32 {
		l := make([]uint32, n)
		for i := range l {
			l[i] = h.r.Uint32()
			if h.r.Intn(3) == 0 {
				l[i] = uint32(h.r.Intn(4))
			}
		}
		return l
	}
	size := func() int {
		if h.r.Intn(40) == 0 {
			return []int{255, 256, 257, 65535, 65536, 65537, 70000}[h.r.Intn(7)]
		}
		return h.r.Intn(6)
	}
	mask := func() int {
		return int([]uint32{0, 1, 3, 255, 65535, 1<<17 - 1, 1<<31 - 1, h.r.Uint32()}[h.r.Intn(8)])
	}
	for h.more(1) {
		tab := &MPHTable{level0: words(size()), level0Mask: mask(), level1: words(size()), level1Mask: mask(), verifySeed: h.r.Uint32(), verifyHash: words(size())}
		tail := h.bytes(9)
		h.try(func() string {
			return fmt.Sprintf("table of %d, %d, %d words %.300v, followed by %x", len(tab.level0), len(tab.level1), len(tab.verifyHash), tab, tail)
		}, func() string {
			b, err := tab.Encode()
			if err != nil {
				return fmt.Sprintf("Encode: error %v", err)
			}
			w := []byte{0}
			u := func(x uint32) {
				var q [4]byte
				binary.BigEndian.PutUint32(q[:], x)
				w = append(w, q[:]...)
			}
			list := func(l []uint32) {
				u(uint32(len(l)))
				for _, x := range l {
					u(x)
				}
			}
			list(tab.level0)
			u(uint32(tab.level0Mask))
			list(tab.level1)
			u(uint32(tab.level1Mask))
			u(tab.verifySeed)
			list(tab.verifyHash)
			if !bytes.Equal(b, w) {
				return fmt.Sprintf("encodes to %.300x, should be %.300x", b, w)
			}
			x, n, err := NewMPHTable(append(append([]byte{}, b...), tail...))
			if err != nil || n != len(b) {
				return fmt.Sprintf("parsing consumes %d of %d, error %v", n, len(b), err)
			}
			if !reflect.DeepEqual(x.level0, tab.level0) || !reflect.DeepEqual(x.level1, tab.level1) || !reflect.DeepEqual(x.verifyHash, tab.verifyHash) ||
				x.level0Mask != tab.level0Mask || x.level1Mask != tab.level1Mask || x.verifySeed != tab.verifySeed || x.verifyKey != nil {
				return fmt.Sprintf("reads back as %.300v", x)
			}
			return ""
		})
	}
}
