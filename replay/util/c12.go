package util

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC12(t *testing.T) {
	h := newVH(t)
	for h.more(1) {
		v := vtree_gen(h, 3)
		if h.r.Intn(30) == 0 {
			n := []int{65533, 65534, 65535, 65536, 65537}[h.r.Intn(5)]
			v = &vtree{kind: 'p', data: make([]byte, n)}
			h.r.Read(v.data)
			switch h.r.Intn(4) {
			case 0:
				v.data = v.data[:n-3]
				v = &vtree{kind: 'a', vals: []*vtree{v}}
			case 1:
				v = &vtree{kind: 'a'}
				for i := 0; i < n; i++ {
					v.vals = append(v.vals, &vtree{kind: 'p'})
				}
			case 2:
				v = &vtree{kind: 'r'}
				for i := 0; i < n; i++ {
					v.recs = append(v.recs, &vrec{})
				}
			}
		}
		tail := h.bytes(5)
		h.try(func() string { return fmt.Sprintf("value %v followed by %x", v, tail) }, func() string {
			o := v.build()
			want := v.enc()
			err := o.Encode(nil)
			if (err == nil) != (want != nil) {
				return fmt.Sprintf("Encode: %v, %d bytes expected", err, len(want))
			}
			if err != nil {
				return ""
			}
			b := append([]byte{}, o.Buf()...)
			if !bytes.Equal(b, want) {
				return fmt.Sprintf("encoded as %.300x, should be %.300x", b, want)
			}
			d, n, err := NewStandardMappedValue(append(b, tail...))
			if err != nil || n != len(b) {
				return fmt.Sprintf("decoding %.300x: %d bytes of %d, error %v", b, n, len(b), err)
			}
			return v.same(h, d)
		})
	}
}
