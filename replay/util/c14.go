package util

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC14(t *testing.T) {
	h := newVH(t)
	opt := func(b []byte) []byte {
		if h.r.Intn(3) == 0 {
			return nil
		}
		return b
	}
	for i := 0; i < 200000 && h.more(1); i++ {
		maxn, maxl, pl := 5, 5, 6
		switch h.r.Intn(20) {
		case 0:
			maxn, maxl = 300, 3
		case 1:
			maxn, maxl = 6, 300
		case 2:
			maxn, maxl = 1100, 1
		case 3, 4, 5:
			pl = 300
		case 6, 7:
			pl = 1100
		}
		d, tb := opt(h.bytes(pl)), opt(h.bytes(pl))
		bs := vsubs(h, maxn, maxl, true)
		if h.r.Intn(3) == 0 {
			bs = nil
		}
		tail := h.bytes(8)
		h.try(func() string { return fmt.Sprintf("domain %#v tablet %#v buckets %.300x (nil: %v), followed by %x", d, tb, bs, bs == nil, tail) }, func() string {
			s := &Scheme{domain: d, tablet: tb, buckets: bs}
			want := vschemeenc(d, tb, bs)
			err := s.Encode(nil)
			if (err == nil) != (len(want) <= MAX_SCHEME_LENGTH) {
				return fmt.Sprintf("encoding of %d bytes: error %v", len(want), err)
			}
			if err != nil {
				return ""
			}
			buf := s.Buf()
			if !bytes.Equal(buf, want) || s.SchemeMagic() != want[0] {
				return fmt.Sprintf("encoded as %.100x, expected %.100x", buf, want)
			}
			m := NewMappedSchemd(append(append([]byte{}, buf...), tail...))
			n, err := m.Decode(nil)
			if err != nil || n != len(buf) || !bytes.Equal(m.Buf(), buf) || m.SchemeMagic() != want[0] {
				return fmt.Sprintf("decodes with error %v, consumed %d of %d", err, n, len(buf))
			}
			for k, q := range []IScheme{m, s} {
				if (q.Domain() == nil) != (d == nil) || !bytes.Equal(q.Domain(), d) || q.DomainName() != string(d) {
					return fmt.Sprintf("domain %x (%d)", q.Domain(), k)
				}
				if (q.Tablet() == nil) != (tb == nil) || !bytes.Equal(q.Tablet(), tb) || q.TabletName() != string(tb) {
					return fmt.Sprintf("tablet %x (%d)", q.Tablet(), k)
				}
				if (q.Buckets() == nil) != (bs == nil) || !vsubeq(q.Buckets(), bs) {
					return fmt.Sprintf("buckets %x (%d)", q.Buckets(), k)
				}
				for j := range bs {
					if !bytes.Equal(q.BucketAt(j), bs[j]) {
						return fmt.Sprintf("bucket %d: %x (%d)", j, q.BucketAt(j), k)
					}
				}
			}
			return ""
		})
	}
	t.Logf("%d cases", h.n)
}
