package util

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC16(t *testing.T) {
	h := newVH(t)
	chk := func(kind string, o interface {
		Encode(IContext) error
		Buf() []byte
	}, want []byte) string {
		err := o.Encode(nil)
		if (err == nil) != (want != nil) {
			return fmt.Sprintf("%s: error %v, %d bytes expected", kind, err, len(want))
		}
		if err == nil && !bytes.Equal(o.Buf(), want) {
			return fmt.Sprintf("%s: %d bytes %.200x, should be %d bytes %.200x", kind, len(o.Buf()), o.Buf(), len(want), want)
		}
		return ""
	}
	near := func(n int) int { return n + h.r.Intn(9) - 4 }
	blob := func(n int) []byte {
		b := make([]byte, n)
		h.r.Read(b)
		return b
	}
	split := func(n int) [][]byte { // sub-keys of about n bytes altogether
		l := [][]byte{}
		for n > 0 {
			k := 1 + h.r.Intn(n)
			if k > 400 && h.r.Intn(3) > 0 {
				k = 400
			}
			l = append(l, blob(k))
			n -= k + 2
		}
		return l
	}
	for h.more(1) {
		switch h.r.Intn(6) {
		case 0:
			ks := split(near(4096 - 4))
			if h.r.Intn(3) == 0 {
				ks = split(h.r.Intn(9000) + 1)
			}
			h.try(func() string { return fmt.Sprintf("key of %d sub-keys, %d bytes encoded", len(ks), len(vkeyenc(ks))) }, func() string {
				k := NewKey()
				for _, s := range ks {
					k.Add(s)
				}
				want := vkeyenc(ks)
				if len(want) > 4096 {
					want = nil
				}
				return chk("key", k, want)
			})
		case 1:
			var dom, tab []byte
			var bk [][]byte
			tot := near(1024 - 4)
			if h.r.Intn(3) == 0 {
				tot = 1 + h.r.Intn(3000)
			}
			want := []byte{0}
			if h.r.Intn(2) == 0 {
				dom = blob(h.r.Intn(tot))
				tot -= len(dom) + 2
				want[0] |= 128
				want = append(append(want, vuv(uint64(len(dom)))...), dom...)
			}
			if h.r.Intn(2) == 0 && tot > 1 {
				tab = blob(h.r.Intn(tot))
				tot -= len(tab) + 2
				want[0] |= 64
				want = append(append(want, vuv(uint64(len(tab)))...), tab...)
			}
			if h.r.Intn(3) > 0 && tot > 1 {
				bk = split(tot)
				want[0] |= 32
				want = append(want, vkeyenc(bk)...)
			}
			if len(want) > 1024 {
				want = nil
			}
			h.try(func() string { return fmt.Sprintf("scheme of %d, %d bytes and %d buckets", len(dom), len(tab), len(bk)) }, func() string {
				return chk("scheme", &Scheme{domain: dom, tablet: tab, buckets: bk}, want)
			})
		case 2:
			v := &vtree{kind: 'p', data: blob(near([]int{256, 65536, 65536, 70000}[h.r.Intn(4)]))}
			if h.r.Intn(3) == 0 {
				v.data = v.data[:len(v.data)-3+h.r.Intn(3)]
				v = &vtree{kind: 'a', vals: []*vtree{v}}
			}
			h.try(func() string { return fmt.Sprintf("value %v", v) }, func() string { return chk("value", v.build(), v.enc()) })
		case 3:
			n := near([]int{256, 65536, 65536, 131072, 70000}[h.r.Intn(5)])
			if h.r.Intn(2) == 0 {
				n = near(256)
			}
			v := &vtree{kind: "ar"[h.r.Intn(2)]}
			for i := 0; i < n; i++ {
				if v.kind == 'a' {
					v.vals = append(v.vals, &vtree{kind: 'p'})
				} else {
					v.recs = append(v.recs, &vrec{})
				}
			}
			h.try(func() string { return fmt.Sprintf("container of kind %c with %d empty elements", v.kind, n) }, func() string { return chk("container", v.build(), v.enc()) })
		default:
			r := &vrec{}
			if h.r.Intn(2) == 0 {
				r.key = split(near(4096 - 8))
			}
			if h.r.Intn(2) == 0 {
				r.val = &vtree{kind: 'p', data: blob(near(56*1024 - 3))}
			}
			if h.r.Intn(2) == 0 {
				r.sch = &vtree{kind: 'p', data: blob(near(1024 - 3))}
			}
			if h.r.Intn(4) == 0 {
				ts := int64(77)
				r.ts, r.r, r.s = &ts, vnum(h), vnum(h)
			}
			h.try(func() string { return fmt.Sprintf("record %.300v", r) }, func() string {
				if m := chk("record", r.build(), r.enc()); m != "" {
					return m
				}
				if len(r.key) > 0 && r.enc() != nil && h.r.Intn(2) == 0 {
					// the same key as decoded bytes
					k, _, err := NewMappedKey(vkeyenc(r.key))
					if err != nil {
						return err.Error()
					}
					return chk("record with a decoded key", r.build().SetKey(k), r.enc())
				}
				return ""
			})
		}
	}
}
