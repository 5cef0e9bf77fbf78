package util

import (
	"bytes"
	"fmt"
	"testing"
	"time"
)

func vcopyof(h *vh, o IEncodable, cc bool) (IEncodable, string) {
	if !cc {
		return o.Copy(), ""
	}
	c, err := o.CopyConstruct()
	if err != nil {
		return nil, fmt.Sprintf("CopyConstruct: error %v", err)
	}
	return c, ""
}

// vholds: o encodes to want (nil: refused)
func vholds(o IEncodable, want []byte) string {
	if !o.IsEncoded() {
		err := o.Encode(nil)
		if (err == nil) != (want != nil) {
			return fmt.Sprintf("Encode: %v, should give %.300x", err, want)
		}
		if err != nil {
			return ""
		}
	}
	if !bytes.Equal(o.Buf(), want) {
		return fmt.Sprintf("encodes to %.300x, should be %.300x", o.Buf(), want)
	}
	return ""
}

func vsmash(b []byte) {
	for i := range b {
		b[i] ^= 0xff
	}
}

func TestVerifC26(t *testing.T) {
	h := newVH(t)
	for h.more(1) {
		kind, cc, enc, swap := h.r.Intn(7), h.r.Intn(2) == 0, h.r.Intn(2) == 0, h.r.Intn(2) == 0
		name := "Copy"
		if cc {
			name = "CopyConstruct"
		}
		desc := ""
		// two: orig holds want; so does its copy; after change(one of them) the other still does
		two := func(o IEncodable, want []byte, change func(IEncodable)) string {
			if enc {
				if m := vholds(o, want); m != "" {
					return m
				}
			}
			c, m := vcopyof(h, o, cc)
			if m != "" {
				return m
			}
			if c == o || fmt.Sprintf("%T", c) != fmt.Sprintf("%T", o) {
				return fmt.Sprintf("the copy of a %T is a %T (the same object: %v)", o, c, c == o)
			}
			if swap {
				o, c = c, o
			}
			change(o)
			if m := vholds(c, want); m != "" {
				return "after a change to the other one: " + m
			}
			return ""
		}
		h.try(func() string { return fmt.Sprintf("%s (encoded first: %v, change the copy: %v) of %s", name, enc, swap, desc) }, func() string {
			switch kind {
			case 0:
				ks := vsubs(h, 6, 5, false)
				desc = fmt.Sprintf("key %x", ks)
				k := NewKey()
				for _, s := range ks {
					k.Add(s)
				}
				if len(ks) > 0 && h.r.Intn(2) == 0 {
					k.keys = k.keys[:len(ks):len(ks)]
				}
				var other IEncodable
				return two(k, vkeyenc(ks), func(o IEncodable) {
					other = o
					o.(*Key).Add([]byte{1, 2, 3})
					_ = other
				})
			case 1:
				v := vtree_gen(h, 2)
				desc = fmt.Sprintf("value %v", v)
				return two(v.build(), v.enc(), func(o IEncodable) {
					switch x := o.(type) {
					case *Primitive:
						vsmash(x.data)
					case *ValueArray:
						if len(v.vals) > 0 && h.r.Intn(2) == 0 {
							if p, ok := x.data_array[len(v.vals)-1].(*ValueArray); ok {
								p.Append(NewPrimitive([]byte{1}))
							}
							x.data_array[0] = NewPrimitive([]byte{200, 1, 2, 3})
						} else {
							x.Append(NewPrimitive([]byte{9}))
						}
					case *RecordList:
						if len(v.recs) > 0 && h.r.Intn(2) == 0 {
							x.record_list[len(v.recs)-1].(*Record).SetV([]byte{250, 1, 2, 3})
							x.DeleteAt(uint16(h.r.Intn(len(v.recs))))
						} else {
							x.Append(NewRecord())
						}
					}
				})
			case 2:
				g := vrec_gen(h, 2)
				desc = fmt.Sprintf("record %v", g)
				return two(g.build(), g.enc(), func(o IEncodable) {
					r := o.(*Record)
					if k, ok := r.key.(*Key); ok && h.r.Intn(2) == 0 {
						k.Add([]byte{77})
					}
					switch h.r.Intn(4) {
					case 0:
						x := time.Unix(0, 12345)
						r.SetTimestamp(&x)
					case 1:
						r.SetV([]byte{1, 2, 3, 4})
					case 2:
						r.SetS([]byte{1, 2, 3, 4})
					case 3:
						if p, ok := r.value.(*Primitive); ok {
							vsmash(p.data)
						}
						if p, ok := r.scheme.(*ValueArray); ok {
							p.Append(NewPrimitive([]byte{1}))
						}
					}
				})
			case 3: // a scheme
				opt := func(b []byte) []byte {
					if h.r.Intn(3) == 0 {
						return nil
					}
					return b
				}
				d, tb := opt(h.bytes(6)), opt(h.bytes(6))
				bs := vsubs(h, 4, 4, true)
				if h.r.Intn(3) == 0 {
					bs = nil
				}
				desc = fmt.Sprintf("scheme %#v %#v %#v", d, tb, bs)
				want := vschemeenc(d, tb, bs)
				return two(&Scheme{domain: d, tablet: tb, buckets: bs}, want, func(o IEncodable) {
					s := o.(*Scheme)
					if len(s.buckets) > 0 {
						s.buckets[0] = []byte{1, 2, 3, 4, 5, 6, 7}
					}
				})
			case 4: // a decoded key
				ks := vsubs(h, 6, 5, false)
				if len(ks) == 0 {
					return ""
				}
				buf := vkeyenc(ks)
				desc = fmt.Sprintf("decoded key %x", buf)
				k, _, err := NewMappedKey(append([]byte{}, buf...))
				if err != nil {
					return err.Error()
				}
				c, m := vcopyof(h, k, cc)
				if m != "" {
					return m
				}
				if !cc {
					vsmash(k.buf)
				}
				if !vsubeq(c.(IKey).Key(), ks) {
					return fmt.Sprintf("the copy has sub-keys %x", c.(IKey).Key())
				}
				return vholds(c, buf)
			case 5: // a decoded value
				v := vtree_gen(h, 2)
				desc = fmt.Sprintf("decoded value %v", v)
				if v.enc() == nil {
					return ""
				}
				buf := append([]byte{}, v.enc()...)
				d, _, err := NewStandardMappedValue(buf)
				if err != nil {
					return err.Error()
				}
				c, m := vcopyof(h, d, cc)
				if m != "" {
					return m
				}
				if cc {
					if m := vholds(c, v.enc()); m != "" {
						return m
					}
				}
				vsmash(buf)
				if cc {
					if p, ok := c.(*Primitive); ok { p.encoded = false }
					return vholds(c, v.enc())
				}
				return v.same(h, c.(IValue))
			default: // a decoded record
				g := vrec_gen(h, 1)
				desc = fmt.Sprintf("decoded record %v", g)

				if g.enc() == nil {
					return ""
				}
				buf := append([]byte{}, g.enc()...)
				d, _, err := NewMappedRecord(buf)
				if err != nil {
					return err.Error()
				}
				c, m := vcopyof(h, d, cc)
				if m != "" {
					return m
				}
				if cc {
					return vholds(c, g.enc())
				}
				vsmash(buf)
				return g.same(h, c.(IRecord))
			}
		})
	}
}
