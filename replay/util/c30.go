package util

import (
	"bytes"
	"fmt"
	"testing"
	"time"
)

func vpanics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

type vencodable interface {
	Encode(IContext) error
	IsEncoded() bool
	Buf() []byte
}

// vfresh: what the object hands out now
func vfresh(h *vh, o vencodable, want []byte, encoded bool) string {
	if o.IsEncoded() != encoded {
		return fmt.Sprintf("counts as encoded: %v, should be %v", o.IsEncoded(), encoded)
	}
	var b []byte
	if p := vpanics(func() { b = o.Buf() }); p == encoded {
		return fmt.Sprintf("hands out %x (refuses %v), encoded %v", b, p, encoded)
	}
	if encoded && !bytes.Equal(b, want) {
		return fmt.Sprintf("hands out %.200x, should be %.200x", b, want)
	}
	if encoded && h.r.Intn(3) > 0 {
		return ""
	}
	err := o.Encode(nil)
	if (err == nil) != (want != nil) {
		return fmt.Sprintf("Encode: %v, should give %.200x", err, want)
	}
	if err == nil && (!o.IsEncoded() || !bytes.Equal(o.Buf(), want)) {
		return fmt.Sprintf("hands out %.200x after encoding, should be %.200x", o.Buf(), want)
	}
	return ""
}

func TestVerifC30(t *testing.T) {
	h := newVH(t)
	for h.more(1) {
		kind := h.r.Intn(4)
		log := ""
		h.try(func() string { return "operations:" + log }, func() string {
			key := NewKey()
			ks := [][]byte{}
			arr, list, rec := NewValueArray(), NewRecordList(), NewRecord()
			ta, tl, tr := &vtree{kind: 'a'}, &vtree{kind: 'r'}, &vrec{}
			enc := false
			for n := 1 + h.r.Intn(12); n > 0; n-- {
				if h.r.Intn(3) > 0 {
					switch kind {
					case 0:
						b := h.bytes(4)
						if len(b) == 0 {
							b = []byte{7}
						}
						log += fmt.Sprintf(" key.Add(%x)", b)
						if key.Add(b) != key {
							return "Add returns another key"
						}
						ks = append(ks, b)
					case 1:
						if len(ta.vals) > 0 && h.r.Intn(2) == 0 {
							i := h.r.Intn(len(ta.vals))
							log += fmt.Sprintf(" array.DeleteAt(%d)", i)
							arr.DeleteAt(uint16(i))
							ta.vals = append(append([]*vtree{}, ta.vals[:i]...), ta.vals[i+1:]...)
						} else {
							v := vtree_gen(h, 2)
							log += fmt.Sprintf(" array.Append(%v)", v)
							arr.Append(v.build())
							ta.vals = append(ta.vals, v)
						}
					case 2:
						if len(tl.recs) > 0 && h.r.Intn(2) == 0 {
							i := h.r.Intn(len(tl.recs))
							log += fmt.Sprintf(" list.DeleteAt(%d)", i)
							list.DeleteAt(uint16(i))
							tl.recs = append(append([]*vrec{}, tl.recs[:i]...), tl.recs[i+1:]...)
						} else {
							v := vrec_gen(h, 2)
							log += fmt.Sprintf(" list.Append(%v)", v)
							list.Append(v.build())
							tl.recs = append(tl.recs, v)
						}
					case 3:
						g := vrec_gen(h, 2)
						switch h.r.Intn(8) {
						case 0:
							if g.key == nil {
								g.key = [][]byte{{9}}
							}
							log += fmt.Sprintf(" SetKey(%x)", g.key)
							k := NewKey()
							for _, s := range g.key {
								k.Add(s)
							}
							rec.SetKey(k)
							tr.key = g.key
						case 1:
							log += " SetK(0102)"
							rec.SetK([]byte{1, 2})
							tr.key = [][]byte{{1, 2}}
						case 2:
							v := vtree_gen(h, 2)
							log += fmt.Sprintf(" SetValue(%v)", v)
							rec.SetValue(v.build())
							tr.val = v
						case 3:
							v := vtree_gen(h, 0)
							log += fmt.Sprintf(" SetV(%v)", v)
							rec.SetV(v.data)
							tr.val = v
						case 4:
							v := vtree_gen(h, 2)
							log += fmt.Sprintf(" SetScheme(%v)", v)
							rec.SetScheme(v.build())
							tr.sch = v
						case 5:
							v := vtree_gen(h, 0)
							log += fmt.Sprintf(" SetS(%v)", v)
							rec.SetS(v.data)
							tr.sch = v
						case 6:
							ts := h.r.Int63()
							log += fmt.Sprintf(" SetTimestamp(%d)", ts)
							x := time.Unix(0, ts)
							rec.SetTimestamp(&x)
							tr.ts = &ts
						case 7:
							tr.r, tr.s = vnum(h), vnum(h)
							log += fmt.Sprintf(" SetSignature(%x, %x)", tr.r, tr.s)
							rec.SetSignature(tr.r, tr.s)
						}
					}
					enc = false
				}
				var o vencodable
				var want []byte
				m := ""
				switch kind {
				case 0:
					o, want = key, vkeyenc(ks)
					if !vsubeq(key.Key(), ks) {
						m = fmt.Sprintf("sub-keys %x", key.Key())
					}
				case 1:
					o, want = arr, ta.enc()
					if int(arr.Size()) != len(ta.vals) {
						m = fmt.Sprintf("%d elements", arr.Size())
					}
				case 2:
					o, want = list, tl.enc()
					if int(list.Size()) != len(tl.recs) {
						m = fmt.Sprintf("%d records", list.Size())
					}
				case 3:
					o, want = rec, tr.enc()
				}
				if m != "" {
					return m
				}
				if h.r.Intn(3) == 0 && !enc {
					if o.IsEncoded() {
						return "counts as encoded after an update"
					}
					continue
				}
				if m := vfresh(h, o, want, enc); m != "" {
					return m
				}
				log += " (encoded)"
				enc = o.IsEncoded()
			}
			return ""
		})
	}
}
