package util

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"time"
)

// vtree, vrec: the content of a value or record, independent of how the code represents it
type vtree struct {
	kind byte // 'p' bytes, 'a' array of values, 'r' list of records
	data []byte
	vals []*vtree
	recs []*vrec
}

type vrec struct {
	key      [][]byte // nil: none
	val, sch *vtree
	ts       *int64
	r, s     *big.Int
}

func vtree_data(h *vh) []byte {
	n := []int{0, 1, 2, 3, 9, 20, 40, 254, 255, 256, 257, 300}[h.r.Intn(12)]
	b := make([]byte, n)
	h.r.Read(b)
	return b
}

func vtree_gen(h *vh, depth int) *vtree {
	k := h.r.Intn(4)
	if depth <= 0 {
		k = 0
	}
	n := h.r.Intn(4)
	switch k {
	case 1, 2:
		t := &vtree{kind: 'a'}
		if h.r.Intn(12) == 0 {
			n = []int{254, 255, 256, 257, 300}[h.r.Intn(5)]
			depth = 0
		}
		for i := 0; i < n; i++ {
			if n > 100 {
				t.vals = append(t.vals, &vtree{kind: 'p', data: h.bytes(6)})
			} else {
				t.vals = append(t.vals, vtree_gen(h, depth-1))
			}
		}
		return t
	case 3:
		t := &vtree{kind: 'r'}
		if h.r.Intn(12) == 0 {
			n = []int{254, 255, 256, 257, 300}[h.r.Intn(5)]
			depth = 0
		}
		for i := 0; i < n; i++ {
			if n > 100 {
				ts := int64(i)
				t.recs = append(t.recs, &vrec{ts: &ts})
			} else {
				t.recs = append(t.recs, vrec_gen(h, depth-1))
			}
		}
		return t
	}
	return &vtree{kind: 'p', data: vtree_data(h)}
}

func vnum(h *vh) *big.Int {
	b := make([]byte, []int{0, 1, 16, 31, 32}[h.r.Intn(5)])
	h.r.Read(b)
	return new(big.Int).SetBytes(b)
}

func vrec_gen(h *vh, depth int) *vrec {
	r := &vrec{}
	if h.r.Intn(2) == 0 {
		r.key = vsubs(h, 4, 5, false)
	}
	if h.r.Intn(2) == 0 {
		r.val = vtree_gen(h, depth-1)
	}
	if h.r.Intn(3) == 0 {
		r.sch = vtree_gen(h, depth-1)
	}
	if h.r.Intn(2) == 0 {
		ts := []int64{0, 1, -1, 1 << 40, 255, 256, h.r.Int63(), -h.r.Int63()}[h.r.Intn(8)]
		r.ts = &ts
		if h.r.Intn(2) == 0 {
			r.r, r.s = vnum(h), vnum(h)
		}
	}
	if h.r.Intn(12) == 0 { // a signature without a timestamp is not carried
		r.r, r.s = vnum(h), vnum(h)
	}
	return r
}

func (t *vtree) empty() bool {
	return t == nil || len(t.data) == 0 && len(t.vals) == 0 && len(t.recs) == 0
}

// build: the object holding this content
func (t *vtree) build() IValue {
	switch t.kind {
	case 'a':
		a := NewValueArray()
		for _, v := range t.vals {
			a.Append(v.build())
		}
		return a
	case 'r':
		l := NewRecordList()
		for _, r := range t.recs {
			l.Append(r.build())
		}
		return l
	}
	return NewPrimitive(t.data)
}

func (r *vrec) build() *Record {
	o := NewRecord()
	if r.key != nil {
		k := NewKey()
		for _, s := range r.key {
			k.Add(s)
		}
		o.SetKey(k)
	}
	if r.val != nil {
		o.SetValue(r.val.build())
	}
	if r.sch != nil {
		o.SetScheme(r.sch.build())
	}
	if r.ts != nil {
		x := time.Unix(0, *r.ts)
		o.SetTimestamp(&x)
	}
	if r.r != nil {
		o.SetSignature(r.r, r.s)
	}
	return o
}

func vnum12(k int, n int) (int, []byte) {
	switch {
	case n == 0:
		return 0, nil
	case n < 256:
		return k, []byte{byte(n)}
	}
	return 2 * k, []byte{byte(n >> 8), byte(n)}
}

// enc: the documented encoding, nil when a count or content does not fit
func (t *vtree) enc() []byte {
	k, n := 0, 0
	var c []byte
	switch t.kind {
	case 'p':
		c = t.data
	case 'a':
		k, n = 64, len(t.vals)
		for _, v := range t.vals {
			e := v.enc()
			if e == nil {
				return nil
			}
			c = append(c, e...)
		}
	case 'r':
		k, n = 16, len(t.recs)
		for _, r := range t.recs {
			e := r.enc()
			if e == nil {
				return nil
			}
			c = append(c, e...)
		}
	}
	if n > 65535 || len(c) > 65535 {
		return nil
	}
	m1, b1 := vnum12(k, n)
	m2, b2 := vnum12(1, len(c))
	b := append([]byte{byte(m1 | m2)}, b1...)
	b = append(b, b2...)
	return append(b, c...)
}

func (r *vrec) enc() []byte {
	b := []byte{0}
	if len(r.key) > 0 {
		e := vkeyenc(r.key)
		if len(e) > 4096 {
			return nil
		}
		b[0] |= 64
		b = append(b, e...)
	}
	for i, v := range []*vtree{r.val, r.sch} {
		if v.empty() {
			continue
		}
		e := v.enc()
		if e == nil || i == 0 && len(e) > 56*1024 || i == 1 && len(e) > 1024 {
			return nil
		}
		b[0] |= 32 >> uint(i)
		b = append(b, e...)
	}
	if r.ts != nil {
		b[0] |= 4
		var t [8]byte
		binary.BigEndian.PutUint64(t[:], uint64(*r.ts))
		b = append(b, t[:]...)
		if r.r != nil && r.s != nil {
			b[0] |= 2
			for _, x := range []*big.Int{r.r, r.s} {
				y := x.Bytes()
				b = append(append(b, make([]byte, 32-len(y))...), y...)
			}
		}
	}
	return b
}

// same: the value v reads back as this content
func (t *vtree) same(h *vh, v IValue) string {
	if !t.empty() && !bytes.Equal(v.Buf(), t.enc()) {
		return fmt.Sprintf("value bytes %.200x, should be %.200x", v.Buf(), t.enc())
	}
	if t.empty() {
		if !v.IsNil() {
			return "an empty value reads back as something"
		}
		if int(v.Size()) != 0 {
			return fmt.Sprintf("%d elements in an empty value", v.Size())
		}
		return ""
	}
	if v.IsNil() || v.IsPrimitive() != (t.kind == 'p') || v.IsValueArray() != (t.kind == 'a') || v.IsRecordList() != (t.kind == 'r') {
		return fmt.Sprintf("kind %c reads back as nothing %v, bytes %v, array %v, list %v", t.kind, v.IsNil(), v.IsPrimitive(), v.IsValueArray(), v.IsRecordList())
	}
	if t.kind == 'p' {
		if !bytes.Equal(v.Value(), t.data) {
			return fmt.Sprintf("content %.200x, should be %.200x", v.Value(), t.data)
		}
		return ""
	}
	n := len(t.vals) + len(t.recs)
	if int(v.Size()) != n {
		return fmt.Sprintf("%d elements, should be %d", v.Size(), n)
	}
	at := func(i int) string {
		if t.kind == 'a' {
			e, err := v.ValueAt(uint16(i))
			if (err != nil) != (i >= n) {
				return fmt.Sprintf("element %d of %d: error %v", i, n, err)
			}
			if err != nil {
				return ""
			}
			return t.vals[i].same(h, e)
		}
		e, err := v.RecordAt(uint16(i))
		if (err != nil) != (i >= n) {
			return fmt.Sprintf("record %d of %d: error %v", i, n, err)
		}
		if err != nil {
			return ""
		}
		return t.recs[i].same(h, e)
	}
	ord := h.r.Perm(n + 2)
	if len(ord) > 40 {
		ord = append(ord[:38], n-1, 0)
	}
	for _, i := range ord {
		if m := at(i); m != "" {
			return fmt.Sprintf("element %d: %s", i, m)
		}
	}
	if _, err := v.ValueAt(65535); err == nil && n < 65535 {
		return "element 65535 and no error"
	}
	return ""
}

func (t *vrec) same(h *vh, r IRecord) string {
	if !bytes.Equal(r.Buf(), t.enc()) {
		return fmt.Sprintf("record bytes %.200x, should be %.200x", r.Buf(), t.enc())
	}
	if len(t.key) > 0 {
		if r.Key() == nil {
			return "the key is missing"
		}
		if !vsubeq(r.Key().Key(), t.key) {
			return fmt.Sprintf("key %x, should be %x", r.Key().Key(), t.key)
		}
	} else if r.Key() != nil && !r.Key().IsEmpty() {
		return "there is a key"
	}
	for i, v := range []*vtree{t.val, t.sch} {
		x := r.Value()
		if i == 1 {
			x = r.Scheme()
		}
		if v.empty() {
			if x != nil && !x.IsNil() {
				return fmt.Sprintf("part %d is present", i)
			}
		} else if x == nil {
			return fmt.Sprintf("part %d is missing", i)
		} else if m := v.same(h, x); m != "" {
			return fmt.Sprintf("part %d: %s", i, m)
		}
	}
	if (t.ts != nil) != (r.Timestamp() != nil) || t.ts != nil && r.Timestamp().UnixNano() != *t.ts {
		return fmt.Sprintf("timestamp %v", r.Timestamp())
	}
	R, S := r.Signature()
	if t.ts != nil && t.r != nil {
		if R == nil || S == nil || R.Cmp(t.r) != 0 || S.Cmp(t.s) != 0 {
			return fmt.Sprintf("signature %v %v, should be %v %v", R, S, t.r, t.s)
		}
	} else if R != nil || S != nil {
		return "there is a signature"
	}
	return ""
}

func (t *vtree) String() string {
	switch t.kind {
	case 'p':
		return fmt.Sprintf("%.60x(%d bytes)", t.data, len(t.data))
	case 'a':
		return fmt.Sprintf("array%v(%d)", t.vals[:min(len(t.vals), 8)], len(t.vals))
	}
	return fmt.Sprintf("list%v(%d)", t.recs[:min(len(t.recs), 8)], len(t.recs))
}

func (r *vrec) String() string {
	s := fmt.Sprintf("{key %x", r.key)
	if r.val != nil {
		s += " value " + r.val.String()
	}
	if r.sch != nil {
		s += " scheme " + r.sch.String()
	}
	if r.ts != nil {
		s += fmt.Sprintf(" time %d", *r.ts)
	}
	if r.r != nil {
		s += fmt.Sprintf(" signature %x %x", r.r, r.s)
	}
	return s + "}"
}
