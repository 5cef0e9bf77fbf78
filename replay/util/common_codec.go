package util

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

// reference decoders, written from the documented layouts: length of the encoded part at the head of b, or -1
func vref_varchar(b []byte) int {
	if len(b) == 0 {
		return 0
	}
	l, n := binary.Uvarint(b)
	if n <= 0 || l > uint64(len(b)-n) {
		return -1
	}
	return n + int(l)
}

func vref_key(b []byte) int {
	if len(b) == 0 {
		return 0
	}
	c, n := binary.Uvarint(b)
	if n <= 0 || c > uint64(len(b)-n) {
		return -1
	}
	p := n
	for i := uint64(0); i < c; i++ {
		l := vref_varchar(b[p:])
		if l < 0 {
			return -1
		}
		p += l
	}
	return p
}

func vref_value(b []byte) int {
	if len(b) < 1 {
		return -1
	}
	da, rl, lb := int(b[0]>>6), int(b[0]>>4)&3, int(b[0]&3)
	if da == 3 || rl == 3 || lb == 3 || da > 0 && rl > 0 || b[0]&12 != 0 {
		return -1
	}
	p := 1 + da + rl
	if len(b) < p+lb {
		return -1
	}
	l := 0
	for i := 0; i < lb; i++ {
		l = l*256 + int(b[p+i])
	}
	if p+lb+l > len(b) {
		return -1
	}
	return p + lb + l
}

func vref_record(b []byte) int {
	if len(b) < 1 {
		return -1
	}
	p := 1
	if b[0]&64 != 0 {
		l := vref_key(b[p:])
		if l < 0 || l > 4096 {
			return -1
		}
		p += l
	}
	for _, bit := range []byte{32, 16} {
		if b[0]&bit != 0 {
			l := vref_value(b[p:])
			if l < 0 || bit == 32 && l > 56*1024 || bit == 16 && l > 1024 {
				return -1
			}
			p += l
		}
	}
	if b[0]&4 != 0 {
		if len(b) < p+8 {
			return -1
		}
		p += 8
	}
	if b[0]&2 != 0 && len(b) >= p+64 {
		p += 64
	}
	return p
}

func vref_mph(b []byte) int {
	if len(b) < 1 || b[0] > 1 {
		return -1
	}
	p := 1
	u32 := func() int {
		if p < 0 || len(b) < p+4 {
			p = -1
			return 0
		}
		p += 4
		return int(binary.BigEndian.Uint32(b[p-4:]))
	}
	for i := 0; i < 2; i++ {
		n := u32()
		if p < 0 || len(b) < p+4*n {
			return -1
		}
		p += 4 * n
		u32()
		if p < 0 {
			return -1
		}
	}
	if b[0] == 0 {
		u32()
		if p < 0 {
			return -1
		}
		n := u32()
		if p < 0 || len(b) < p+4*n {
			return -1
		}
		return p + 4*n
	}
	n := u32()
	if p < 0 || n > len(b)-p {
		return -1
	}
	for i := 0; i < n; i++ {
		l := vref_key(b[p:])
		if l < 0 {
			return -1
		}
		p += l
	}
	return p
}

// vgen: something close to a well-formed encoding
func vgenvalue(h *vh, depth int) []byte {
	switch h.r.Intn(4) {
	case 0:
		n := []int{0, 1, 3, 255, 256, 300}[h.r.Intn(6)]
		c := h.bytes(n)
		if h.r.Intn(2) == 0 {
			return append([]byte{1, byte(len(c))}, c...)
		}
		return append([]byte{2, byte(len(c) >> 8), byte(len(c))}, c...)
	case 1:
		return []byte{0}
	}
	rec := h.r.Intn(2) == 0
	n := h.r.Intn(4)
	c := []byte{}
	for i := 0; i < n && depth > 0; i++ {
		if rec {
			c = append(c, vgenrecord(h, depth-1)...)
		} else {
			c = append(c, vgenvalue(h, depth-1)...)
		}
	}
	m := byte(64)
	if rec {
		m = 16
	}
	if h.r.Intn(4) == 0 {
		n += h.r.Intn(3)
	}
	b := []byte{m | 2, byte(n)}
	if h.r.Intn(3) == 0 {
		b = []byte{m<<1 | 2, 0, byte(n)}
	}
	return append(append(b, byte(len(c)>>8), byte(len(c))), c...)
}

func vgenrecord(h *vh, depth int) []byte {
	m := byte(h.r.Intn(128)) &^ 9
	b := []byte{m}
	if m&64 != 0 {
		b = append(b, vkeyenc(vsubs(h, 4, 5, false))...)
	}
	if m&32 != 0 {
		b = append(b, vgenvalue(h, depth-1)...)
	}
	if m&16 != 0 {
		b = append(b, vgenvalue(h, depth-1)...)
	}
	if m&4 != 0 {
		b = append(b, make([]byte, 8)...)
		h.r.Read(b[len(b)-8:])
	}
	if m&2 != 0 {
		b = append(b, make([]byte, 64)...)
		h.r.Read(b[len(b)-64:])
	}
	return b
}

func vgenmph(h *vh) []byte {
	b := []byte{byte(h.r.Intn(2))}
	u := func(x int) { b = append(b, 0, 0, byte(x>>8), byte(x)) }
	for i := 0; i < 2; i++ {
		n := h.r.Intn(5)
		u(n)
		for j := 0; j < n; j++ {
			u(h.r.Intn(9))
		}
		u(h.r.Intn(9))
	}
	n := h.r.Intn(4)
	if b[0] == 0 {
		u(77)
		u(n)
		for j := 0; j < n; j++ {
			u(h.r.Intn(999))
		}
	} else {
		u(n)
		for j := 0; j < n; j++ {
			b = append(b, vkeyenc(vsubs(h, 3, 4, false))...)
		}
	}
	return b
}

// vreadvalue reads every element of a decoded value, in some order
func vreadvalue(h *vh, v IValue, b []byte, depth int) string {
	if !bytes.Equal(v.Buf(), b) {
		return fmt.Sprintf("value keeps %x, encoded as %x", v.Buf(), b)
	}
	v.IsNil()
	v.Value()
	v.ValueMagic()
	v.EstBufSize()
	n := int(v.Size())
	if n > 40 {
		n = 40
	}
	for k := 0; k < n+2; k++ {
		i := h.r.Intn(n + 2)
		if e, err := v.ValueAt(uint16(i)); err == nil {
			if e == nil {
				return fmt.Sprintf("element %d is nothing and no error", i)
			}
			if l := vref_value(e.Buf()); l != len(e.Buf()) {
				return fmt.Sprintf("element %d is %x, no encoded value", i, e.Buf())
			}
			if depth > 0 {
				if m := vreadvalue(h, e, e.Buf(), depth-1); m != "" {
					return m
				}
			}
		}
		if e, err := v.RecordAt(uint16(i)); err == nil {
			if e == nil {
				return fmt.Sprintf("record %d is nothing and no error", i)
			}
			if l := vref_record(e.Buf()); l != len(e.Buf()) {
				return fmt.Sprintf("record %d is %x, no encoded record", i, e.Buf())
			}
			if depth > 0 {
				if m := vreadrecord(h, e, depth-1); m != "" {
					return m
				}
			}
		}
	}
	return ""
}

func vreadrecord(h *vh, r IRecord, depth int) string {
	r.RecordMagic()
	r.Timestamp()
	r.Signature()
	if k := r.Key(); k != nil {
		k.Buf()
		k.Key()
		k.IsEmpty()
	}
	if v := r.Value(); v != nil {
		if m := vreadvalue(h, v, v.Buf(), depth); m != "" {
			return m
		}
	}
	if v := r.Scheme(); v != nil {
		v.Buf()
	}
	return ""
}


func vschemeenc(d, tb []byte, bs [][]byte) []byte {
	vc := func(x []byte) []byte {
		return append(vuv(uint64(len(x))), x...)
	}
	r := []byte{0}
	if d != nil {
		r[0] |= 128
		r = append(r, vc(d)...)
	}
	if tb != nil {
		r[0] |= 64
		r = append(r, vc(tb)...)
	}
	if bs != nil {
		r[0] |= 32
		r = append(r, vuv(uint64(len(bs)))...)
		for _, b := range bs {
			r = append(r, vc(b)...)
		}
	}
	return r
}
