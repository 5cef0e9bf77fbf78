package util

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
)

func TestVerifC15(t *testing.T) {
	h := newVH(t)
	chk := func(kind string, b []byte, want int, n int, err error, kept []byte) string {
		if (err == nil) != (want >= 0) {
			return fmt.Sprintf("%s: error %v, the bytes are well formed for %d", kind, err, want)
		}
		if err != nil {
			return ""
		}
		if n != want || n > len(b) {
			return fmt.Sprintf("%s: consumed %d of %d, should be %d", kind, n, len(b), want)
		}
		if kept != nil && !bytes.Equal(kept, b[:n]) {
			return fmt.Sprintf("%s: keeps %.200x, not the first %d bytes", kind, kept, n)
		}
		return ""
	}
	for i := 0; h.more(1); i++ {
		var b []byte
		switch h.r.Intn(9) {
		case 0:
			b = h.bytes(40)
		case 1:
			b = vkeyenc(vsubs(h, 6, 6, false))
		case 2, 3:
			b = vgenvalue(h, 3)
		case 4, 5:
			b = vgenrecord(h, 3)
		case 6:
			b = vgenmph(h)
		case 7:
			b = append([]byte{byte(1 + h.r.Intn(3))}, h.bytes(30)...)
		case 8: // the limits of record parts
			n := []int{4093, 4094, 4095, 4096, 57341, 57342, 1020, 1021, 1022}[h.r.Intn(9)] + h.r.Intn(3) - 1
			c := make([]byte, n)
			if n > 2000 && n < 5000 {
				b = append([]byte{64, 1}, vuv(uint64(n-3))...)
				b = append(b, c...)
			} else {
				b = append([]byte{byte(32 >> uint(h.r.Intn(2))), 2, byte(n >> 8), byte(n)}, c...)
			}
		}
		for k := h.r.Intn(4); k > 0 && len(b) > 0; k-- {
			switch h.r.Intn(4) {
			case 0:
				b = b[:h.r.Intn(len(b)+1)]
			case 1:
				b[h.r.Intn(len(b))] = byte(h.r.Intn(256))
			case 2:
				b[h.r.Intn(len(b))] = byte(255 - h.r.Intn(3)*127)
			case 3:
				b = append(b, h.bytes(6)...)
			}
		}
		b = append([]byte{}, b...)
		b = b[:len(b):len(b)]
		h.try(func() string { return fmt.Sprintf("bytes %x", b) }, func() string {
			d, n, err := DecodeVarchar(b)
			if m := chk("byte string", b, vref_varchar(b), n, err, nil); m != "" {
				return m
			}
			if err == nil && n > 0 && !bytes.Equal(d, b[n-len(d):n]) {
				return fmt.Sprintf("byte string %x", d)
			}
			u, un := binary.Uvarint(b)
			w := un
			if un <= 0 && len(b) > 0 {
				w = -1
			}
			uu, n, err := DecodeUvarint64(b)
			if m := chk("integer", b, w, n, err, nil); m != "" {
				return m
			}
			if err == nil && uu != u {
				return fmt.Sprintf("integer %d, should be %d", uu, u)
			}
			if _, n, err := DecodeVarint64(b); (err == nil) != (w >= 0) || err == nil && n != w {
				return fmt.Sprintf("signed integer: %d bytes, error %v, should be %d", n, err, w)
			}
			k, n, err := NewMappedKey(b)
			var kept []byte
			if err == nil {
				kept = k.buf
				k.Buf()
				k.Key()
				for i := 0; i < len(k.Key()); i++ {
					k.SubKeyAt(i)
				}
			}
			if m := chk("key", b, vref_key(b), n, err, kept); m != "" {
				return m
			}
			sv, n, err := NewSimpleMappedValue(b)
			kept = nil
			if err == nil {
				kept = sv.Buf()
				sv.IsNil()
				sv.Value()
			}
			if m := chk("simple value", b, vref_varchar(b), n, err, kept); m != "" {
				return m
			}
			if len(b) > 0 {
				s := NewMappedSchemd(b)
				if n, err := s.Decode(nil); err == nil {
					if n > len(b) || !bytes.Equal(s.Buf(), b[:n]) {
						return fmt.Sprintf("scheme: consumed %d of %d, keeps %x", n, len(b), s.Buf())
					}
					s.Domain()
					s.Tablet()
					s.Buckets()
				}
			}
			v, n, err := NewStandardMappedValue(b)
			kept = nil
			if err == nil {
				kept = v.Buf()
			}
			if m := chk("value", b, vref_value(b), n, err, kept); m != "" {
				return m
			}
			if err == nil {
				if m := vreadvalue(h, v, b[:n], 2); m != "" {
					return m
				}
			}
			r, n, err := NewMappedRecord(b)
			kept = nil
			if err == nil {
				kept = r.Buf()
			}
			if m := chk("record", b, vref_record(b), n, err, kept); m != "" {
				return m
			}
			if err == nil {
				if m := vreadrecord(h, r, 2); m != "" {
					return m
				}
			}
			_, n, err = NewMPHTable(b)
			if m := chk("hash table", b, vref_mph(b), n, err, nil); m != "" {
				return m
			}
			ct, err := NewConsensusTime(b)
			if err == nil && (ct == nil || !bytes.Equal(ct.Buf(), b[:len(ct.Buf())])) {
				return fmt.Sprintf("consensus time keeps %x", ct.Buf())
			}
			id, err := NewMappedConsensusID(b)
			if err == nil && (id == nil || len(id.Buf()) > len(b) || !bytes.Equal(id.Buf(), b[:len(id.Buf())])) {
				return fmt.Sprintf("consensus id keeps %x", id.Buf())
			}
			return ""
		})
	}
}
