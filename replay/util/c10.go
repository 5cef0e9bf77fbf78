package util

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
)

func TestVerifC10(t *testing.T) {
	h := newVH(t)
	chkVar := func(data []byte) string {
		enc := EncodeVarchar(data)
		want := append(binary.AppendUvarint(nil, uint64(len(data))), data...)
		if !bytes.Equal(enc, want) {
			return fmt.Sprintf("%d bytes: encoded as %.60x..., expected %.60x...", len(data), enc, want)
		}
		enc = append(enc, h.bytes(20)...)
		v, n, err := DecodeVarchar(enc)
		if err != nil || n != len(want) || !bytes.Equal(v, data) {
			return fmt.Sprintf("decoded %d of %d bytes, %d consumed, error %v", len(v), len(data), n, err)
		}
		return ""
	}
	for i := 0; i < 300000 && h.more(1); i++ {
		x := h.u64()
		tail := h.bytes(11)
		h.try(func() string { return fmt.Sprintf("number %#x followed by %x", x, tail) }, func() string {
			u := EncodeUvarint64(x)
			if !bytes.Equal(u, binary.AppendUvarint(nil, x)) {
				return fmt.Sprintf("unsigned: encoded as %x", u)
			}
			v, n, err := DecodeUvarint64(append(u[:len(u):len(u)], tail...))
			if err != nil || n != len(u) || v != x {
				return fmt.Sprintf("unsigned: %x decodes to %#x, %d bytes, error %v", u, v, n, err)
			}
			s := EncodeVarint64(int64(x))
			if !bytes.Equal(s, binary.AppendVarint(nil, int64(x))) {
				return fmt.Sprintf("signed: encoded as %x", s)
			}
			w, n, err := DecodeVarint64(append(s[:len(s):len(s)], tail...))
			if err != nil || n != len(s) || w != int64(x) {
				return fmt.Sprintf("signed: %x decodes to %#x, %d bytes, error %v", s, w, n, err)
			}
			return ""
		})
		raw := h.bytes(14)
		if h.r.Intn(2) == 0 {
			for i := range raw {
				raw[i] |= 0x80
			}
			if len(raw) > 0 {
				raw[len(raw)-1] &= byte(h.r.Intn(256))
			}
		}
		h.try(func() string { return fmt.Sprintf("decoding %x", raw) }, func() string {
			in := append([]byte{}, raw...)
			wu, wn := binary.Uvarint(in)
			v, n, err := DecodeUvarint64(in)
			if (err == nil) != (wn >= 0 && (wn > 0 || len(in) == 0)) || err == nil && (v != wu || n != wn) {
				return fmt.Sprintf("unsigned: %#x, %d bytes, error %v", v, n, err)
			}
			ws, wn := binary.Varint(in)
			s, n, err := DecodeVarint64(in)
			if (err == nil) != (wn >= 0 && (wn > 0 || len(in) == 0)) || err == nil && (s != ws || n != wn) {
				return fmt.Sprintf("signed: %#x, %d bytes, error %v", s, n, err)
			}
			b, n, err := DecodeVarchar(in)
			ok := len(in) == 0
			if l, k := binary.Uvarint(in); k > 0 && l <= uint64(len(in)-k) {
				ok = true
				if err == nil && (n != k+int(l) || !bytes.Equal(b, in[k:n])) {
					return fmt.Sprintf("byte string: %x, %d bytes", b, n)
				}
			}
			if (err == nil) != ok || len(in) == 0 && (len(b) != 0 || n != 0) {
				return fmt.Sprintf("byte string: %x, %d bytes, error %v", b, n, err)
			}
			if !bytes.Equal(in, raw) {
				return fmt.Sprintf("the input was changed to %x", in)
			}
			return ""
		})
		if i%50 == 0 {
			size := h.r.Intn(1 << uint(h.r.Intn(20)))
			if h.r.Intn(3) == 0 {
				size = []int{127, 128, 16383, 16384, 65535, 65536, 65537, 1 << 20, 1<<21 + 1}[h.r.Intn(9)]
			}
			data := bytes.Repeat([]byte{byte(i)}, size)
			h.try(func() string { return fmt.Sprintf("byte string of %d bytes %.60x", len(data), data) }, func() string { return chkVar(data) })
		}
	}
	t.Logf("%d cases", h.n)
}
