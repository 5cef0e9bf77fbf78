package util

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"
)

func TestVerifC21(t *testing.T) {
	h := newVH(t)
	const alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	ref := func(b []byte) string {
		x := new(big.Int).SetBytes(b)
		var out []byte
		for x.Sign() > 0 {
			m := new(big.Int)
			x.DivMod(x, big.NewInt(58), m)
			out = append(out, alpha[m.Int64()])
		}
		for i := 0; i < len(b) && b[i] == 0; i++ {
			out = append(out, '1')
		}
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
		return string(out)
	}
	chk := func(b []byte) {
		h.try(func() string { return fmt.Sprintf("bytes %x", b) }, func() string {
			s := Base58Encode(append([]byte{}, b...))
			if w := ref(b); s != w {
				return fmt.Sprintf("encoded as %q, expected %q", s, w)
			}
			if r := Base58Decode(s); r == nil || !bytes.Equal(r, b) {
				return fmt.Sprintf("%q decodes to %x (nil %v)", s, r, r == nil)
			}
			return ""
		})
	}
	for n := 0; n <= 70; n++ {
		chk(make([]byte, n))
		b := make([]byte, n)
		for i := range b {
			b[i] = 0xff
		}
		chk(b)
	}
	for x := 0; x < 66000; x++ {
		chk([]byte{byte(x >> 8), byte(x)})
	}
	for c := 0; c < 256; c++ {
		for pos := 0; pos < 4; pos++ {
			s := []byte("2zA")
			s = append(s[:pos:pos], append([]byte{byte(c)}, s[pos:]...)...)
			h.try(func() string { return fmt.Sprintf("text %q", s) }, func() string {
				r := Base58Decode(string(s))
				if in := bytes.IndexByte([]byte(alpha), byte(c)) >= 0; in != (r != nil) {
					return fmt.Sprintf("decodes to %x (nil %v)", r, r == nil)
				}
				return ""
			})
		}
	}
	for i := 0; i < 100000 && h.more(1); i++ {
		b := h.bytes(80)
		z := h.r.Intn(6)
		if i%50 == 0 {
			z = h.r.Intn(300)
			b = h.bytes(700)
		}
		chk(append(make([]byte, z), b...))
		s := h.bytes(30)
		for k := range s {
			if h.r.Intn(40) > 0 {
				s[k] = alpha[int(s[k])%58]
			}
		}
		h.try(func() string { return fmt.Sprintf("text %q", s) }, func() string {
			r := Base58Decode(string(s))
			ok := true
			for _, c := range s {
				ok = ok && bytes.IndexByte([]byte(alpha), c) >= 0
			}
			if ok != (r != nil) {
				return fmt.Sprintf("decodes to %x (nil %v)", r, r == nil)
			}
			if ok && Base58Encode(r) != string(s) {
				return fmt.Sprintf("decodes to %x, which encodes to %q", r, Base58Encode(r))
			}
			return ""
		})
	}
}
