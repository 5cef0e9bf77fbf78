package util

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC11(t *testing.T) {
	h := newVH(t)
	enc := map[string]string{}
	for i := 0; i < 200000 && h.more(1); i++ {
		maxn, maxl := 5, 5
		switch h.r.Intn(20) {
		case 0:
			maxn, maxl = 300, 3
		case 1:
			maxn, maxl = 6, 300
		case 2:
			maxn, maxl = 3, 3000
		case 3:
			maxn, maxl = 3000, 1
		}
		a := vsubs(h, maxn, maxl, false)
		tail := h.bytes(8)
		h.try(func() string { return fmt.Sprintf("%d sub-keys %.200x, followed by %x", len(a), a, tail) }, func() string {
			k := NewKey()
			for _, x := range a {
				k.Add(x)
			}
			want := vkeyenc(a)
			err := k.Encode(nil)
			if (err == nil) != (len(want) <= MAX_KEY_LENGTH) {
				return fmt.Sprintf("encoding of %d bytes: error %v", len(want), err)
			}
			if err != nil {
				return ""
			}
			buf := k.Buf()
			if !bytes.Equal(buf, want) {
				return fmt.Sprintf("encoded as %.100x, expected %.100x", buf, want)
			}
			m, n, err := NewMappedKey(append(append([]byte{}, buf...), tail...))
			if err != nil || n != len(buf) || !vsubeq(m.Key(), a) || !bytes.Equal(m.Buf(), buf) && len(a) > 0 {
				return fmt.Sprintf("%.100x decodes with error %v", buf, err)
			}
			if m.IsEmpty() != (len(a) == 0) {
				return "emptiness of the decoded key is wrong"
			}
			s := fmt.Sprintf("%x", a)
			if o, ok := enc[string(buf)]; ok && o != s {
				return fmt.Sprintf("same encoding as %.100s", o)
			}
			if len(buf) < 10 {
				enc[string(buf)] = s
			}
			return ""
		})
	}
	t.Logf("%d cases", h.n)
}
