package util

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

// vsubs: a list of sub-keys, often with shared prefixes and repeated or empty members
func vsubs(h *vh, maxn, maxl int, empty bool) [][]byte {
	n := h.r.Intn(maxn + 1)
	l := [][]byte{}
	for i := 0; i < n; i++ {
		b := h.bytes(maxl)
		if !empty && len(b) == 0 {
			b = []byte{byte(h.r.Intn(256))}
		}
		if i > 0 && h.r.Intn(4) == 0 {
			b = append([]byte{}, l[h.r.Intn(i)]...)
			if h.r.Intn(3) == 0 {
				b = append(b, byte(h.r.Intn(2)*255))
			}
		}
		l = append(l, b)
	}
	return l
}

// vmutate: the same list, or one that differs from it a little
func vmutate(h *vh, l [][]byte) [][]byte {
	m := [][]byte{}
	for _, x := range l {
		m = append(m, append([]byte{}, x...))
	}
	switch h.r.Intn(7) {
	case 0:
		if len(m) > 0 {
			m = m[:len(m)-1]
		}
	case 1:
		m = append(m, h.bytes(3))
	case 2:
		if len(m) > 0 {
			i := h.r.Intn(len(m))
			m[i] = append(m[i], byte(h.r.Intn(256)))
		}
	case 3:
		if len(m) > 0 {
			i := h.r.Intn(len(m))
			if len(m[i]) > 0 {
				m[i][h.r.Intn(len(m[i]))] ^= byte(1 << uint(h.r.Intn(8)))
			}
		}
	case 4:
		if len(m) > 1 {
			i := h.r.Intn(len(m) - 1)
			m[i], m[i+1] = m[i+1], m[i]
		}
	case 5:
		m = append(m, []byte{})
	}
	return m
}

func vkeyenc(l [][]byte) []byte {
	b := binary.AppendUvarint(nil, uint64(len(l)))
	for _, x := range l {
		b = binary.AppendUvarint(b, uint64(len(x)))
		b = append(b, x...)
	}
	return b
}

func vsubeq(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func vsubcmp(a, b [][]byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if c := bytes.Compare(a[i], b[i]); c != 0 {
			return c
		}
	}
	return vsgn(len(a) - len(b))
}

// vkeyof: a key of one of the three kinds with the given sub-keys
func vkeyof(h *vh, l [][]byte) (IKey, string) {
	if len(l) == 0 && h.r.Intn(2) == 0 {
		return NewEmptyKey(), "EmptyKey"
	}
	if h.r.Intn(2) == 0 {
		enc := vkeyenc(l)
		k, n, err := NewMappedKey(append(enc, h.bytes(5)...))
		if err != nil || n != len(enc) {
			panic(fmt.Sprintf("a well-formed encoding %x is not decoded: %d bytes, error %v", enc, n, err))
		}
		return k, "MappedKey"
	}
	k := NewKey()
	for _, x := range l {
		if len(x) == 0 {
			k.keys = append(k.keys, x)
		} else {
			k.Add(x)
		}
	}
	return k, "Key"
}

func vuv(x uint64) []byte {
	r := []byte{}
	for x >= 128 {
		r = append(r, byte(x)|128)
		x >>= 7
	}
	return append(r, byte(x))
}
