package util

import (
	crand "crypto/rand"
	"fmt"
	"io"
	"testing"
)

// vsource hands out chosen bytes instead of random ones
type vsource struct{ h *vh }

func (s vsource) Read(b []byte) (int, error) {
	m := s.h.r.Intn(4)
	for i := range b {
		switch m {
		case 0:
			b[i] = 0
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = 0x80
		default:
			b[i] = byte(s.h.r.Intn(256))
		}
	}
	return len(b), nil
}

type vint interface {
	~int8 | ~int16 | ~int32 | ~int64 | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func v23[T vint](h *vh, name string, f func(min, max T) T) {
	a, b := T(h.u64()), T(h.u64())
	if a == b {
		return
	}
	if b < a {
		a, b = b, a
	}
	h.try(func() string { return fmt.Sprintf("%s(%d, %d)", name, a, b) }, func() string {
		for i := 0; i < 6; i++ {
			if g := f(a, b); g < a || g >= b {
				return fmt.Sprintf("returned %d", g)
			}
		}
		return ""
	})
}

func TestVerifC23(t *testing.T) {
	h := newVH(t)
	var old io.Reader = crand.Reader
	defer func() { crand.Reader = old }()
	crand.Reader = vsource{h}
	for i := 0; i < 100000 && h.more(1); i++ {
		v23(h, "RandInt8Range", RandInt8Range)
		v23(h, "RandUint8Range", RandUint8Range)
		v23(h, "RandInt16Range", RandInt16Range)
		v23(h, "RandUint16Range", RandUint16Range)
		v23(h, "RandInt32Range", RandInt32Range)
		v23(h, "RandUint32Range", RandUint32Range)
		v23(h, "RandInt64Range", RandInt64Range)
		v23(h, "RandUint64Range", RandUint64Range)
	}
	t.Logf("%d cases", h.n)
}
