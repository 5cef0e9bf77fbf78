package collection

import (
	"fmt"
	"testing"
)

type vnum interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func vlex[T vnum](a, b []T) int {
	for i := range a {
		if i >= len(b) {
			return 1
		}
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	if len(a) < len(b) {
		return -1
	}
	return 0
}

func vnilcmp(a, b bool) int { // a, b: is it nil
	if a == b {
		return 0
	} else if a {
		return -1
	}
	return 1
}

func vgen[T vnum](h *vh) []T {
	n := h.r.Intn(6) - 1
	if h.r.Intn(20) == 0 {
		n = 20 + h.r.Intn(60)
	}
	if n < 0 {
		return nil
	}
	s := make([]T, n, n+h.r.Intn(3))
	for i := range s {
		s[i] = T(h.u64())
		if h.r.Intn(2) == 0 {
			s[i] = T(h.r.Intn(2))
		}
	}
	return s
}

func vpair[T vnum](h *vh) ([]T, []T) {
	a := vgen[T](h)
	b := vgen[T](h)
	switch h.r.Intn(4) {
	case 0: // equal copies
		b = append(a[:0:0], a...)
	case 1: // one element differs
		b = append(a[:0:0], a...)
		if len(b) > 0 {
			b[h.r.Intn(len(b))] = T(h.u64())
		}
	case 2: // prefix
		if a != nil {
			b = append([]T{}, a[:h.r.Intn(len(a)+1)]...)
		}
	}
	if h.r.Intn(2) == 0 {
		a, b = b, a
	}
	return a, b
}

func v07[T vnum](h *vh, name string, eq func(a, b []T) bool, cmp func(a, b []T) int, mk func([]T) IComparable) {
	a, b := vpair[T](h)
	d := func() string { return name + " on " + vlist(a, b) }
	h.try(d, func() string {
		we := (a == nil) == (b == nil) && vlex(a, b) == 0
		if g := eq(a, b); g != we {
			return fmt.Sprintf("equality answers %v, expected %v", g, we)
		}
		w := vlex(a, b)
		if a == nil || b == nil {
			w = vnilcmp(a == nil, b == nil)
		}
		if g := cmp(a, b); vsgn(g) != w {
			return fmt.Sprintf("comparison answers %d, expected sign %d", g, w)
		}
		if mk == nil {
			return ""
		}
		x, y := mk(a), mk(b)
		if g := x.Compare(y); vsgn(g) != w {
			return fmt.Sprintf("wrapper comparison answers %d, expected sign %d", g, w)
		}
		if g := x.Equal(y); g != we {
			return fmt.Sprintf("wrapper equality answers %v, expected %v", g, we)
		}
		if x.Equal(nil) {
			return "wrapper equals nil"
		}
		if g := x.Compare(nil); g <= 0 {
			return fmt.Sprintf("wrapper against nil compares %d", g)
		}
		if x.Equal(vother{1}) {
			return "wrapper equals an object of another kind"
		}
		return ""
	})
}

type vother struct{ x int }

func (o vother) Equal(b IObject) bool { return false }

func v07obj(h *vh) {
	mk := func(n int) []IComparable {
		if n < 0 {
			return nil
		}
		s := make([]IComparable, n)
		for i := range s {
			s[i] = NewComparableByteSlice([]byte{byte(h.r.Intn(3))})
		}
		return s
	}
	raw := func(s []IComparable) []byte {
		if s == nil {
			return nil
		}
		o := []byte{}
		for _, x := range s {
			o = append(o, x.(*ComparableByteSlice).slice...)
		}
		return o
	}
	a, b := mk(h.r.Intn(5)-1), mk(h.r.Intn(5)-1)
	if h.r.Intn(3) == 0 && a != nil {
		b = append([]IComparable{}, a...)
		if h.r.Intn(2) == 0 {
			b = b[:h.r.Intn(len(b)+1)]
		}
	}
	h.try(func() string { return "CompareSlice on objects " + vlist(raw(a), raw(b)) }, func() string {
		w := vlex(raw(a), raw(b))
		if a == nil || b == nil {
			w = vnilcmp(a == nil, b == nil)
		}
		if g := CompareSlice(a, b); vsgn(g) != w {
			return fmt.Sprintf("comparison answers %d, expected sign %d", g, w)
		}
		if g := NewComparableSlice(a).Compare(NewComparableSlice(b)); vsgn(g) != w {
			return fmt.Sprintf("wrapper comparison answers %d, expected sign %d", g, w)
		}
		if a != nil && b != nil {
			if g := NewComparableSlice(a).Equal(NewComparableSlice(b)); g != (w == 0) {
				return fmt.Sprintf("wrapper equality answers %v", g)
			}
		}
		return ""
	})
}

func TestVerifC07(t *testing.T) {
	h := newVH(t)
	for i := 0; i < 60000 && h.more(1); i++ {
		v07(h, "byte slices", EqualByteSlice, CompareByteSlice, func(s []byte) IComparable { return NewComparableByteSlice(s) })
		v07(h, "int8 slices", EqualInt8Slice, CompareInt8Slice, func(s []int8) IComparable { return NewComparableInt8Slice(s) })
		v07(h, "int16 slices", EqualInt16Slice, CompareInt16Slice, func(s []int16) IComparable { return NewComparableInt16Slice(s) })
		v07(h, "uint16 slices", EqualUint16Slice, CompareUint16Slice, func(s []uint16) IComparable { return NewComparableUint16Slice(s) })
		v07(h, "int32 slices", EqualInt32Slice, CompareInt32Slice, func(s []int32) IComparable { return NewComparableInt32Slice(s) })
		v07(h, "uint32 slices", EqualUint32Slice, CompareUint32Slice, func(s []uint32) IComparable { return NewComparableUint32Slice(s) })
		v07(h, "int64 slices", EqualInt64Slice, CompareInt64Slice, func(s []int64) IComparable { return NewComparableInt64Slice(s) })
		v07(h, "uint64 slices", EqualUint64Slice, CompareUint64Slice, func(s []uint64) IComparable { return NewComparableUint64Slice(s) })
		v07(h, "int slices", EqualIntSlice, CompareIntSlice, nil)
		v07obj(h)
	}
	t.Logf("%d cases", h.n)
}
