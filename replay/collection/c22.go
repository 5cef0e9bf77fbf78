package collection

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"testing"
	"time"
)

func TestVerifC22(t *testing.T) {
	h := newVH(t)
	for i := 0; i < 200000 && h.more(1); i++ {
		u := h.u64()
		v := h.u64()
		h.try(func() string { return fmt.Sprintf("number %d (%#x)", u, u) }, func() string {
			b8 := make([]byte, 8)
			binary.BigEndian.PutUint64(b8, u)
			b4 := b8[4:]
			if g := Int64ToByteArray(int64(u)); !bytes.Equal(g, b8) {
				return fmt.Sprintf("Int64ToByteArray gives %x", g)
			}
			if g := ByteArrayToInt64(b8); g != int64(u) {
				return fmt.Sprintf("ByteArrayToInt64(%x) gives %d", b8, g)
			}
			if g := Int32ToByteArray(int32(u)); !bytes.Equal(g, b4) {
				return fmt.Sprintf("Int32ToByteArray(%d) gives %x", int32(u), g)
			}
			if g := ByteArrayToInt32(b4); g != int32(u) {
				return fmt.Sprintf("ByteArrayToInt32(%x) gives %d", b4, g)
			}
			if g := Uint32ToByteArray(uint32(u)); !bytes.Equal(g, b4) {
				return fmt.Sprintf("Uint32ToByteArray(%d) gives %x", uint32(u), g)
			}
			if g := ByteArrayToUint32(b4); g != uint32(u) {
				return fmt.Sprintf("ByteArrayToUint32(%x) gives %d", b4, g)
			}
			tm := time.Unix(0, int64(u))
			if g := TimeToBytes(&tm); !bytes.Equal(g, b8) {
				return fmt.Sprintf("TimeToBytes gives %x", g)
			}
			if g := Int64ToTime(int64(u)); g.UnixNano() != int64(u) {
				return fmt.Sprintf("Int64ToTime gives %d", g.UnixNano())
			}
			for n := 0; n <= 10; n++ {
				b := append(append([]byte{}, b8...), 1, 2)[:n]
				g, err := BytesToTime(b)
				if (err == nil) != (n >= 8) {
					return fmt.Sprintf("BytesToTime(%x): error %v", b, err)
				}
				if err == nil && g.UnixNano() != int64(u) {
					return fmt.Sprintf("BytesToTime(%x) gives %d", b, g.UnixNano())
				}
			}
			return ""
		})
		raw := h.bytes(32)
		h.try(func() string { return fmt.Sprintf("256-bit number %x", raw) }, func() string {
			x := new(big.Int).SetBytes(raw)
			full := append(make([]byte, 32-len(raw)), raw...)
			if g := BigIntToByteArray(x); !bytes.Equal(g, full) {
				return fmt.Sprintf("BigIntToByteArray gives %x, expected %x", g, full)
			}
			if g := ByteArrayToBigInt(full); g.Cmp(x) != 0 {
				return fmt.Sprintf("ByteArrayToBigInt gives %x", g)
			}
			return ""
		})
		h.try(func() string { return fmt.Sprintf("min/max of %#x and %#x in every width", u, v) }, func() string {
			return vminmax(u, v)
		})
	}
	t.Logf("%d cases", h.n)
}

func vmm[T vnum22](n string, a, b T, min, max func(a, b T) T) string {
	lo, hi := a, b
	if b < a {
		lo, hi = b, a
	}
	if g := min(a, b); g != lo {
		return fmt.Sprintf("Min%s(%d,%d) = %d", n, a, b, g)
	}
	if g := max(a, b); g != hi {
		return fmt.Sprintf("Max%s(%d,%d) = %d", n, a, b, g)
	}
	return ""
}

type vnum22 interface {
	~int | ~uint | ~int8 | ~int16 | ~int32 | ~int64 | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func vminmax(u, v uint64) string {
	return vmm("Int", int(u), int(v), MinInt, MaxInt) + vmm("Uint", int(u), int(v), MinUnt, MaxUint) +
		vmm("Int8", int8(u), int8(v), MinInt8, MaxInt8) + vmm("Uint8", uint8(u), uint8(v), MinUnt8, MaxUint8) +
		vmm("Int16", int16(u), int16(v), MinInt16, MaxInt16) + vmm("Uint16", uint16(u), uint16(v), MinUnt16, MaxUint16) +
		vmm("Int32", int32(u), int32(v), MinInt32, MaxInt32) + vmm("Uint32", uint32(u), uint32(v), MinUint32, MaxUint32) +
		vmm("Int64", int64(u), int64(v), MinInt64, MaxInt64) + vmm("Uint64", uint64(u), uint64(v), MinUint64, MaxUint64)
}
