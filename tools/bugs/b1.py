BUGS = [
dict(id='c17-raft-ge', property='C17', needs='two raft times of equal term where one has fewer milliseconds but a larger count',
 breaks='GE of raft times answers true although the first time is earlier',
 edits=[('util/consensus_util.go', '''		if t.millis > tmp.millis {
			return true, nil
		} else if t.millis < tmp.millis {
			return false, nil
		}
		if t.count > tmp.count {
			return true, nil
		} else if t.count < tmp.count {
			return false, nil
		}
		return true, nil
''', '''		if t.millis > tmp.millis || t.count > tmp.count {
			return true, nil
		} else if t.millis < tmp.millis {
			return false, nil
		} else if t.count < tmp.count {
			return false, nil
		}
		return true, nil
''')], pkg='util', test='''package util

import "testing"

func TestDemo(t *testing.T) {
	a, b := NewRaftTime(3, 10, 9), NewRaftTime(3, 20, 1)
	ge, _ := a.GE(b)
	lt, _ := a.LT(b)
	if ge || !lt {
		t.Fatalf("ge=%v lt=%v", ge, lt)
	}
}
'''),
dict(id='c07-uint64-order', property='C07', needs='two uint64 slices whose elements differ by 2^63 or more',
 breaks='comparison of uint64 slices orders elements by their signed difference',
 edits=[('collection/util.go', '''		if s1[i] < s2[i] {
			return -1
		} else if s1[i] > s2[i] {
			return 1
		} else {
			continue
		}
	}

	// we are here if all the previous elements in the slice are equal
	if len(s2) > len(s1) {
		return -1
	} else {
		return 0
	}
}

func CompareIntSlice''', '''		if d := int64(s1[i] - s2[i]); d < 0 {
			return -1
		} else if d > 0 {
			return 1
		} else {
			continue
		}
	}

	// we are here if all the previous elements in the slice are equal
	if len(s2) > len(s1) {
		return -1
	} else {
		return 0
	}
}

func CompareIntSlice''')], pkg='collection', test='''package collection

import "testing"

func TestDemo(t *testing.T) {
	if c := CompareUint64Slice([]uint64{1 << 63}, []uint64{0}); c <= 0 {
		t.Fatalf("2^63 against 0 compares %d", c)
	}
}
'''),
dict(id='c22-bigint-pad', property='C22', needs='a 256-bit number with exactly 31 significant bytes',
 breaks='a 31-byte number is padded at the wrong end',
 edits=[('collection/util.go', '''		buf := make([]byte, 32-len(input))
		return append(buf, input[:]...)
''', '''		buf := make([]byte, 32)
		copy(buf[(32-len(input))&^1:], input)
		return buf
''')], pkg='collection', test='''package collection

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	x := new(big.Int).Lsh(big.NewInt(5), 8*30)
	if y := ByteArrayToBigInt(BigIntToByteArray(x)); x.Cmp(y) != 0 {
		t.Fatalf("%x became %x", x, y)
	}
}
'''),
dict(id='c23-uint64-top', property='C23', needs='a range whose maximum is at least 2^63 and a random number that is congruent to its width',
 breaks='the number returned can equal the maximum',
 edits=[('util/rand_util.go', '''func RandUint64Range(min, max uint64) uint64 {
	data := RandUint64()
	result := data%(max-min) + min
''', '''func RandUint64Range(min, max uint64) uint64 {
	data := RandUint64()
	result := data%(max-min+max>>63) + min
''')], pkg='util', test='''package util

import (
	"bytes"
	"crypto/rand"
	"testing"
)

func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = bytes.NewReader([]byte{0x80, 0, 0, 0, 0, 0, 0, 3, 1, 2, 3, 4, 5, 6, 7, 8})
	if x := RandUint64Range(2, 1<<63+5); x < 2 || x >= 1<<63+5 {
		t.Fatalf("got %d", x)
	}
}
'''),
]
