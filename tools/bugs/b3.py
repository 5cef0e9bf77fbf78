BUGS = [
dict(id='c21-all-ones', property='C21', needs='a text of nothing but the character for zero',
 breaks='a byte string of zero bytes only comes back one byte short',
 edits=[('util/base58_util.go', 'for numZeros = 0; numZeros < len(b); numZeros++ {', 'for numZeros = 0; numZeros < len(b)-1; numZeros++ {')], pkg='util', test='''package util

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, b := range [][]byte{{0, 0, 0}, {0, 0, 1}, {1, 0}, {0}} {
		if r := Base58Decode(Base58Encode(b)); !bytes.Equal(r, b) {
			t.Fatal(b, r)
		}
	}
}
'''),
dict(id='c21-extra-letter', property='C21', needs='text with the excluded letter l',
 breaks='a character outside the alphabet is taken for a digit',
 edits=[('util/base58_util.go', '	40, 41, 42, 43, 255, 44, 45, 46,', '	40, 41, 42, 43, 43, 44, 45, 46,')], pkg='util', test='''package util

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"2l", "l", "0", "O", "I", "2~"} {
		if r := Base58Decode(s); r != nil {
			t.Fatal(s, r)
		}
	}
}
'''),
]
