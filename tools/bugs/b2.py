BUGS = [
dict(id='c10-signed-9', property='C10', needs='a signed integer at or above 2^62 in magnitude',
 breaks='encoding large signed integers runs out of room',
 edits=[('util/misc_util.go', '''	lenBuf := make([]byte, 10) // maximum 10 bytes
	lenN := binary.PutVarint(lenBuf, data)
''', '''	lenBuf := make([]byte, 9)
	lenN := binary.PutVarint(lenBuf, data)
''')], pkg='util', test='''package util

import "testing"

func TestDemo(t *testing.T) {
	for _, x := range []int64{1 << 62, -1 << 63, 1<<62 - 1, 5} {
		b := EncodeVarint64(x)
		y, n, err := DecodeVarint64(append(b, 1, 2))
		if err != nil || y != x || n != len(b) {
			t.Fatal(x, y, n, err)
		}
	}
}
'''),
dict(id='c10-trunc-len', property='C10', needs='a byte string of 64 KB or more',
 breaks='the announced length of long byte strings loses its upper bits',
 edits=[('util/misc_util.go', '''	lenN := binary.PutUvarint(lenBuf, uint64(len(data)))
	if lenN < 0 {
		panic(fmt.Sprintf("EncodeVarchar''', '''	lenN := binary.PutUvarint(lenBuf, uint64(uint16(len(data))))
	if lenN < 0 {
		panic(fmt.Sprintf("EncodeVarchar''')], pkg='util', test='''package util

import "testing"

func TestDemo(t *testing.T) {
	d := make([]byte, 70000)
	b := EncodeVarchar(d)
	y, n, err := DecodeVarchar(b)
	if err != nil || len(y) != len(d) || n != len(b) {
		t.Fatal(len(y), n, err)
	}
}
'''),
dict(id='c18-shard-short', property='C18', needs='an identifier announcing a shard range and cut off inside the end of the range',
 breaks='an identifier whose shard range is cut short is not refused',
 edits=[('util/consensus_util.go', 'if len(buf) < pos+64 {', 'if len(buf) < pos+32 {')], pkg='util', test='''package util

import "testing"

func TestDemo(t *testing.T) {
	b := make([]byte, 1+50)
	b[0] = 0x08
	if _, err := NewMappedConsensusID(b[:len(b):len(b)]); err == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id='c18-copy-shares', property='C18', needs='the bytes of the original changed after copying',
 breaks='a copy shares memory with the original',
 edits=[('util/consensus_util.go', '''	buf := make([]byte, len(c.buf))
	copy(buf, c.buf)
''', '''	buf := append(c.buf[:0], c.buf...)
''')], pkg='util', test='''package util

import "testing"

func TestDemo(t *testing.T) {
	b := make([]byte, 1+32)
	b[0] = 0x80
	c, err := NewMappedConsensusID(b)
	if err != nil {
		t.Fatal(err)
	}
	d := c.Copy()
	b[5] = 7
	if d.Buf()[5] == 7 {
		t.Fatal("shared")
	}
}
'''),
]
