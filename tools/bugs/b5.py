K = "util/key_util.go"
C08 = '''package util

import "testing"

func TestDemo(t *testing.T) {
	f := func(b []byte) uint32 { return uint32(len(b))*7 + uint32(b[0]) }
	a := NewKey().Add([]byte("one")).Add([]byte("two"))
	if err := a.Encode(nil); err != nil {
		t.Fatal(err)
	}
	m, _, err := NewMappedKey(a.Buf())
	if err != nil {
		t.Fatal(err)
	}
	if !a.Equal(m) || !m.Equal(a) || a.HashUint32(f) != m.HashUint32(f) {
		t.Fatal("equal keys have different hashes", a.HashUint32(f), m.HashUint32(f))
	}
	b := NewKey().Add([]byte("one")).Add([]byte("two")).Add([]byte("three"))
	if m.Equal(b) || b.Equal(m) || a.Equal(b) || b.Equal(a) {
		t.Fatal("a key equals a longer one")
	}
}
'''
C11 = '''package util

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 1; n < 700; n += 3 {
		k := NewKey()
		for i := 0; i < n; i++ {
			k.Add([]byte{byte(i), byte(i >> 8)})
		}
		if err := k.Encode(nil); err != nil {
			t.Fatal(err)
		}
		m, l, err := NewMappedKey(append(append([]byte{}, k.Buf()...), 1, 2, 3))
		if err != nil || l != len(k.Buf()) || !bytes.Equal(m.Buf(), k.Buf()) || !m.Equal(k) {
			t.Fatal("a key of", n, "sub-keys does not survive", l, err)
		}
	}
}
'''
BUGS = [
 dict(id="c08-prefix-equal", property="C08", needs="a decoded key compared with a longer key that starts with the same sub-keys",
      breaks="MappedKey.Equal answers true when the other key only starts with the same sub-keys",
      edits=[(K, "	obj := o.(IKey)\n	if len(k.Key()) != len(obj.Key()) {\n		return false\n	}\n\n	for i, key := range k.keys {\n		if !collection.EqualByteSlice(key, obj.SubKeyAt(i)) {\n			return false\n		}\n	}\n\n	return true\n}\n\nfunc (k *MappedKey) Compare",
                 "	obj := o.(IKey)\n	if len(k.Key()) > len(obj.Key()) {\n		return false\n	}\n\n	for i, key := range k.keys {\n		if !collection.EqualByteSlice(key, obj.SubKeyAt(i)) {\n			return false\n		}\n	}\n\n	return true\n}\n\nfunc (k *MappedKey) Compare")],
      pkg="util", test=C08),
 dict(id="c08-key-hash-order", property="C08", needs="two equal keys in different representations with at least two sub-keys",
      breaks="Key.HashUint32 rotates between sub-keys while MappedKey.HashUint32 does not, so equal keys hash differently",
      edits=[(K, "func (k *Key) HashUint32(f func([]byte) uint32) uint32 {\n	hashValue := uint32(0)\n	for _, key := range k.keys {\n		hashValue ^= f(key)",
                 "func (k *Key) HashUint32(f func([]byte) uint32) uint32 {\n	hashValue := uint32(0)\n	for _, key := range k.keys {\n		hashValue = hashValue<<5 ^ hashValue>>27 ^ f(key)")],
      pkg="util", test=C08),
 dict(id="c11-count-byte", property="C11", needs="a key of 256 or more sub-keys",
      breaks="Key.Encode writes the number of sub-keys modulo 256",
      edits=[(K, "EncodeUvarint64(uint64(len(k.keys)))", "EncodeUvarint64(uint64(byte(len(k.keys))))")],
      pkg="util", test=C11),
]
