S = "util/scheme_util.go"
C14 = '''package util

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 300; n++ {
		s := NewScheme()
		s.domain = make([]byte, n)
		s.tablet = make([]byte, n)
		s.buckets = [][]byte{[]byte("a"), []byte{}, []byte("bc")}
		if err := s.Encode(nil); err != nil {
			t.Fatal(err)
		}
		m := NewMappedSchemd(append(append([]byte{}, s.Buf()...), 1, 2, 3))
		l, err := m.Decode(nil)
		if err != nil || l != len(s.Buf()) || !bytes.Equal(m.Tablet(), s.tablet) || len(m.Buckets()) != 3 {
			t.Fatal("scheme with a tablet of", n, "bytes does not survive", l, err)
		}
		for i, b := range m.Buckets() {
			if !bytes.Equal(b, s.buckets[i]) {
				t.Fatal("bucket", i)
			}
		}
	}
}
'''
BUGS = [
 dict(id="c14-tablet-pos", property="C14", needs="a scheme whose tablet is 128 bytes or longer",
      breaks="MappedScheme.Decode skips one length byte after the tablet even when the length takes two",
      edits=[(S, "tablet error [%v]\", err)\n		}\n		pos += length", "tablet error [%v]\", err)\n		}\n		pos += 1 + len(s.tablet)")],
      pkg="util", test=C14),
 dict(id="c14-empty-bucket", property="C14", needs="a scheme with an empty bucket",
      breaks="Scheme.Encode leaves out empty buckets although it counted them",
      edits=[(S, "			buf = append(buf, EncodeVarchar(bucket)...)\n", "			if len(bucket) > 0 {\n				buf = append(buf, EncodeVarchar(bucket)...)\n			}\n")],
      pkg="util", test=C14),
]
