V = "util/value_util.go"
R = "util/record_util.go"
M = "util/mph_util.go"
K = "util/key_util.go"
D = '''package util

import "testing"

func TestDemo(t *testing.T) {
%s
}
'''
BUGS = [
 dict(id="c15-value-2byte", property="C15", needs="a value with a two byte length cut off after the first length byte",
      breaks="StandardMappedValue.Decode checks for one length byte where it reads two",
      edits=[(V, "		if len(d.buf) < 2+int(pos) {\n			return 0, fmt.Errorf(\"StandardMappedValue::Decode - invalid buf 2, no length", "		if len(d.buf) < 1+int(pos) {\n			return 0, fmt.Errorf(\"StandardMappedValue::Decode - invalid buf 2, no length")],
      pkg="util", test=D % '''	for _, b := range [][]byte{{2, 1}, {2, 0}} {
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Fatal("decoding", b, "fails:", e)
				}
			}()
			NewStandardMappedValue(append(make([]byte, 0, 2), b...)[:2:2])
		}()
	}'''),
 dict(id="c15-value-list-len", property="C15", needs="a record list value with a two byte record count",
      breaks="StandardMappedValue.Decode does not count the second byte of the record count",
      edits=[(V, "		d.record_list = make([]IRecord, d.size)\n		pos += 2", "		d.record_list = make([]IRecord, d.size)\n		pos += 1")],
      pkg="util", test=D % '''	b := []byte{0x22, 0, 1, 0, 1, 0, 9, 9, 9}
	_, n, err := NewStandardMappedValue(b)
	if err != nil || n != 6 {
		t.Fatal("consumed", n, err)
	}'''),
 dict(id="c15-record-tail", property="C15", needs="a record followed by further bytes whose last part is its timestamp",
      breaks="MappedRecord.Decode keeps bytes that do not belong to the record",
      edits=[(R, "	r.buf = r.buf[:pos]", "	if pos > 9 {\n		r.buf = r.buf[:pos]\n	}")],
      pkg="util", test=D % '''	b := []byte{0x04, 0, 0, 0, 0, 0, 0, 0, 1, 7, 7}
	r, n, err := NewMappedRecord(b)
	if err != nil || n != 9 || len(r.Buf()) != 9 {
		t.Fatal("record", n, err)
	}'''),
 dict(id="c15-mph-mask", property="C15", needs="a serialized hash table that ends inside its second list",
      breaks="NewMPHTable compares the announced length with the whole buffer instead of what is left of it",
      edits=[(M, "	if len(buf) < pos+4*int(level1_len) {", "	if len(buf) < 4*int(level1_len) {")],
      pkg="util", test=D % '''	b := []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0, 1}
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("fails:", e)
		}
	}()
	if _, _, err := NewMPHTable(b); err == nil {
		t.Fatal("accepted")
	}'''),
]
