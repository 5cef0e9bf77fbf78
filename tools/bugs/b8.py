V = "util/value_util.go"
R = "util/record_util.go"
K = "util/key_util.go"
D = '''package util

import "testing"

func TestDemo(t *testing.T) {
%s
}
'''
BUGS = [
 dict(id="c12-list-256", property="C12", needs="a record list whose records take exactly 256 bytes",
      breaks="RecordList.Encode writes a one byte content length for 256 bytes of records",
      edits=[(V, "		return fmt.Errorf(\"RecordList::Encode - unexpected size %d\", size)\n	}", "		return fmt.Errorf(\"RecordList::Encode - unexpected size %d\", size)\n	}\n	short := 256"),
             (V, "		content_buf = append(content_buf, d.record_list[i].Buf()...)\n	}\n\n	content_len := len(content_buf)\n	if content_len == 0 {\n\n		d.buf = buf\n		d.encoded = true\n		d.estBufSize = len(d.buf)\n		return nil\n\n	} else if content_len < 256 {",
                 "		content_buf = append(content_buf, d.record_list[i].Buf()...)\n	}\n\n	content_len := len(content_buf)\n	if content_len == 0 {\n\n		d.buf = buf\n		d.encoded = true\n		d.estBufSize = len(d.buf)\n		return nil\n\n	} else if content_len <= short {")],
      pkg="util", test=D % '''	for n := 240; n < 260; n++ {
		l := NewRecordList()
		l.Append(NewRecord().SetK(make([]byte, n)))
		if err := l.Encode(nil); err != nil {
			t.Fatal(err)
		}
		b := l.Buf()
		d, k, err := NewStandardMappedValue(append([]byte{}, b...))
		if err != nil || k != len(b) || d.Size() != 1 {
			t.Fatal(n, k, err)
		}
	}'''),
 dict(id="c12-record-end", property="C12", needs="a decoded record list asked for the record just past its end",
      breaks="StandardMappedValue.RecordAt lets the index equal to the size through",
      edits=[(V, "	if idx >= d.Size() {\n		return nil, fmt.Errorf(\"StandardMappedValue::RecordAt", "	if idx > d.Size() {\n		return nil, fmt.Errorf(\"StandardMappedValue::RecordAt")],
      pkg="util", test=D % '''	d, _, err := NewStandardMappedValue([]byte{0x11, 2, 2, 0, 0})
	if err != nil {
		t.Fatal(err)
	}
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("fails:", e)
		}
	}()
	if _, err := d.RecordAt(2); err == nil {
		t.Fatal("no error")
	}'''),
 dict(id="c16-value-65536", property="C16", needs="a value of exactly 65536 bytes",
      breaks="Primitive.Encode accepts a content whose length does not fit two bytes",
      edits=[(V, "	} else if content_len < 65536 {\n\n		// length_bits = 0x02", "	} else if content_len <= 65536 {\n\n		// length_bits = 0x02")],
      pkg="util", test=D % '''	if err := NewPrimitive(make([]byte, 65535)).Encode(nil); err != nil {
		t.Fatal(err)
	}
	if err := NewPrimitive(make([]byte, 65536)).Encode(nil); err == nil {
		t.Fatal("accepted")
	}'''),
 dict(id="c16-array-count", property="C16", needs="an array of exactly 65536 elements",
      breaks="ValueArray.Encode lets an element count through that does not fit two bytes",
      edits=[(V, "		buf[0] |= 0x01 << 6\n		buf = append(buf, uint8(size))\n	} else if size < 65536 {", "		buf[0] |= 0x01 << 6\n		buf = append(buf, uint8(size))\n	} else if size-1 < 65536 {"),
             (V, "		err := d.data_array[i].Encode(nil)\n		if err != nil {\n			return fmt.Errorf(\"ValueArray::Encode - err [%v]\", err)\n		}\n", "		err := d.data_array[i].Encode(nil)\n		if err != nil {\n			return fmt.Errorf(\"ValueArray::Encode - err [%v]\", err)\n		}\n		if size > 65535 && d.data_array[i].IsNil() {\n			continue\n		}\n")],
      pkg="util", test=D % '''	a := NewValueArray()
	p := NewPrimitive(nil)
	for i := 0; i < 65536; i++ {
		a.data_array = append(a.data_array, p)
	}
	if err := a.Encode(nil); err == nil {
		t.Fatal("accepted", len(a.Buf()))
	}'''),
]
