V = "util/value_util.go"
R = "util/record_util.go"
D = '''package util

import "testing"

func TestDemo(t *testing.T) {
%s
}
'''
BUGS = [
 dict(id="c30-delete-last", property="C30", needs="an encoded record list whose only record is deleted",
      breaks="RecordList.DeleteAt leaves the list encoded (with the old bytes) when it becomes empty",
      edits=[(V, "	d.record_list = append(d.record_list[:idx], d.record_list[idx+1:]...)\n	d.encoded = false\n",
                 "	d.record_list = append(d.record_list[:idx], d.record_list[idx+1:]...)\n	d.encoded = d.encoded && len(d.record_list) == 0\n")],
      pkg="util", test=D % '''	l := NewRecordList()
	l.Append(NewRecord().SetK([]byte{1}))
	if err := l.Encode(nil); err != nil {
		t.Fatal(err)
	}
	l.DeleteAt(0)
	if l.IsEncoded() && len(l.Buf()) != 1 {
		t.Fatal("still hands out", l.Buf())
	}'''),
 dict(id="c30-scheme-cleared", property="C30", needs="an encoded record with a scheme whose scheme is then set to no bytes",
      breaks="Record.SetS leaves the record encoded when the new scheme is empty",
      edits=[(R, "	r.scheme = NewPrimitive(scheme)\n	r.encoded = false\n", "	r.scheme = NewPrimitive(scheme)\n	r.encoded = r.encoded && len(scheme) == 0\n")],
      pkg="util", test=D % '''	r := NewRecord().SetK([]byte{1}).SetS([]byte{2, 3})
	if err := r.Encode(nil); err != nil {
		t.Fatal(err)
	}
	r.SetS([]byte{})
	if r.IsEncoded() && len(r.Buf()) > 5 {
		t.Fatal("still hands out", r.Buf())
	}'''),
 dict(id="c26-empty-shared", property="C26", needs="a value array emptied by DeleteAt, copied, then appended to on both sides",
      breaks="ValueArray.Copy shares the element storage of an array without elements",
      edits=[(V, "	c := NewValueArray()\n	if d.data_array == nil {\n		return c\n	}\n", "	c := NewValueArray()\n	if len(d.data_array) == 0 {\n		c.data_array = d.data_array\n		return c\n	}\n")],
      pkg="util", test=D % '''	a := NewValueArray()
	a.Append(NewPrimitive([]byte{1}))
	a.DeleteAt(0)
	b := a.Copy().(*ValueArray)
	b.Append(NewPrimitive([]byte{2}))
	a.Append(NewPrimitive([]byte{3}))
	v, err := b.ValueAt(0)
	if err != nil || v.Value()[0] != 2 {
		t.Fatal("the copy changed:", v.Value(), err)
	}'''),
 dict(id="c26-large-content", property="C26", needs="a decoded value with more than 255 bytes of content, copied to a modifiable value",
      breaks="StandardMappedValue.CopyConstruct shares the content bytes of values with a two byte length",
      edits=[(V, "		copy(buf, d.Value())\n", "		copy(buf, d.Value())\n		if len(buf) > 255 {\n			buf = d.Value()\n		}\n")],
      pkg="util", test=D % '''	p := NewPrimitive(make([]byte, 300))
	if err := p.Encode(nil); err != nil {
		t.Fatal(err)
	}
	raw := append([]byte{}, p.Buf()...)
	m, _, err := NewStandardMappedValue(raw)
	if err != nil {
		t.Fatal(err)
	}
	c, err := m.CopyConstruct()
	if err != nil {
		t.Fatal(err)
	}
	for i := range raw {
		raw[i] = 9
	}
	if c.(*Primitive).Value()[5] != 0 {
		t.Fatal("the copy changed with the original's bytes")
	}'''),
]
BUGS += [
 dict(id="c20-mask-16", property="C20", needs="a table whose second list has more than 65536 entries",
      breaks="MPHTable.Encode writes the lower 16 bits of the second mask only",
      edits=[("util/mph_util.go", "	binary.BigEndian.PutUint32(buf[pos:], uint32(t.level1Mask))\n", "	binary.BigEndian.PutUint32(buf[pos:], uint32(uint16(t.level1Mask)))\n")],
      pkg="util", test=D % '''	a := &MPHTable{level0: []uint32{0}, level1: []uint32{0}, level1Mask: 1<<17 - 1, verifyHash: []uint32{1}}
	b, err := a.Encode()
	if err != nil {
		t.Fatal(err)
	}
	x, _, err := NewMPHTable(b)
	if err != nil || x.level1Mask != a.level1Mask {
		t.Fatal("the mask reads back as", x.level1Mask, err)
	}'''),
 dict(id="c20-seed-small", property="C20", needs="a table with a single hash whose seed is 2^31 or more",
      breaks="NewMPHTable drops the top bit of the seed of tables with a single hash",
      edits=[("util/mph_util.go", "		t.verifyHash = make([]uint32, verify_hash_len)\n", "		t.verifyHash = make([]uint32, verify_hash_len)\n		if verify_hash_len == 1 {\n			t.verifySeed &= 0x7fffffff\n		}\n")],
      pkg="util", test=D % '''	a := &MPHTable{level0: []uint32{0}, level1: []uint32{0}, verifySeed: 0x80000001, verifyHash: []uint32{1}}
	b, err := a.Encode()
	if err != nil {
		t.Fatal(err)
	}
	x, n, err := NewMPHTable(append(b, 1, 2, 3))
	if err != nil || n != len(b) || x.verifySeed != a.verifySeed {
		t.Fatal("the seed reads back as", x.verifySeed, n, err)
	}'''),
]
