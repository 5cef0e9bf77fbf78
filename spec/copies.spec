use updates scheme keycodec
// An arbitrary point in allocation order: everything older than it is well formed. Copies only add younger objects.
smt {
(declare-const gstamp Int)
}
def old1(x: int) bool = 0 < x < gstamp
def vopen(v: util.IValue) bool = isPrim(v) || isVArr(v) || isRList(v)
def conv(v: util.IValue) bool = vopen(v) && old1(ref(v))
def conk(k: util.IKey) bool = (isKy(k) || isEK(k)) && old1(ref(k))
def conr(r: util.IRecord) bool = isRec(r) && old1(ref(r))
def wfA1() bool = forall x: *util.Primitive {x.data} :: old1(x) ==> alloced(x.data)
def wfA2() bool = forall x: *util.ValueArray {x.data_array} :: old1(x) ==> x.data_array != nil && alloced(x.data_array)
def wfA3() bool = forall x: *util.ValueArray, j: int {x.data_array[j]} :: old1(x) && 0 <= j < len(x.data_array) ==> conv(x.data_array[j])
def wfA4() bool = forall x: *util.RecordList {x.record_list} :: old1(x) ==> x.record_list != nil && alloced(x.record_list)
def wfA5() bool = forall x: *util.RecordList, j: int {x.record_list[j]} :: old1(x) && 0 <= j < len(x.record_list) ==> conr(x.record_list[j])
def wfA6() bool = forall x: *util.Record {x.key} {x.value} {x.scheme} :: old1(x) ==> (x.key != nil ==> conk(x.key)) && (x.value != nil ==> conv(x.value)) && (x.scheme != nil ==> conv(x.scheme))
def wfA7() bool = forall x: *util.Key {x.keys} :: old1(x) ==> alloced(x.keys) && keysOk(x.keys)
def wfA8() bool = forall x: *util.Key, j: int {x.keys[j]} :: old1(x) && 0 <= j < len(x.keys) ==> len(x.keys[j]) > 0
def wfA() bool = gstamp <= allocmark() && wfA1() && wfA2() && wfA3() && wfA4() && wfA5() && wfA6() && wfA7() && wfA8()
def cpP(a: *util.Primitive, b: *util.Primitive) bool = (b.data == nil <==> a.data == nil) && seq(b.data) == seq(a.data) && !b.encoded
// c copies v: the same kind and content, one level at a time
def cpv(v: util.IValue, c: util.IValue) bool = tag(c) == tag(v) && ref(c) != 0 && (isPrim(v) ==> cpP(prim(v), prim(c))) && (isVArr(v) ==> len(varr(c).data_array) == len(varr(v).data_array) && !varr(c).encoded) && (isRList(v) ==> len(rlist(c).record_list) == len(rlist(v).record_list) && !rlist(c).encoded)
def cpk(k: util.IKey, c: util.IKey) bool = tag(c) == tag(k) && ref(c) != 0 && (isKy(k) ==> sseq(seq(ky(c).keys), seq(ky(k).keys)) && !ky(c).encoded)
// decoded keys and values as their own decoder left them
def mkok(k: *util.MappedKey) bool = k.decoded && alloced(k.buf) && kok(seq(k.buf)) && klen(seq(k.buf)) == len(k.buf) && iskey(k, seq(k.buf)) && forall j: int {k.keys[j]} :: 0 <= j < len(k.keys) ==> len(k.keys[j]) > 0
def svdec(d: *util.StandardMappedValue) bool = d.decoded && alloced(d.buf) && alloced(d.content) && isval(d, seq(d.buf))
def svprim(d: *util.StandardMappedValue) bool = svdec(d) && d.data_array == nil && d.record_list == nil
def simp(v: util.IValue) *util.SimpleMappedValue = @as(*util.SimpleMappedValue, v)
def smdec(d: *util.SimpleMappedValue) bool = d.decoded && alloced(d.buf) && alloced(d.content) && vcok(seq(d.buf)) && vcn(seq(d.buf)) == len(d.buf) && seq(d.content) == vcd(seq(d.buf))
def mrok(r: *util.MappedRecord) bool = r.decoded && alloced(r.buf) && rok(seq(r.buf)) && rlen(seq(r.buf)) == len(r.buf) && (r.key != nil ==> isMK(r.key) && mkok(mk(r.key))) && (r.value != nil ==> isSMV(r.value) && svprim(smv(r.value))) && (r.scheme != nil ==> isSMV(r.scheme) && svprim(smv(r.scheme)))
def cck(k: util.IKey, c: util.IKey) bool = isKy(c) && sseq(seq(ky(c).keys), seq(mk(k).keys)) && !ky(c).encoded
def ccv(v: util.IValue, c: util.IValue) bool = isPrim(c) && seq(prim(c).data) == seq(smv(v).content) && !prim(c).encoded
func util.NewEmptyKey() (k)
  ensures fresh(k)
func util.NewScheme() (s)
  ensures fresh(s) && !s.encoded && s.domain == nil && s.tablet == nil && s.buckets == nil
func util.(*MappedKey).Copy(k) (c)
  requires k != nil && mkok(k)
  ensures [kind] tag(c) == @type(*util.MappedKey) && fresh(ref(c))
  let b = seq(k.buf)
  opaque vsn vsok uvn uvv
  ensures [content] let d = @as(*util.MappedKey, c) :: seq(d.buf) == b
  ensures [independent] let d = @as(*util.MappedKey, c) :: fresh(d.buf)
  ensures [sub-keys] let d = @as(*util.MappedKey, c) :: d.decoded && len(d.keys) == len(k.keys)
  ensures [sub-keys] let d = @as(*util.MappedKey, c) :: iskey(d, b)
func util.(*SimpleMappedValue).Copy(d) (c)
  requires d != nil && smdec(d)
  ensures [kind] tag(c) == @type(*util.SimpleMappedValue) && fresh(ref(c))
  let b = seq(d.buf)
  ensures [independent] let e = @as(*util.SimpleMappedValue, c) :: e.decoded && fresh(e.buf)
  ensures [content] let e = @as(*util.SimpleMappedValue, c) :: seq(e.buf) == b
  ensures [content] let e = @as(*util.SimpleMappedValue, c) :: seq(e.content) == vcd(b)
func util.(*StandardMappedValue).Copy(d) (c)
  requires d != nil && svdec(d)
  ensures [kind] tag(c) == @type(*util.StandardMappedValue) && fresh(ref(c))
  let b = seq(d.buf)
  opaque svok svlen svsize svcon svh svcl
  ensures [independent] let e = @as(*util.StandardMappedValue, c) :: fresh(e.buf)
  ensures [content] let e = @as(*util.StandardMappedValue, c) :: seq(e.buf) == b
  ensures [content] let e = @as(*util.StandardMappedValue, c) :: isval(e, b)
func util.(*SimpleMappedValue).CopyConstruct(d) (c, err)
  requires d != nil && d.decoded
  ensures err == nil
  ensures [kind] tag(c) == @type(*util.Primitive) && fresh(ref(c))
  ensures [content] let e = @as(*util.Primitive, c) :: seq(e.data) == seq(d.content) && fresh(e.data) && !e.encoded
func util.(*MappedKey).CopyConstruct(k) (c, err)
  requires k != nil && mkok(k) && alloced(k.keys)
  let ks = seq(k.keys)
  ensures err == nil
  ensures [kind] tag(c) == @type(*util.Key) && fresh(ref(c))
  ensures [content] let d = @as(*util.Key, c) :: sseq(seq(d.keys), ks) && !d.encoded && fresh(d.keys) && keysOk(d.keys)
  hint sseq(seq(k.keys), ks)
  invariant for $rangeindex: int, $r: *util.Key :: sslen(seq($r.keys)) == $rangeindex
  invariant for $rangeindex: int, $r: *util.Key :: forall j: int {ssat(seq($r.keys), j)} :: 0 <= j < $rangeindex ==> ssat(seq($r.keys), j) == ssat(ks, j)
  invariant for $r: *util.Key :: fresh($r) && fresh($r.keys) && !$r.encoded && keysOk($r.keys)
  invariant sseq(seq(k.keys), ks)
func util.(*StandardMappedValue).CopyConstruct(d) (c, err)
  requires d != nil && svprim(d)
  ensures err == nil
  ensures [kind] tag(c) == @type(*util.Primitive) && fresh(ref(c))
  ensures [content] let e = @as(*util.Primitive, c) :: seq(e.data) == seq(d.content) && fresh(e.data) && !e.encoded
func util.(*MappedRecord).Copy(r) (c)
  requires r != nil && mrok(r)
  let b = seq(r.buf)
  opaque svok svlen svsize svcon svh svcl vpos vall vrest vel uvn uvv vsn vsok beval rk rv rs rt rsigned rkok rvok rsok rtok rok rlen
  ensures [kind] tag(c) == @type(*util.MappedRecord) && fresh(ref(c))
  ensures [content] let d = @as(*util.MappedRecord, c) :: seq(d.buf) == b
  ensures [parts] let d = @as(*util.MappedRecord, c) :: isrec(d, b)
  ensures [independent] let d = @as(*util.MappedRecord, c) :: fresh(d.buf)
func util.(*MappedRecord).CopyConstruct(r) (c, err)
  requires r != nil && mrok(r) && wfA()
  opaque svok svlen svsize svcon svh svcl vpos vall vrest vel uvn uvv vsn vsok beval rk rv rs rt rsigned rkok rvok rsok rtok rok rlen
  ensures err == nil
  ensures [kind] tag(c) == @type(*util.Record) && fresh(ref(c)) && !@as(*util.Record, c).encoded
  ensures [key] let d = @as(*util.Record, c) :: r.key == nil ? d.key == nil : cck(r.key, d.key)
  ensures [value] let d = @as(*util.Record, c) :: r.value == nil ? d.value == nil : ccv(r.value, d.value) && fresh(ref(d.value))
  ensures [scheme] let d = @as(*util.Record, c) :: r.scheme == nil ? d.scheme == nil : ccv(r.scheme, d.scheme) && fresh(ref(d.scheme))
  ensures [rest] let d = @as(*util.Record, c) :: d.timestamp == r.timestamp && d.signature_r == r.signature_r && d.signature_s == r.signature_s
func util.(*EmptyKey).Copy(k) (c)
  ensures true
  ensures [kind] tag(c) == @type(*util.EmptyKey) && ref(c) != 0
func util.(*Primitive).Copy(d) (c)
  requires d != nil && alloced(d.data)
  ensures true
  ensures [kind] tag(c) == @type(*util.Primitive) && fresh(ref(c))
  ensures [content] cpP(d, @as(*util.Primitive, c))
  ensures [independent] d.data != nil ==> fresh(@as(*util.Primitive, c).data)
func util.(*Key).Copy(k) (c)
  requires k != nil && alloced(k.keys) && keysOk(k.keys)
  requires forall j: int {k.keys[j]} :: 0 <= j < len(k.keys) ==> len(k.keys[j]) > 0
  let ks = seq(k.keys)
  ensures true
  ensures [kind] tag(c) == @type(*util.Key) && fresh(ref(c))
  ensures [content] let d = @as(*util.Key, c) :: sseq(seq(d.keys), ks) && !d.encoded && fresh(d.keys) && keysOk(d.keys)
  hint sseq(seq(k.keys), ks)
  invariant for $rangeindex: int, $r: *util.Key :: $r != k && sslen(seq($r.keys)) == $rangeindex
  invariant for $rangeindex: int, $r: *util.Key :: forall j: int {ssat(seq($r.keys), j)} :: 0 <= j < $rangeindex ==> ssat(seq($r.keys), j) == ssat(ks, j)
  invariant for $r: *util.Key :: fresh($r) && fresh($r.keys) && !$r.encoded && keysOk($r.keys)
  invariant sseq(seq(k.keys), ks)
iface util.IKey.Copy(k) (c)
  requires (isKy(k) && old1(ref(k)) && wfA()) || isEK(k) || (isMK(k) && mkok(mk(k)))
  let ks = isKy(k) ? seq(ky(k).keys) : isMK(k) ? seq(mk(k).keys) : ssnil
  ensures true
  ensures [content] isKy(k) || isEK(k) ==> cpk(k, c)
  ensures [independent] isKy(k) ==> fresh(ref(c)) && fresh(ky(c).keys) && keysOk(ky(c).keys)
iface util.IValue.Copy(v) (c)
  requires (conv(v) && wfA()) || (isSMV(v) && svprim(smv(v))) || (isSimp(v) && smdec(simp(v)))
  flag noterm
  ensures true
  ensures [content] vopen(v) ==> cpv(v, c)
  ensures [independent] vopen(v) ==> fresh(ref(c)) && (isPrim(v) && prim(v).data != nil ==> fresh(prim(c).data)) && (isVArr(v) ==> fresh(varr(c).data_array)) && (isRList(v) ==> fresh(rlist(c).record_list))
iface util.IRecord.Copy(r) (c)
  requires (conr(r) || (isMR(r) && mrok(mrec(r)))) && wfA()
  flag noterm
  ensures true
  ensures [content] isRec(r) ==> isRec(c) && fresh(ref(c)) && !rec1(c).encoded
func util.(*ValueArray).Copy(d) (c)
  requires d != nil && old1(d) && wfA()
  flag noterm
  let n = len(d.data_array)
  ensures true
  ensures [kind] tag(c) == @type(*util.ValueArray) && fresh(ref(c))
  ensures [independent] let a = @as(*util.ValueArray, c) :: fresh(a.data_array) && len(a.data_array) == n && !a.encoded
  ensures [elements] let a = @as(*util.ValueArray, c) :: forall j: int {a.data_array[j]} :: 0 <= j < n ==> cpv(d.data_array[j], a.data_array[j]) && fresh(ref(a.data_array[j]))
  invariant for $i: int, $c: *util.ValueArray :: fresh($c) && fresh($c.data_array) && len($c.data_array) == n && !$c.encoded
  invariant for $i: int, $c: *util.ValueArray :: forall j: int {$c.data_array[j]} :: 0 <= j < $i ==> cpv(d.data_array[j], $c.data_array[j]) && fresh(ref($c.data_array[j]))
  invariant wfA()
func util.(*RecordList).Copy(d) (c)
  requires d != nil && old1(d) && wfA()
  flag noterm
  let n = len(d.record_list)
  ensures true
  ensures [kind] tag(c) == @type(*util.RecordList) && fresh(ref(c))
  ensures [independent] let a = @as(*util.RecordList, c) :: fresh(a.record_list) && len(a.record_list) == n && !a.encoded
  ensures [records] let a = @as(*util.RecordList, c) :: forall j: int {a.record_list[j]} :: 0 <= j < n ==> isRec(a.record_list[j]) && fresh(ref(a.record_list[j]))
  invariant for $i: int, $c: *util.RecordList :: fresh($c) && fresh($c.record_list) && len($c.record_list) == n && !$c.encoded
  invariant for $i: int, $c: *util.RecordList :: forall j: int {$c.record_list[j]} :: 0 <= j < $i ==> isRec($c.record_list[j]) && fresh(ref($c.record_list[j]))
  invariant wfA()
func util.(*Record).Copy(r) (c)
  requires r != nil && old1(r) && wfA()
  flag noterm
  ensures true
  ensures [kind] tag(c) == @type(*util.Record) && fresh(ref(c)) && !@as(*util.Record, c).encoded
  ensures [key] let d = @as(*util.Record, c) :: r.key == nil ? d.key == nil : cpk(r.key, d.key)
  ensures [value] let d = @as(*util.Record, c) :: r.value == nil ? d.value == nil : cpv(r.value, d.value) && fresh(ref(d.value))
  ensures [scheme] let d = @as(*util.Record, c) :: r.scheme == nil ? d.scheme == nil : cpv(r.scheme, d.scheme) && fresh(ref(d.scheme))
  ensures [rest] let d = @as(*util.Record, c) :: d.timestamp == r.timestamp && d.signature_r == r.signature_r && d.signature_s == r.signature_s
func util.(*Scheme).Copy(s) (c)
  requires s != nil && alloced(s.buckets)
  let ks = seq(s.buckets)
  hint sseq(seq(s.buckets), ks)
  ensures true
  ensures [kind] tag(c) == @type(*util.Scheme) && fresh(ref(c))
  ensures [content] let d = @as(*util.Scheme, c) :: d.domain == s.domain && d.tablet == s.tablet && (d.buckets == nil <==> s.buckets == nil) && !d.encoded
  ensures [buckets] let d = @as(*util.Scheme, c) :: s.buckets != nil ==> fresh(d.buckets) && sseq(seq(d.buckets), ks)
func util.(*MappedScheme).Copy(s) (c)
  requires s != nil && alloced(s.buckets)
  let ks = seq(s.buckets)
  hint sseq(seq(s.buckets), ks)
  ensures true
  ensures [kind] tag(c) == @type(*util.Scheme) && fresh(ref(c))
  ensures [content] let d = @as(*util.Scheme, c) :: d.domain == s.domain && d.tablet == s.tablet && (d.buckets == nil <==> s.buckets == nil) && !d.encoded
  ensures [buckets] let d = @as(*util.Scheme, c) :: s.buckets != nil ==> fresh(d.buckets) && sseq(seq(d.buckets), ks)
func util.(*EmptyKey).CopyConstruct(k) (c, err)
  ensures err == nil
  ensures [kind] tag(c) == @type(*util.EmptyKey) && ref(c) != 0
func util.(*Primitive).CopyConstruct(d) (c, err)
  requires d != nil && alloced(d.data)
  ensures err == nil
  ensures [kind] tag(c) == @type(*util.Primitive) && fresh(ref(c))
  ensures [content] cpP(d, @as(*util.Primitive, c))
  ensures [independent] d.data != nil ==> fresh(@as(*util.Primitive, c).data)
func util.(*Key).CopyConstruct(k) (c, err)
  requires k != nil && alloced(k.keys) && keysOk(k.keys)
  requires forall j: int {k.keys[j]} :: 0 <= j < len(k.keys) ==> len(k.keys[j]) > 0
  let ks = seq(k.keys)
  ensures err == nil
  ensures [kind] tag(c) == @type(*util.Key) && fresh(ref(c))
  ensures [content] let d = @as(*util.Key, c) :: sseq(seq(d.keys), ks) && !d.encoded && fresh(d.keys) && keysOk(d.keys)
  hint sseq(seq(k.keys), ks)
  invariant for $rangeindex: int, $r: *util.Key :: $r != k && sslen(seq($r.keys)) == $rangeindex
  invariant for $rangeindex: int, $r: *util.Key :: forall j: int {ssat(seq($r.keys), j)} :: 0 <= j < $rangeindex ==> ssat(seq($r.keys), j) == ssat(ks, j)
  invariant for $r: *util.Key :: fresh($r) && fresh($r.keys) && !$r.encoded && keysOk($r.keys)
  invariant sseq(seq(k.keys), ks)
iface util.IKey.CopyConstruct(k) (c, err)
  requires (isKy(k) && old1(ref(k)) && wfA()) || isEK(k) || (isMK(k) && mkok(mk(k)))
  let ks = isKy(k) ? seq(ky(k).keys) : isMK(k) ? seq(mk(k).keys) : ssnil
  ensures err == nil
  ensures [content] isKy(k) || isEK(k) ==> cpk(k, c)
  ensures [content] isMK(k) ==> cck(k, c) && fresh(ref(c)) && fresh(ky(c).keys) && keysOk(ky(c).keys)
  ensures [independent] isKy(k) ==> fresh(ref(c)) && fresh(ky(c).keys) && keysOk(ky(c).keys)
iface util.IValue.CopyConstruct(v) (c, err)
  requires (conv(v) && wfA()) || (isSMV(v) && svprim(smv(v))) || (isSimp(v) && smdec(simp(v)))
  flag noterm
  ensures err == nil
  ensures [content] vopen(v) ==> cpv(v, c)
  ensures [content] isSMV(v) ==> ccv(v, c) && fresh(ref(c))
  ensures [independent] vopen(v) ==> fresh(ref(c)) && (isPrim(v) && prim(v).data != nil ==> fresh(prim(c).data)) && (isVArr(v) ==> fresh(varr(c).data_array)) && (isRList(v) ==> fresh(rlist(c).record_list))
iface util.IRecord.CopyConstruct(r) (c, err)
  requires (conr(r) || (isMR(r) && mrok(mrec(r)))) && wfA()
  flag noterm
  ensures err == nil
  ensures [content] isRec(r) ==> isRec(c) && fresh(ref(c)) && !rec1(c).encoded
func util.(*ValueArray).CopyConstruct(d) (c, err)
  requires d != nil && old1(d) && wfA()
  flag noterm
  let n = len(d.data_array)
  ensures err == nil
  ensures [kind] tag(c) == @type(*util.ValueArray) && fresh(ref(c))
  ensures [independent] let a = @as(*util.ValueArray, c) :: fresh(a.data_array) && len(a.data_array) == n && !a.encoded
  ensures [elements] let a = @as(*util.ValueArray, c) :: forall j: int {a.data_array[j]} :: 0 <= j < n ==> cpv(d.data_array[j], a.data_array[j]) && fresh(ref(a.data_array[j]))
  invariant for $i: int, $c: *util.ValueArray :: fresh($c) && fresh($c.data_array) && len($c.data_array) == n && !$c.encoded
  invariant for $i: int, $c: *util.ValueArray :: forall j: int {$c.data_array[j]} :: 0 <= j < $i ==> cpv(d.data_array[j], $c.data_array[j]) && fresh(ref($c.data_array[j]))
  invariant wfA()
func util.(*RecordList).CopyConstruct(d) (c, err)
  requires d != nil && old1(d) && wfA()
  flag noterm
  let n = len(d.record_list)
  ensures err == nil
  ensures [kind] tag(c) == @type(*util.RecordList) && fresh(ref(c))
  ensures [independent] let a = @as(*util.RecordList, c) :: fresh(a.record_list) && len(a.record_list) == n && !a.encoded
  ensures [records] let a = @as(*util.RecordList, c) :: forall j: int {a.record_list[j]} :: 0 <= j < n ==> isRec(a.record_list[j]) && fresh(ref(a.record_list[j]))
  invariant for $i: int, $c: *util.RecordList :: fresh($c) && fresh($c.record_list) && len($c.record_list) == n && !$c.encoded
  invariant for $i: int, $c: *util.RecordList :: forall j: int {$c.record_list[j]} :: 0 <= j < $i ==> isRec($c.record_list[j]) && fresh(ref($c.record_list[j]))
  invariant wfA()
func util.(*Record).CopyConstruct(r) (c, err)
  requires r != nil && old1(r) && wfA()
  flag noterm
  ensures err == nil
  ensures [kind] tag(c) == @type(*util.Record) && fresh(ref(c)) && !@as(*util.Record, c).encoded
  ensures [key] let d = @as(*util.Record, c) :: r.key == nil ? d.key == nil : cpk(r.key, d.key)
  ensures [value] let d = @as(*util.Record, c) :: r.value == nil ? d.value == nil : cpv(r.value, d.value) && fresh(ref(d.value))
  ensures [scheme] let d = @as(*util.Record, c) :: r.scheme == nil ? d.scheme == nil : cpv(r.scheme, d.scheme) && fresh(ref(d.scheme))
  ensures [rest] let d = @as(*util.Record, c) :: d.timestamp == r.timestamp && d.signature_r == r.signature_r && d.signature_s == r.signature_s
func util.(*Scheme).CopyConstruct(s) (c, err)
  requires s != nil && alloced(s.buckets)
  let ks = seq(s.buckets)
  hint sseq(seq(s.buckets), ks)
  ensures err == nil
  ensures [kind] tag(c) == @type(*util.Scheme) && fresh(ref(c))
  ensures [content] let d = @as(*util.Scheme, c) :: d.domain == s.domain && d.tablet == s.tablet && (d.buckets == nil <==> s.buckets == nil) && !d.encoded
  ensures [buckets] let d = @as(*util.Scheme, c) :: s.buckets != nil ==> fresh(d.buckets) && sseq(seq(d.buckets), ks)
func util.(*MappedScheme).CopyConstruct(s) (c, err)
  requires s != nil && alloced(s.buckets)
  let ks = seq(s.buckets)
  hint sseq(seq(s.buckets), ks)
  ensures err == nil
  ensures [kind] tag(c) == @type(*util.Scheme) && fresh(ref(c))
  ensures [content] let d = @as(*util.Scheme, c) :: d.domain == s.domain && d.tablet == s.tablet && (d.buckets == nil <==> s.buckets == nil) && !d.encoded
  ensures [buckets] let d = @as(*util.Scheme, c) :: s.buckets != nil ==> fresh(d.buckets) && sseq(seq(d.buckets), ks)
