use keycodec
// an encoded value at the head of b: the magic byte, a one or two byte count, a one or two byte length, the content
def vDb(b: Seq) int = b[0] / 64
def vRb(b: Seq) int = (b[0] / 16) % 4
def vLb(b: Seq) int = b[0] % 4
def vsz(k: int, b: Seq, p: int) int = k == 0 ? 0 : k == 1 ? b[p] : b[p] * 256 + b[p+1]
rec svh(b: Seq) int decreases 0 := 1 + vDb(b) + vRb(b)
rec svsize(b: Seq) int decreases 0 := vsz(vDb(b) + vRb(b), b, 1)
rec svcl(b: Seq) int decreases 0 := vsz(vLb(b), b, svh(b))
rec svlen(b: Seq) int decreases 0 := svh(b) + vLb(b) + svcl(b)
rec svok(b: Seq) bool decreases 0 := len(b) >= 1 && vDb(b) <= 2 && vRb(b) <= 2 && (vDb(b) == 0 || vRb(b) == 0) && (b[0] / 4) % 4 == 0 && vLb(b) <= 2 &&
  len(b) >= svh(b) + vLb(b) && len(b) >= svlen(b)
rec svcon(b: Seq) Seq decreases 0 := b[svlen(b)-svcl(b):svlen(b)]
// n values one after the other
rec vpos(c: Seq, n: int) int decreases n := n <= 0 ? 0 : vpos(c, n-1) + svlen(c[vpos(c,n-1):len(c)])
rec vall(c: Seq, n: int) bool decreases n := n <= 0 || (vall(c, n-1) && svok(c[vpos(c,n-1):len(c)]))
rec vrest(c: Seq, n: int) Seq decreases 0 := c[vpos(c,n):len(c)]
rec vel(c: Seq, n: int) Seq decreases 0 := vrest(c,n)[0:svlen(vrest(c,n))]
lemma vpos_bound(c: Seq, n: int)
  requires vall(c, n) && bytesS(c)
  decreases n
  hint vpos(c, n-1)
  hint vall(c, n-1)
  hint svok(c[vpos(c,n-1):len(c)])
  hint svlen(c[vpos(c,n-1):len(c)])
  ensures 0 <= vpos(c, n) <= len(c)
  trigger vall(c, n)
lemma vall_mono(c: Seq, i: int, n: int)
  requires 0 <= i <= n && vall(c, n)
  decreases n
  hint vall(c, n-1)
  ensures vall(c, i)
  trigger vall(c, i), vall(c, n)

def isSMV(v: util.IValue) bool = tag(v) == @type(*util.StandardMappedValue) && ref(v) != 0
def smv(v: util.IValue) *util.StandardMappedValue = @as(*util.StandardMappedValue, v)
// what every decoded value and record satisfies at all times
def isMR(r: util.IRecord) bool = tag(r) == @type(*util.MappedRecord) && ref(r) != 0
def mrec(r: util.IRecord) *util.MappedRecord = @as(*util.MappedRecord, r)
def wfV1() bool = forall x: *util.StandardMappedValue {x.buf} :: x != nil && x.decoded ==> len(x.buf) >= 1
def wfV2() bool = forall x: *util.StandardMappedValue {x.data_array} :: x != nil && x.decoded && x.data_array != nil ==> len(x.data_array) == x.size && alloced(x.data_array)
def wfV3() bool = forall x: *util.StandardMappedValue {x.record_list} :: x != nil && x.decoded && x.record_list != nil ==> len(x.record_list) == x.size && alloced(x.record_list)
def wfV4() bool = forall x: *util.StandardMappedValue, j: int {x.data_array[j]} :: x != nil && x.decoded && 0 <= j < len(x.data_array) && x.data_array[j] != nil ==> isSMV(x.data_array[j]) && alloced(smv(x.data_array[j])) && smv(x.data_array[j]).decoded
def wfV5() bool = forall x: *util.StandardMappedValue, j: int {x.record_list[j]} :: x != nil && x.decoded && 0 <= j < len(x.record_list) && x.record_list[j] != nil ==> isMR(x.record_list[j]) && alloced(mrec(x.record_list[j])) && mrec(x.record_list[j]).decoded
def wfM() bool = wfV1() && wfV2() && wfV3() && wfV4() && wfV5()
// x is a decoded view of exactly the bytes b
def isval(x: *util.StandardMappedValue, b: Seq) bool = x.decoded && seq(x.buf) == b && svok(b) && svlen(b) == len(b) && x.size == svsize(b) && seq(x.content) == svcon(b) &&
  (x.data_array != nil <==> vDb(b) != 0) && (x.record_list != nil <==> vRb(b) != 0)
lemma sv_trunc(b: Seq)
  requires svok(b) && bytesS(b)
  hint svok(b)
  let c = b[0:svlen(b)]
  hint svok(c)
  hint svh(b)
  hint svlen(b)
  hint svcl(b)
  hint svsize(b)
  hint svcon(b)
  hint svh(c)
  hint svlen(c)
  hint svcl(c)
  hint svsize(c)
  hint svcon(c)
  ensures len(c) == svlen(b)
  ensures c[0] == b[0]
  ensures svh(c) == svh(b)
  ensures svsize(c) == svsize(b)
  ensures svcl(c) == svcl(b)
  ensures svlen(c) == svlen(b)
  ensures svok(c)
  ensures svcon(c) == svcon(b)
  trigger svok(b)

func util.NewStandardMappedValue(buf) (d, n, err)
  let b = seq(buf)
  uses sv_trunc
  opaque svlen svsize svcon svh svcl
  ensures [accepts] err == nil <==> svok(b)
  ensures [consumed] err == nil ==> n == svlen(b) && 1 <= n <= len(buf)
  ensures [kept bytes] err == nil ==> fresh(d) && base(d.buf) == base(buf) && off(d.buf) == off(buf) && len(d.buf) == n
  ensures [kind] err == nil ==> d.decoded && d.size == svsize(b) && (d.data_array != nil <==> vDb(b) != 0) && (d.record_list != nil <==> vRb(b) != 0)
  ensures [content] err == nil ==> seq(d.content) == svcon(b) && d.content != nil
  ensures [elements] err == nil && d.data_array != nil ==> fresh(d.data_array) && len(d.data_array) == d.size && forall j: int {d.data_array[j]} :: 0 <= j < d.size ==> d.data_array[j] == nil
  ensures [elements] err == nil && d.record_list != nil ==> fresh(d.record_list) && len(d.record_list) == d.size && forall j: int {d.record_list[j]} :: 0 <= j < d.size ==> d.record_list[j] == nil
  ensures [refused] err != nil ==> d == nil
  ensures [view] err == nil ==> isval(d, b[0:svlen(b)])
  ensures [well formed] old(wfM()) ==> wfM()
func util.(*StandardMappedValue).Decode(d, ctx) (n, err)
  requires d != nil && !d.decoded && len(d.buf) >= 1 && d.data_array == nil && d.record_list == nil && d.size == 0
  let b = seq(d.buf)
  hint svok(b)
  hint svlen(b)
  hint svcl(b)
  hint svh(b)
  hint svcon(b)
  modifies util.StandardMappedValue.{decoded buf data_array record_list size lookup compression content} at d
  ensures [accepts] err == nil <==> svok(b)
  ensures [consumed] err == nil ==> n == svlen(b) && 1 <= n <= old(len(d.buf)) && base(d.buf) == old(base(d.buf)) && off(d.buf) == old(off(d.buf)) && len(d.buf) == n
  ensures [kind] err == nil ==> d.decoded && d.size == svsize(b) && (d.data_array != nil <==> vDb(b) != 0) && (d.record_list != nil <==> vRb(b) != 0)
  ensures [content] err == nil ==> seq(d.content) == svcon(b) && d.content != nil
  ensures [elements] err == nil && d.data_array != nil ==> fresh(d.data_array) && len(d.data_array) == d.size && forall j: int {d.data_array[j]} :: 0 <= j < d.size ==> d.data_array[j] == nil
  ensures [elements] err == nil && d.record_list != nil ==> fresh(d.record_list) && len(d.record_list) == d.size && forall j: int {d.record_list[j]} :: 0 <= j < d.size ==> d.record_list[j] == nil
  ensures [refused] err != nil ==> d.decoded == old(d.decoded)
  ensures [well formed] old(wfM()) ==> wfM()

// reading the parts of a decoded value
foreach T in StandardMappedValue
func util.(*${T}).IsPrimitive(d) (r)
  requires d != nil && d.decoded
  ensures r <==> d.data_array == nil && d.record_list == nil
func util.(*${T}).IsValueArray(d) (r)
  requires d != nil && d.decoded
  ensures r <==> d.data_array != nil
func util.(*${T}).IsRecordList(d) (r)
  requires d != nil && d.decoded
  ensures r <==> d.record_list != nil
func util.(*${T}).Size(d) (r)
  requires d != nil && d.decoded
  ensures r == d.size
func util.(*${T}).Value(d) (r)
  requires d != nil && d.decoded
  ensures [content] d.data_array == nil && d.record_list == nil ? r == d.content : r == nil
func util.(*${T}).Buf(d) (r)
  requires d != nil
  ensures r == d.buf
func util.(*${T}).IsNil(d) (r)
  requires d != nil && len(d.buf) >= 1
  ensures r <==> d.buf[0] == 0
func util.(*${T}).ValueMagic(d) (r)
  requires d != nil && len(d.buf) >= 1
  ensures r == d.buf[0]
endforeach
def isSimp(v: util.IValue) bool = tag(v) == @type(*util.SimpleMappedValue) && ref(v) != 0
def isPrim(v: util.IValue) bool = tag(v) == @type(*util.Primitive) && ref(v) != 0
def isVArr(v: util.IValue) bool = tag(v) == @type(*util.ValueArray) && ref(v) != 0
def isRList(v: util.IValue) bool = tag(v) == @type(*util.RecordList) && ref(v) != 0
def prim(v: util.IValue) *util.Primitive = @as(*util.Primitive, v)
def varr(v: util.IValue) *util.ValueArray = @as(*util.ValueArray, v)
def rlist(v: util.IValue) *util.RecordList = @as(*util.RecordList, v)
iface util.IValue.Buf(v) (r)
  requires isSMV(v) || isSimp(v) || (isPrim(v) && prim(v).encoded) || (isVArr(v) && varr(v).encoded) || (isRList(v) && rlist(v).encoded)
  ensures isSMV(v) ==> r == smv(v).buf
  ensures isSimp(v) ==> r == @as(*util.SimpleMappedValue, v).buf
  ensures isPrim(v) ==> r == prim(v).buf
  ensures isVArr(v) ==> r == varr(v).buf
  ensures isRList(v) ==> r == rlist(v).buf
def cacheV(d: *util.StandardMappedValue, c: Seq) bool = forall j: int {d.data_array[j]} :: 0 <= j < len(d.data_array) && d.data_array[j] != nil ==> vall(c, j+1) && isSMV(d.data_array[j]) && alloced(smv(d.data_array[j])) && isval(smv(d.data_array[j]), vel(c,j))
lemma vzero(c: Seq)
  hint vpos(c, 0)
  hint vall(c, 0)
  ensures vpos(c, 0) == 0 && vall(c, 0)
  trigger vpos(c, 0)
  trigger vall(c, 0)
lemma vstep(c: Seq, i: int)
  requires i >= 0 && vall(c, i) && bytesS(c)
  uses vpos_bound
  hint vpos(c, i+1)
  hint vall(c, i+1)
  hint vrest(c, i)
  hint vel(c, i)
  hint svok(vrest(c,i))
  hint svlen(vrest(c,i))
  opaque svsize svcon
  ensures 0 <= vpos(c,i) <= len(c)
  ensures vrest(c, i) == c[vpos(c,i):len(c)]
  ensures vall(c, i+1) <==> svok(vrest(c,i))
  ensures vel(c, i) == vrest(c,i)[0:svlen(vrest(c,i))]
  ensures svok(vrest(c,i)) ==> len(vel(c,i)) == svlen(vrest(c,i)) && vpos(c,i+1) == vpos(c,i) + len(vel(c,i)) && vpos(c,i+1) <= len(c)
  trigger vall(c, i)

func util.(*StandardMappedValue).ValueAt(d, idx) (r, err)
  requires d != nil && d.decoded && wfM() && cacheV(d, seq(d.content))
  let c = seq(d.content)
  uses vstep vall_mono vzero
  opaque svok svlen svsize svcon svh svcl vpos vall vrest vel
  let isarr = d.data_array != nil
  modifies M:util.IValue where x :: x == base(d.data_array)
  ensures wfM() && cacheV(d, c)
  ensures [accepts] err == nil <==> isarr && idx < d.size && vall(c, idx+1)
  ensures [element] err == nil ==> isSMV(r) && isval(smv(r), vel(c,idx))
  ensures [refused] err != nil ==> r == nil
  invariant wfM()
  invariant cacheV(d, c)
  invariant for $pos: int, $i: uint16 :: vall(c, $i) && $pos == vpos(c, $i) && 0 <= $pos <= len(c)
  invariant for $i: uint16 :: $i > idx ==> isSMV(d.data_array[idx])

// a plain length-prefixed content
func util.NewSimpleMappedValue(buf) (d, n, err)
  let b = seq(buf)
  ensures [accepts] err == nil <==> vcok(b)
  ensures [consumed] err == nil ==> n == vcn(b) && 0 <= n <= len(buf)
  ensures [kept bytes] err == nil ==> fresh(d) && d.decoded && base(d.buf) == base(buf) && off(d.buf) == off(buf) && len(d.buf) == n
  ensures [content] err == nil ==> seq(d.content) == vcd(b)
  ensures [refused] err != nil ==> d == nil
