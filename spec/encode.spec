use record
// bytes that decode as one key whatever follows them
rec kkok(b: Seq) bool decreases 0 := kok(b)
rec kklen(b: Seq) int decreases 0 := klen(b)
rec selfk(k: Seq) bool decreases 0 := forall t: Seq {qapp(k, t)} :: kkok(qapp(k, t)) && kklen(qapp(k, t)) == len(k)
lemma selfk_elim(k: Seq, t: Seq)
  requires selfk(k)
  opaque kkok kklen
  hint selfk(k)
  ensures kkok(qapp(k, t)) && kklen(qapp(k, t)) == len(k)
  trigger qapp(k, t), selfk(k)
lemma plain_self_t(s: SS, t: Seq)
  requires short(s)
  uses key_round_trip
  opaque uvn uvv vsn vsok uvenc kenc
  let b = qapp(kbytes(s), t)
  hint kkok(b)
  hint kklen(b)
  ensures kkok(b) && kklen(b) == len(kbytes(s))
  trigger qapp(qapp(uvenc(sslen(s)), kenc(s, sslen(s))), t)
lemma plain_self(s: SS)
  requires short(s)
  uses plain_self_t
  opaque uvn uvv vsn vsok uvenc kenc kkok kklen
  hint selfk(kbytes(s))
  ensures selfk(kbytes(s))
  trigger uvenc(sslen(s)), kenc(s, sslen(s))
// what the encoders produce
def wr1(k: int) Seq = qone(k)
rec primenc(s: Seq) Seq decreases 0 := len(s) == 0 ? qone(0) : len(s) < 256 ? qapp(qapp(qone(1), qone(len(s))), s) : qapp(qapp(qone(2), qapp(qone(len(s) / 256), qone(len(s) % 256))), s)
// header of a container of n elements whose content has l bytes; k is 64 for values and 16 for records
rec conhead(k: int, n: int, l: int) int decreases 0 := (n == 0 ? 0 : n < 256 ? k : 2*k) + (l == 0 ? 0 : l < 256 ? 1 : 2)
rec num12(n: int) Seq decreases 0 := n == 0 ? sempty : n < 256 ? qone(n) : qapp(qone(n / 256), qone(n % 256))
rec conenc(k: int, n: int, c: Seq) Seq decreases 0 := qapp(qapp(qapp(qone(conhead(k, n, len(c))), num12(n)), num12(len(c))), c)
def conval(k: int, n: int, b: Seq) bool = svok(b) && svlen(b) == len(b) && svsize(b) == n && (k == 64 ? vRb(b) == 0 && (vDb(b) != 0 <==> n > 0) : vDb(b) == 0 && (vRb(b) != 0 <==> n > 0))
lemma prim_ok(s: Seq, t: Seq)
  requires len(s) < 65536
  let b = qapp(primenc(s), t)
  hint primenc(s)
  hint svok(b)
  hint svh(b)
  hint svlen(b)
  hint svcl(b)
  hint svsize(b)
  hint svcon(b)
  ensures svok(b)
  ensures svlen(b) == len(primenc(s))
  ensures svcon(b) == s
  ensures svsize(b) == 0 && vDb(b) == 0 && vRb(b) == 0
  trigger qapp(primenc(s), t)
lemma con_head(k: int, n: int, l: int)
  requires (k == 64 || k == 16) && 0 <= n && 0 <= l
  let h = conhead(k, n, l)
  hint conhead(k, n, l)
  assert k == 64 ==> h == 0 || h == 1 || h == 2 || h == 64 || h == 65 || h == 66 || h == 128 || h == 129 || h == 130
  assert k == 16 ==> h == 0 || h == 1 || h == 2 || h == 16 || h == 17 || h == 18 || h == 32 || h == 33 || h == 34
  ensures h % 4 == (l == 0 ? 0 : l < 256 ? 1 : 2)
  ensures (h / 4) % 4 == 0
  ensures k == 64 ==> h / 64 == (n == 0 ? 0 : n < 256 ? 1 : 2) && (h / 16) % 4 == 0
  ensures k == 16 ==> (h / 16) % 4 == (n == 0 ? 0 : n < 256 ? 1 : 2) && h / 64 == 0
  ensures 0 <= h < 256
  trigger conhead(k, n, l)
lemma num12_val(n: int)
  requires 0 <= n < 65536
  hint num12(n)
  let q = num12(n)
  ensures len(q) == (n == 0 ? 0 : n < 256 ? 1 : 2)
  ensures n > 0 && n < 256 ==> q[0] == n
  ensures n >= 256 ==> q[0] * 256 + q[1] == n
  trigger num12(n)
lemma con_ok(k: int, n: int, c: Seq, t: Seq)
  requires (k == 64 || k == 16) && 0 <= n < 65536 && len(c) < 65536
  uses con_head num12_val
  opaque conhead num12
  let b = qapp(conenc(k, n, c), t)
  hint conenc(k, n, c)
  hint conhead(k, n, len(c))
  hint num12(n)
  hint num12(len(c))
  hint svok(b)
  hint svh(b)
  hint svlen(b)
  hint svcl(b)
  hint svsize(b)
  hint svcon(b)
  ensures b[0] == conhead(k, n, len(c))
  ensures vLb(b) == len(num12(len(c)))
  ensures k == 64 ? vDb(b) == len(num12(n)) && vRb(b) == 0 : vRb(b) == len(num12(n)) && vDb(b) == 0
  ensures (b[0] / 4) % 4 == 0
  ensures svh(b) == 1 + len(num12(n))
  ensures n > 0 ==> b[1:1+len(num12(n))] == num12(n)
  ensures b[1+len(num12(n)):1+len(num12(n))+len(num12(len(c)))] == num12(len(c))
  ensures len(c) > 0 ==> b[svh(b)] == num12(len(c))[0] 
  ensures len(c) > 255 ==> b[svh(b)+1] == num12(len(c))[1] 
  ensures svsize(b) == n
  ensures svcl(b) == len(c)
  ensures svok(b)
  ensures svlen(b) == len(conenc(k, n, c))
  ensures svcon(b) == c
  ensures n > 0 ==> (k == 64 ? vDb(b) != 0 && vRb(b) == 0 : vRb(b) != 0 && vDb(b) == 0)
  ensures n == 0 ==> vDb(b) == 0 && vRb(b) == 0
  trigger qapp(conenc(k, n, c), t)
// what the head of a buffer holds does not depend on what follows it
lemma sv_ext(p: Seq, t: Seq)
  requires svok(p) && bytesS(p)
  let b = qapp(p, t)
  hint svok(p)
  hint svh(p)
  hint svlen(p)
  hint svcl(p)
  hint svsize(p)
  hint svcon(p)
  hint svok(b)
  hint svh(b)
  hint svlen(b)
  hint svcl(b)
  hint svsize(b)
  hint svcon(b)
  ensures b[0] == p[0]
  ensures svh(b) == svh(p)
  ensures svsize(b) == svsize(p)
  ensures svcl(b) == svcl(p)
  ensures svok(b)
  ensures svlen(b) == svlen(p)
  ensures svcon(b) == svcon(p)
  ensures b[0:svlen(p)] == p[0:svlen(p)]
  trigger svok(p), qapp(p, t)
lemma vkeep(c: Seq, t: Seq, i: int)
  requires vall(c, i) && i >= 0 && bytesS(c) && bytesS(t)
  uses vpos_bound vstep vzero sv_ext
  decreases i
  opaque svh svcl svsize svcon svlen svok
  let b = qapp(c, t)
  hint vall(c, i-1)
  hint vall(b, i-1)
  hint vall(b, 0)
  hint vall(c, 0)
  hint vrest(c, i-1)
  hint vrest(b, i-1)
  hint vel(c, i-1)
  hint vel(b, i-1)
  hint qapp(vrest(c, i-1), t)
  hint vpos(c, i)
  hint vpos(b, i)
  hint vall(b, i)
  assert bytesS(b)
  assert i > 0 ==> vrest(b, i-1) == qapp(vrest(c, i-1), t)
  assert i > 0 ==> vall(b, i-1)
  assert i > 0 ==> vpos(b, i-1) == vpos(c, i-1)
  assert i > 0 ==> svok(vrest(c, i-1))
  assert i > 0 ==> bytesS(vrest(c, i-1))
  assert i > 0 ==> svok(qapp(vrest(c, i-1), t))
  assert i > 0 ==> svok(vrest(b, i-1))
  assert i > 0 ==> vrest(b, i-1) == b[vpos(b, i-1):len(b)]
  assert i > 0 ==> svlen(vrest(b, i-1)) == svlen(vrest(c, i-1))
  ensures vall(b, i)
  ensures vpos(b, i) == vpos(c, i)
  ensures i > 0 ==> vel(b, i-1) == vel(c, i-1)
  trigger vall(c, i), qapp(c, t)
lemma vkeep_el(c: Seq, t: Seq, j: int, n: int)
  requires vall(c, n) && 0 <= j < n && bytesS(c) && bytesS(t)
  uses vkeep vall_mono
  opaque svh svcl svsize svcon svlen svok vpos vall vrest vel
  hint vall(c, j+1)
  ensures vel(qapp(c, t), j) == vel(c, j)
  trigger vel(qapp(c, t), j), vall(c, n)
lemma vsnoc(c: Seq, e: Seq, i: int)
  requires vall(c, i) && i >= 0 && vpos(c, i) == len(c) && svok(e) && svlen(e) == len(e) && bytesS(c) && bytesS(e)
  uses vkeep vstep
  opaque svh svcl svsize svcon svlen svok vpos vall vrest vel
  let b = qapp(c, e)
  hint vall(b, i)
  assert bytesS(b)
  assert vpos(b, i) == len(c)
  assert vrest(b, i) == e
  ensures vall(b, i+1)
  ensures vpos(b, i+1) == len(b)
  ensures vel(b, i) == e
  trigger vall(c, i), qapp(c, e)

def isRec(r: util.IRecord) bool = tag(r) == @type(*util.Record) && ref(r) != 0
def rec1(r: util.IRecord) *util.Record = @as(*util.Record, r)
def okv(v: util.IValue) bool = isSMV(v) || isSimp(v) || isPrim(v) || isVArr(v) || isRList(v)
def okr(r: util.IRecord) bool = isMR(r) || isRec(r)
def isKy(k: util.IKey) bool = tag(k) == @type(*util.Key) && ref(k) != 0
def ky(k: util.IKey) *util.Key = @as(*util.Key, k)
// what every constructed value, record and key satisfies at all times
def wfC1() bool = forall x: *util.Primitive {x.data} :: x != nil ==> alloced(x.data)
def wfC2() bool = forall x: *util.ValueArray {x.data_array} :: x != nil ==> x.data_array != nil && alloced(x.data_array)
def wfC3() bool = forall x: *util.ValueArray, j: int {x.data_array[j]} :: x != nil && 0 <= j < len(x.data_array) ==> okv(x.data_array[j])
def wfC4() bool = forall x: *util.RecordList {x.record_list} :: x != nil ==> x.record_list != nil && alloced(x.record_list)
def wfC5() bool = forall x: *util.RecordList, j: int {x.record_list[j]} :: x != nil && 0 <= j < len(x.record_list) ==> okr(x.record_list[j])
def okrv(v: util.IValue) bool = okv(v) && (isSMV(v) ==> len(smv(v).buf) >= 1)
def isEK(k: util.IKey) bool = tag(k) == @type(*util.EmptyKey) && ref(k) != 0
// the keys a record can carry: a decoded one must not rely on missing bytes
def okrk(k: util.IKey) bool = isKy(k) || (isMK(k) && mk(k).decoded && alloced(mk(k).buf) && selfk(seq(mk(k).buf))) || isEK(k)
def wfC6() bool = forall x: *util.Record {x.key} {x.value} {x.scheme} :: x != nil ==> (x.key != nil ==> okrk(x.key)) && (x.value != nil ==> okrv(x.value)) && (x.scheme != nil ==> okrv(x.scheme))
def timeOk(t: *time.Time) bool = t != nil ==> 0 - 9223372036854775808 <= timenum(t) <= 9223372036854775807
def numOk(d: *big.Int) bool = d != nil ==> 0 <= bignum(d) < two256
def wfC8() bool = forall x: *util.Record {x.timestamp} {x.signature_r} {x.signature_s} :: x != nil ==> timeOk(x.timestamp) && numOk(x.signature_r) && numOk(x.signature_s)
def wfC7() bool = forall x: *util.Key {x.keys} :: x != nil ==> alloced(x.keys) && keysOk(x.keys)
def wfC() bool = wfC1() && wfC2() && wfC3() && wfC4() && wfC5() && wfC6() && wfC7() && wfC8()
// b is a complete encoding of the kind and size of v
def encp(x: *util.Primitive, b: Seq) bool = b == primenc(seq(x.data))
def enc1v(v: util.IValue, b: Seq) bool = (isPrim(v) ==> encp(prim(v), b)) && (isVArr(v) ==> conval(64, len(varr(v).data_array), b)) && (isRList(v) ==> conval(16, len(rlist(v).record_list), b))
def encd(v: util.IValue) bool = (isPrim(v) && prim(v).encoded) || (isVArr(v) && varr(v).encoded) || (isRList(v) && rlist(v).encoded)
func util.(*Primitive).Encode(d, ctx) (err)
  requires d != nil && alloced(d.data)
  modifies util.Primitive.{encoded magic buf} at d
  let c = seq(d.data)
  hint primenc(c)
  ensures [accepts] err == nil <==> len(c) < 65536
  ensures [bytes] err == nil ==> d.encoded && seq(d.buf) == primenc(c) && fresh(d.buf)
  ensures [magic] err == nil ==> d.magic == d.buf[0]
  ensures [refused] err != nil ==> d.encoded == old(d.encoded) && d.buf == old(d.buf)
func util.(*Primitive).Buf(d) (r)
  requires d != nil
  may_panic !d.encoded
  ensures [current bytes] d.encoded && r == d.buf
func util.(*Primitive).IsNil(d) (r)
  requires d != nil
  ensures r <==> len(d.data) == 0
func util.(*Primitive).Value(d) (r)
  requires d != nil
  ensures r == d.data
func util.(*Primitive).ValueMagic(d) (r)
  requires d != nil && d.encoded
  ensures r == d.magic
lemma num12_bytes(n: int)
  requires 0 <= n < 65536
  hint num12(n)
  ensures bytesS(num12(n))
  trigger num12(n)
lemma con_bytes(k: int, n: int, c: Seq)
  requires (k == 64 || k == 16) && 0 <= n < 65536 && len(c) < 65536 && bytesS(c)
  uses con_head num12_bytes
  opaque conhead num12
  hint conenc(k, n, c)
  ensures bytesS(conenc(k, n, c))
  trigger conenc(k, n, c)
def nb(n: int) int = n == 0 ? 0 : n < 256 ? 1 : 2
lemma con_is(p: Seq, c: Seq, n: int)
  requires 0 <= n < 65536 && len(c) < 65536
  let l = len(c)
  let o = 1 + nb(n)
  requires len(p) == o + nb(l)
  requires n > 0 && n < 256 ==> p[1] == n
  requires n >= 256 ==> p[1] == n / 256 && p[2] == n % 256
  requires l > 0 && l < 256 ==> p[o] == l
  requires l >= 256 ==> p[o] == l / 256 && p[o+1] == l % 256
  hint num12(n)
  hint num12(l)
  hint conenc(64, n, c)
  hint conenc(16, n, c)
  ensures p[0] == 64 * nb(n) + nb(l) ==> qapp(p, c) == conenc(64, n, c)
  ensures p[0] == 16 * nb(n) + nb(l) ==> qapp(p, c) == conenc(16, n, c)
  trigger qapp(p, c), vall(c, n)
lemma con_ok0(k: int, n: int, c: Seq)
  requires (k == 64 || k == 16) && 0 <= n < 65536 && len(c) < 65536 && bytesS(c)
  uses con_ok con_bytes
  opaque conhead num12 conenc svok svh svlen svcl svsize svcon
  let b = conenc(k, n, c)
  hint qapp(b, sempty)
  assert qapp(b, sempty) == b

  ensures svok(b) && svlen(b) == len(b) && svsize(b) == n && svcon(b) == c
  ensures conval(k, n, b)
  trigger conenc(k, n, c)
lemma con_nil(b: Seq)
  requires len(b) == 1 && b[0] == 0
  hint conenc(64, 0, sempty)
  hint conenc(16, 0, sempty)
  hint conhead(64, 0, 0)
  hint conhead(16, 0, 0)
  hint num12(0)
  hint svok(b)
  hint svlen(b)
  hint svh(b)
  hint svcl(b)
  hint svsize(b)
  hint svcon(b)
  assert conhead(64, 0, 0) == 0 && conhead(16, 0, 0) == 0
  assert num12(0) == sempty
  assert b == qone(0)
  ensures conval(64, 0, b) && conval(16, 0, b) && svcon(b) == sempty
  trigger svok(b)
lemma prim_ok0(s: Seq)
  requires len(s) < 65536 && bytesS(s)
  uses prim_ok
  let b = primenc(s)
  hint qapp(b, sempty)
  hint primenc(s)
  opaque svok svh svlen svcl svsize svcon
  assert qapp(b, sempty) == b
  ensures svok(b) && svlen(b) == len(b) && svsize(b) == 0 && vDb(b) == 0 && vRb(b) == 0 && svcon(b) == s && bytesS(b)
  trigger primenc(s)
lemma sv_pos(b: Seq)
  requires svok(b) && bytesS(b)
  hint svlen(b)
  hint svh(b)
  hint svcl(b)
  ensures 1 <= svlen(b) <= len(b)
  trigger svok(b)
iface util.IValue.Encode(v, ctx) (err)
  requires okv(v) && wfC()
  flag noterm
  modifies util.Primitive.{encoded magic buf}
  modifies util.ValueArray.{encoded buf estBufSize}
  modifies util.RecordList.{encoded buf estBufSize}
  modifies util.Record.{encoded buf}
  modifies util.Key.{buf estBufSize encoded}
  ensures [accepts] err == nil ==> encd(v)
  ensures [accepts] err == nil && isPrim(v) ==> encp(prim(v), seq(prim(v).buf))
  ensures [accepts] err == nil && isVArr(v) ==> conval(64, len(varr(v).data_array), seq(varr(v).buf))
  ensures [accepts] err == nil && isRList(v) ==> conval(16, len(rlist(v).record_list), seq(rlist(v).buf))
  ensures [accepts] isPrim(v) ==> (err == nil <==> len(prim(v).data) < 65536)
  ensures [independent] err == nil ==> (isPrim(v) ==> fresh(prim(v).buf)) && (isVArr(v) ==> fresh(varr(v).buf)) && (isRList(v) ==> fresh(rlist(v).buf))
func util.(*ValueArray).Encode(d, ctx) (err)
  requires d != nil && wfC()
  flag noterm
  modifies util.Primitive.{encoded magic buf}
  modifies util.ValueArray.{encoded buf estBufSize}
  modifies util.RecordList.{encoded buf estBufSize}
  modifies util.Record.{encoded buf}
  modifies util.Key.{buf estBufSize encoded}
  uses vkeep_el vsnoc vzero con_ok0 con_head con_is con_nil prim_ok0 sv_pos
  opaque svh svcl svsize svcon svlen svok vpos vall vrest vel primenc conenc
  let n = len(d.data_array)
  hint svok(seq(d.buf))
  ensures [accepts] err == nil ==> d.encoded && conval(64, n, seq(d.buf)) && n < 65536 && len(d.buf) <= 65540
  ensures [elements] err == nil ==> vall(svcon(seq(d.buf)), n) && vpos(svcon(seq(d.buf)), n) == len(svcon(seq(d.buf)))
  ensures [elements] err == nil ==> forall j: int {d.data_array[j]} {vel(svcon(seq(d.buf)), j)} :: 0 <= j < n ==> enc1v(d.data_array[j], vel(svcon(seq(d.buf)), j))
  ensures [size] err == nil ==> d.estBufSize == len(d.buf)
  ensures [independent] err == nil ==> fresh(d.buf)
  invariant for $i: int, $content_buf: []byte :: vall(seq($content_buf), $i) && vpos(seq($content_buf), $i) == len($content_buf)
  invariant for $content_buf: []byte :: fresh($content_buf)
  invariant for $i: int, $content_buf: []byte :: $i <= len($content_buf)
  invariant for $i: int, $content_buf: []byte :: forall j: int {d.data_array[j]} {vel(seq($content_buf), j)} :: 0 <= j < $i ==> enc1v(d.data_array[j], vel(seq($content_buf), j))
func util.(*ValueArray).Buf(d) (r)
  requires d != nil
  may_panic !d.encoded
  ensures [current bytes] d.encoded && r == d.buf
func util.(*ValueArray).IsNil(d) (r)
  requires d != nil
  ensures r <==> len(d.data_array) == 0
func util.(*StandardMappedValue).Encode(d, ctx) (err)
  ensures err != nil
func util.(*SimpleMappedValue).Encode(d, ctx) (err)
  ensures err != nil
func util.(*RecordList).Buf(d) (r)
  requires d != nil
  may_panic !d.encoded
  ensures [current bytes] d.encoded && r == d.buf
func util.(*RecordList).IsNil(d) (r)
  requires d != nil
  ensures r <==> len(d.record_list) == 0
func util.(*MappedKey).Encode(k, ctx) (err)
  ensures err == nil
func util.(*EmptyKey).Encode(k, ctx) (err)
  ensures err == nil
func util.(*SimpleMappedValue).IsNil(d) (r)
  requires d != nil
  ensures r <==> len(d.content) == 0
def kempty(k: util.IKey) bool = isKy(k) ? len(ky(k).keys) == 0 : isMK(k) ? len(mk(k).buf) == 0 || len(mk(k).keys) == 0 : true
def nilv(v: util.IValue) bool = isPrim(v) ? len(prim(v).data) == 0 : isVArr(v) ? len(varr(v).data_array) == 0 : isRList(v) ? len(rlist(v).record_list) == 0 : isSMV(v) ? smv(v).buf[0] == 0 : len(@as(*util.SimpleMappedValue, v).content) == 0
iface util.IKey.IsEmpty(k) (r)
  requires isKy(k) || (isMK(k) && mk(k).decoded) || isEK(k)
  ensures r <==> kempty(k)
iface util.IKey.Encode(k, ctx) (err)
  requires isKy(k) || (isMK(k) && mk(k).decoded) || isEK(k)
  requires isKy(k) ==> keysOk(ky(k).keys)
  modifies util.Key.{buf estBufSize encoded}
  ensures [accepts] isKy(k) ? (err == nil <==> len(kwant(ky(k))) <= 4096) : err == nil
  ensures [bytes] isKy(k) && err == nil ==> ky(k).encoded && seq(ky(k).buf) == kwant(ky(k)) && fresh(ky(k).buf)
iface util.IKey.Buf(k) (r)
  requires (isKy(k) && ky(k).encoded) || (isMK(k) && mk(k).decoded) || isEK(k)
  ensures isKy(k) ==> r == ky(k).buf
  ensures isMK(k) && !kempty(k) ==> r == mk(k).buf
iface util.IValue.IsNil(v) (r)
  requires okrv(v)
  ensures r <==> nilv(v)
lemma prim_len(s: Seq)
  hint primenc(s)
  ensures len(primenc(s)) == (len(s) == 0 ? 1 : len(s) < 256 ? 2 + len(s) : 3 + len(s))
  trigger primenc(s)
// a record encoder never fails at run time and marks the record as encoded exactly when it reports success
func util.(*Record).Encode(r, ctx) (err)
  requires r != nil && wfC()
  flag noterm seqonly join
  modifies util.Primitive.{encoded magic buf}
  modifies util.ValueArray.{encoded buf estBufSize}
  modifies util.RecordList.{encoded buf estBufSize}
  modifies util.Record.{encoded buf}
  modifies util.Key.{buf estBufSize encoded}
  uses con_head prim_len
  opaque conenc primenc conhead num12
  ensures [accepts] err == nil ==> r.encoded && fresh(r.buf) && len(r.buf) >= 1
  ensures [size limit] err == nil ==> len(r.buf) <= 1 + 4096 + 57344 + 1024 + 8 + 64
  ensures [key limit] err == nil && isMK(r.key) && !kempty(r.key) ==> len(mk(r.key).buf) <= 4096
  ensures [value limit] err == nil && isPrim(r.value) ==> len(prim(r.value).data) <= 57344 - 3
  ensures [scheme limit] err == nil && isPrim(r.scheme) ==> len(prim(r.scheme).data) <= 1024 - 3
  invariant for $buf: phi []byte :: fresh($buf) && len($buf) >= 1
  invariant for $buf: phi []byte :: len($buf) <= 1 + 4096
  invariant for $buf: phi []byte :: len($buf) <= 1 + 4096 + 57344
  invariant for $buf: phi []byte :: len($buf) <= 1 + 4096 + 57344 + 1024
  invariant for $buf: phi []byte :: len($buf) <= 1 + 4096 + 57344 + 1024 + 8 + 64
  invariant for $buf: phi []byte :: isMK(r.key) && !kempty(r.key) ==> len(mk(r.key).buf) <= 4096
  invariant for $buf: phi []byte :: isPrim(r.value) ==> len(prim(r.value).data) <= 57344 - 3
  invariant for $buf: phi []byte :: isPrim(r.scheme) ==> len(prim(r.scheme).data) <= 1024 - 3
func util.(*MappedRecord).Encode(r, ctx) (err)
  ensures err != nil
func util.(*Record).Buf(r) (b)
  requires r != nil
  may_panic !r.encoded
  ensures [current bytes] r.encoded && b == r.buf
iface util.IRecord.Encode(r, ctx) (err)
  requires okr(r) && wfC()
  flag noterm
  modifies util.Primitive.{encoded magic buf}
  modifies util.ValueArray.{encoded buf estBufSize}
  modifies util.RecordList.{encoded buf estBufSize}
  modifies util.Record.{encoded buf}
  modifies util.Key.{buf estBufSize encoded}
  ensures [accepts] err == nil ==> isRec(r) && rec1(r).encoded
