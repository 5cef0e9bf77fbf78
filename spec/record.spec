use value time
// an encoded record at the head of b: the magic byte, then the parts it announces
def rKey(b: Seq) bool = (b[0] / 64) % 2 == 1
def rVal(b: Seq) bool = (b[0] / 32) % 2 == 1
def rSch(b: Seq) bool = (b[0] / 16) % 2 == 1
def rTim(b: Seq) bool = (b[0] / 4) % 2 == 1
def rSig(b: Seq) bool = (b[0] / 2) % 2 == 1
rec rtl(b: Seq, p: int) Seq decreases 0 := b[p:len(b)]
rec rk(b: Seq) int decreases 0 := 1 + (rKey(b) ? klen(rtl(b, 1)) : 0)
rec rv(b: Seq) int decreases 0 := rk(b) + (rVal(b) ? svlen(rtl(b, rk(b))) : 0)
rec rs(b: Seq) int decreases 0 := rv(b) + (rSch(b) ? svlen(rtl(b, rv(b))) : 0)
rec rt(b: Seq) int decreases 0 := rs(b) + (rTim(b) ? 8 : 0)
rec rsigned(b: Seq) bool decreases 0 := rSig(b) && len(b) >= rt(b) + 64
rec rlen(b: Seq) int decreases 0 := rt(b) + (rsigned(b) ? 64 : 0)
rec rkok(b: Seq) bool decreases 0 := rKey(b) ==> kok(rtl(b, 1)) && klen(rtl(b, 1)) <= 4096
rec rvok(b: Seq) bool decreases 0 := rVal(b) ==> svok(rtl(b, rk(b))) && svlen(rtl(b, rk(b))) <= 57344
rec rsok(b: Seq) bool decreases 0 := rSch(b) ==> svok(rtl(b, rv(b))) && svlen(rtl(b, rv(b))) <= 1024
rec rtok(b: Seq) bool decreases 0 := rTim(b) ==> len(b) >= rs(b) + 8
rec rok(b: Seq) bool decreases 0 := len(b) >= 1 && rkok(b) && rvok(b) && rsok(b) && rtok(b)
rec valhead(b: Seq) Seq decreases 0 := b[0:svlen(b)]
// x is the decoded view of the record at the head of b
def isMK(k: util.IKey) bool = tag(k) == @type(*util.MappedKey) && ref(k) != 0
def mk(k: util.IKey) *util.MappedKey = @as(*util.MappedKey, k)
def iskey(k: *util.MappedKey, b: Seq) bool = k.decoded && keysOk(k.keys) && len(k.keys) == kcnt(b) && len(k.buf) == klen(b) && forall j: int {ssat(seq(k.keys), j)} :: 0 <= j < kcnt(b) ==> ssat(seq(k.keys), j) == vsat(kbody(b), j)
def isrecK(x: *util.MappedRecord, b: Seq) bool = rKey(b) ? isMK(x.key) && iskey(mk(x.key), rtl(b, 1)) : x.key == nil
def isrecV(x: *util.MappedRecord, b: Seq) bool = rVal(b) ? isSMV(x.value) && isval(smv(x.value), valhead(rtl(b, rk(b)))) : x.value == nil
def isrecS(x: *util.MappedRecord, b: Seq) bool = rSch(b) ? isSMV(x.scheme) && isval(smv(x.scheme), valhead(rtl(b, rv(b)))) : x.scheme == nil
def isrecT(x: *util.MappedRecord, b: Seq) bool = rTim(b) ? x.timestamp != nil && timenum(x.timestamp) == s64(be64(b, rs(b))) : x.timestamp == nil
def isrecG(x: *util.MappedRecord, b: Seq) bool = rsigned(b) ? x.signature_r != nil && x.signature_s != nil && bignum(x.signature_r) == beval(b[rt(b):rt(b)+32], 32) && bignum(x.signature_s) == beval(b[rt(b)+32:rt(b)+64], 32) : x.signature_r == nil && x.signature_s == nil
def wfR(x: *util.MappedRecord) bool = x.decoded ==> len(x.buf) >= 1 && (x.key != nil ==> isMK(x.key) && alloced(mk(x.key)) && mk(x.key).decoded) &&
  (x.value != nil ==> isSMV(x.value) && alloced(smv(x.value)) && smv(x.value).decoded) && (x.scheme != nil ==> isSMV(x.scheme) && alloced(smv(x.scheme)) && smv(x.scheme).decoded)
def wfMR() bool = forall x: *util.MappedRecord {x.decoded} {x.buf} {x.key} {x.value} {x.scheme} :: x != nil ==> wfR(x)

func util.(*MappedRecord).Decode(r, ctx) (n, err)
  requires r != nil && !r.decoded && len(r.buf) >= 1 && r.key == nil && r.value == nil && r.scheme == nil && r.timestamp == nil && r.signature_r == nil && r.signature_s == nil
  let b = seq(r.buf)
  opaque svok svlen svsize svcon svh svcl vpos vall vrest vel uvn uvv vsn vsok beval
  modifies util.MappedRecord.{decoded buf key value scheme timestamp signature_r signature_s} at r
  ensures [accepts] err == nil <==> rok(b)
  ensures [consumed] err == nil ==> n == rlen(b) && 1 <= n <= old(len(r.buf)) && base(r.buf) == old(base(r.buf)) && off(r.buf) == old(off(r.buf)) && len(r.buf) == n
  ensures [decoded] err == nil ==> r.decoded && seq(r.buf) == b[0:rlen(b)]
  ensures [key] err == nil ==> isrecK(r, b)
  ensures [value] err == nil ==> isrecV(r, b)
  ensures [scheme] err == nil ==> isrecS(r, b)
  ensures [timestamp] err == nil ==> isrecT(r, b)
  ensures [signature] err == nil ==> isrecG(r, b)
  ensures [refused] err != nil ==> !r.decoded
  ensures [well formed] old(wfM()) ==> wfM()
  ensures [well formed] old(wfMR()) ==> wfMR()
func util.NewMappedRecord(buf) (r, n, err)
  let b = seq(buf)
  opaque svok svlen svsize svcon svh svcl vpos vall vrest vel uvn uvv vsn vsok beval rk rv rs rt rsigned rlen rkok rvok rsok rtok
  ensures [accepts] err == nil <==> rok(b)
  ensures [consumed] err == nil ==> n == rlen(b) && 1 <= n <= len(buf)
  ensures [kept bytes] err == nil ==> fresh(r) && base(r.buf) == base(buf) && off(r.buf) == off(buf) && len(r.buf) == n
  ensures [decoded] err == nil ==> r.decoded && seq(r.buf) == b[0:rlen(b)]
  ensures [key] err == nil ==> isrecK(r, b)
  ensures [value] err == nil ==> isrecV(r, b)
  ensures [scheme] err == nil ==> isrecS(r, b)
  ensures [timestamp] err == nil ==> isrecT(r, b)
  ensures [signature] err == nil ==> isrecG(r, b)
  ensures [refused] err != nil ==> r == nil
  ensures [well formed] old(wfM()) ==> wfM()
  ensures [well formed] old(wfMR()) ==> wfMR()

func util.(*MappedRecord).Key(r) (k)
  requires r != nil && r.decoded
  ensures k == r.key
func util.(*MappedRecord).Value(r) (k)
  requires r != nil && r.decoded
  ensures k == r.value
func util.(*MappedRecord).Scheme(r) (k)
  requires r != nil && r.decoded
  ensures k == r.scheme
func util.(*MappedRecord).Timestamp(r) (k)
  requires r != nil && r.decoded
  ensures k == r.timestamp
func util.(*MappedRecord).Signature(r) (k, l)
  requires r != nil && r.decoded
  ensures k == r.signature_r && l == r.signature_s
func util.(*MappedRecord).Buf(r) (k)
  requires r != nil
  ensures k == r.buf
func util.(*MappedRecord).RecordMagic(r) (k)
  requires r != nil && (r.decoded ==> len(r.buf) >= 1)
  ensures k == (r.decoded ? r.buf[0] : 255)

// n records one after the other
rec rpos(c: Seq, n: int) int decreases n := n <= 0 ? 0 : rpos(c, n-1) + rlen(c[rpos(c,n-1):len(c)])
rec rall(c: Seq, n: int) bool decreases n := n <= 0 || (rall(c, n-1) && rok(c[rpos(c,n-1):len(c)]))
rec rrest(c: Seq, n: int) Seq decreases 0 := c[rpos(c,n):len(c)]
rec rel(c: Seq, n: int) Seq decreases 0 := rrest(c,n)[0:rlen(rrest(c,n))]
lemma klen_bound(b: Seq)
  requires kok(b) && bytesS(b)
  uses vsn_bound uvv_bound uvn_bound
  hint vsok(kbody(b), kcnt(b))
  ensures 0 <= klen(b) <= len(b)
lemma svlen_bound(b: Seq)
  requires svok(b) && bytesS(b)
  hint svlen(b)
  ensures 1 <= svlen(b) <= len(b)
lemma rlen_bound(b: Seq)
  requires rok(b) && bytesS(b)
  uses klen_bound svlen_bound
  opaque svok svlen svh svcl svsize svcon uvn uvv vsn vsok
  assert rkok(b)
  assert rvok(b)
  hint rlen(b)
  ensures 1 <= rk(b) <= len(b)
  ensures 1 <= rv(b) <= len(b)
  ensures 1 <= rs(b) <= len(b)
  ensures 1 <= rlen(b) <= len(b)
  trigger rok(b)
lemma rpos_bound(c: Seq, n: int)
  requires rall(c, n) && bytesS(c)
  uses rlen_bound
  decreases n
  opaque rok rlen
  hint rpos(c, n-1)
  hint rall(c, n-1)
  hint rok(c[rpos(c,n-1):len(c)])
  ensures 0 <= rpos(c, n) <= len(c)
  trigger rall(c, n)
lemma rall_mono(c: Seq, i: int, n: int)
  requires 0 <= i <= n && rall(c, n)
  decreases n
  opaque rok rlen
  hint rall(c, n-1)
  ensures rall(c, i)
  trigger rall(c, i), rall(c, n)
lemma rzero(c: Seq)
  hint rpos(c, 0)
  hint rall(c, 0)
  ensures rpos(c, 0) == 0 && rall(c, 0)
  trigger rpos(c, 0)
  trigger rall(c, 0)
lemma rstep(c: Seq, i: int)
  requires i >= 0 && rall(c, i) && bytesS(c)
  uses rpos_bound rlen_bound
  opaque rok rlen
  hint rpos(c, i+1)
  hint rall(c, i+1)
  hint rrest(c, i)
  hint rel(c, i)
  hint rok(rrest(c,i))
  hint rlen(rrest(c,i))
  ensures 0 <= rpos(c,i) <= len(c)
  ensures rrest(c, i) == c[rpos(c,i):len(c)]
  ensures rall(c, i+1) <==> rok(rrest(c,i))
  ensures rel(c, i) == rrest(c,i)[0:rlen(rrest(c,i))]
  ensures rok(rrest(c,i)) ==> len(rel(c,i)) == rlen(rrest(c,i)) && rpos(c,i+1) == rpos(c,i) + len(rel(c,i)) && rpos(c,i+1) <= len(c)
  trigger rall(c, i)
iface util.IRecord.Buf(v) (r)
  requires isMR(v) || (tag(v) == @type(*util.Record) && ref(v) != 0 && @as(*util.Record, v).encoded)
  ensures isMR(v) ==> r == mrec(v).buf
  ensures tag(v) == @type(*util.Record) ==> r == @as(*util.Record, v).buf
def isrec(x: *util.MappedRecord, b: Seq) bool = x.decoded && isrecK(x, b) && isrecV(x, b) && isrecS(x, b) && isrecT(x, b) && isrecG(x, b)
def cacheR(d: *util.StandardMappedValue, c: Seq) bool = forall j: int {d.record_list[j]} :: 0 <= j < len(d.record_list) && d.record_list[j] != nil ==> rall(c, j+1) && isMR(d.record_list[j]) && alloced(mrec(d.record_list[j])) && mrec(d.record_list[j]).decoded && seq(mrec(d.record_list[j]).buf) == rel(c,j)
func util.(*StandardMappedValue).RecordAt(d, idx) (r, err)
  requires d != nil && d.decoded && wfM() && cacheR(d, seq(d.content))
  let c = seq(d.content)
  uses rstep rall_mono rzero
  opaque svok svlen svsize svcon svh svcl uvn uvv vsn vsok beval rk rv rs rt rsigned rkok rvok rsok rtok rok rlen rpos rall rrest rel
  let isarr = d.record_list != nil
  modifies M:util.IRecord where x :: x == base(d.record_list)
  ensures wfM() && cacheR(d, c)
  ensures [accepts] err == nil <==> isarr && idx < d.size && rall(c, idx+1)
  ensures [element] err == nil ==> isMR(r) && mrec(r).decoded && seq(mrec(r).buf) == rel(c,idx)
  ensures [refused] err != nil ==> r == nil
  invariant wfM()
  invariant cacheR(d, c)
  invariant for $pos: int, $i: uint16 :: rall(c, $i) && $pos == rpos(c, $i) && 0 <= $pos <= len(c)
  invariant for $i: uint16 :: $i > idx ==> isMR(d.record_list[idx])
