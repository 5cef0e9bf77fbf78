use keycodec
// an encoded scheme at the head of b: sizes of its parts, and whether they are all there
def scDom(b: Seq) bool = b[0] >= 128
def scTab(b: Seq) bool = b[0] % 128 >= 64
def scBkt(b: Seq) bool = b[0] % 64 >= 32
rec scTail(b: Seq, k: int) Seq decreases 0 := b[k:len(b)]
rec scd(b: Seq) int decreases 0 := scDom(b) ? vcn(scTail(b, 1)) : 0
rec sct(b: Seq) int decreases 0 := scTab(b) ? vcn(scTail(b, 1+scd(b))) : 0
rec scq(b: Seq) int decreases 0 := 1 + scd(b) + sct(b)
rec scp(b: Seq) Seq decreases 0 := b[scq(b):len(b)]
rec scr(b: Seq) int decreases 0 := scq(b) + khead(scp(b))
rec scbody(b: Seq) Seq decreases 0 := b[scr(b):len(b)]
rec sccnt(b: Seq) int decreases 0 := kcnt(scp(b))
rec scbok(b: Seq) bool decreases 0 := (len(scp(b)) == 0 || (uvok(scp(b)) && sccnt(b) <= len(b) - scr(b))) && vsok(scbody(b), sccnt(b))
rec scok(b: Seq) bool decreases 0 := len(b) >= 1 && (scDom(b) ==> vcok(scTail(b, 1))) && (scTab(b) ==> vcok(scTail(b, 1+scd(b)))) && (scBkt(b) ==> scbok(b))
def sclen(b: Seq) int = scBkt(b) ? scr(b) + vsn(scbody(b), sccnt(b)) : scq(b)
// the bytes of a scheme
def schead(d: bool, t: bool, k: bool) int = (d ? 128 : 0) + (t ? 64 : 0) + (k ? 32 : 0)
def scpart(p: bool, s: Seq) Seq = p ? vcenc(s) : sempty
rec scpre(d: bool, t: bool, k: bool, ds: Seq, ts: Seq) Seq decreases 0 := qapp(qapp(qone(schead(d, t, k)), scpart(d, ds)), scpart(t, ts))
def scenc(d: bool, t: bool, k: bool, ds: Seq, ts: Seq, ks: SS) Seq = qapp(scpre(d, t, k, ds, ts), k ? kbytes(ks) : sempty)

func util.NewMappedSchemd(buf) (s)
  ensures fresh(s) && s.buf == buf && !s.decoded && s.domain == nil && s.tablet == nil && s.buckets == nil
func util.(*MappedScheme).Decode(s, ctx) (n, err)
  requires s != nil && s.domain == nil && s.tablet == nil && s.buckets == nil
  let b = seq(s.buf)
  let d = scbody(b)
  uses vsn_bound uvv_bound uvn_bound vsok_mono
  hint vsok(d, sccnt(b))
  hint scok(b)
  hint scbok(b)
  modifies util.MappedScheme.decoded, util.MappedScheme.buf, util.MappedScheme.domain, util.MappedScheme.tablet, util.MappedScheme.buckets at s
  ensures [accepts] err == nil <==> scok(b)
  ensures [consumed] err == nil ==> s.decoded && n == sclen(b) && 1 <= n <= old(len(s.buf)) && base(s.buf) == old(base(s.buf)) && off(s.buf) == old(off(s.buf)) && len(s.buf) == n
  ensures [domain] err == nil ==> (scDom(b) ? s.domain != nil && seq(s.domain) == vcd(scTail(b, 1)) : s.domain == nil)
  ensures [tablet] err == nil ==> (scTab(b) ? s.tablet != nil && seq(s.tablet) == vcd(scTail(b, 1+scd(b))) : s.tablet == nil)
  ensures [buckets] err == nil ==> (scBkt(b) ? s.buckets != nil && len(s.buckets) == sccnt(b) && keysOk(s.buckets) : s.buckets == nil)
  ensures [bucket content] err == nil && scBkt(b) ==> forall j: int {s.buckets[j]} :: 0 <= j < sccnt(b) ==> seq(s.buckets[j]) == vsat(d, j)
  invariant for $pos: int, $rangeindex: int :: $pos == scr(b) + vsn(d, $rangeindex) && vsok(d, $rangeindex) && 0 <= $pos <= len(b)
  invariant for $rangeindex: int :: forall j: int {s.buckets[j]} :: 0 <= j < $rangeindex ==> seq(s.buckets[j]) == vsat(d, j)
  invariant for $rangeindex: int :: forall j: int {s.buckets[j]} :: 0 <= j < $rangeindex ==> s.buckets[j] != nil && alloced(s.buckets[j])
  invariant fresh(s.buckets) && len(s.buckets) == sccnt(b)
func util.(*Scheme).Encode(s, ctx) (err)
  requires s != nil && (s.buckets != nil ==> keysOk(s.buckets))
  modifies util.Scheme.buf, util.Scheme.encoded at s
  let ks = seq(s.buckets)
  let pre = scpre(s.domain != nil, s.tablet != nil, s.buckets != nil, seq(s.domain), seq(s.tablet))
  let want = scenc(s.domain != nil, s.tablet != nil, s.buckets != nil, seq(s.domain), seq(s.tablet), ks)
  uses kenc_mono
  hint kenc(ks, sslen(ks))
  hint sseq(seq(s.buckets), ks)
  ensures [accepts] err == nil <==> len(want) <= 1024
  ensures [bytes] err == nil ==> s.encoded && seq(s.buf) == want && fresh(s.buf)
  ensures [refused] err != nil ==> s.encoded == old(s.encoded) && s.buf == old(s.buf)
  invariant for $i: int, $b: []byte :: seq($b) == qapp(pre, qapp(uvenc(sslen(ks)), kenc(ks, $i)))
  invariant for $b: []byte :: fresh($b)
  invariant for $b: []byte :: len($b) <= 1024
  invariant sseq(seq(s.buckets), ks)
// what was encoded is found again, whatever follows it
def kpart(k: bool, ks: SS) Seq = k ? kbytes(ks) : sempty
rec sce(d: bool, t: bool, k: bool, ds: Seq, ts: Seq, ks: SS, tl: Seq) Seq decreases 0 := qapp(scenc(d, t, k, ds, ts, ks), tl)
lemma sce_bits(d: bool, t: bool, k: bool, ds: Seq, ts: Seq, ks: SS, tl: Seq)
  let e = sce(d, t, k, ds, ts, ks, tl)
  hint scpre(d, t, k, ds, ts)
  ensures len(e) >= 1
  ensures scDom(e) <==> d
  ensures scTab(e) <==> t
  ensures scBkt(e) <==> k
  trigger sce(d, t, k, ds, ts, ks, tl)
lemma sce_rest1(d: bool, t: bool, k: bool, ds: Seq, ts: Seq, ks: SS, tl: Seq)
  let e = sce(d, t, k, ds, ts, ks, tl)
  hint scpre(d, t, k, ds, ts)
  hint qapp(scpart(d, ds), qapp(scpart(t, ts), qapp(kpart(k, ks), tl)))
  ensures scTail(e, 1) == qapp(scpart(d, ds), qapp(scpart(t, ts), qapp(kpart(k, ks), tl)))
  trigger sce(d, t, k, ds, ts, ks, tl)
lemma sce_rest2(d: bool, t: bool, k: bool, ds: Seq, ts: Seq, ks: SS, tl: Seq)
  let e = sce(d, t, k, ds, ts, ks, tl)
  uses sce_rest1
  hint qapp(scpart(t, ts), qapp(kpart(k, ks), tl))
  hint scTail(e, 1)
  hint scTail(scTail(e, 1), len(scpart(d, ds)))
  ensures scTail(e, 1+len(scpart(d, ds))) == qapp(scpart(t, ts), qapp(kpart(k, ks), tl))
  trigger sce(d, t, k, ds, ts, ks, tl)
lemma sce_rest3(d: bool, t: bool, k: bool, ds: Seq, ts: Seq, ks: SS, tl: Seq)
  let e = sce(d, t, k, ds, ts, ks, tl)
  uses sce_rest2
  hint qapp(kpart(k, ks), tl)
  hint scTail(e, 1+len(scpart(d, ds)))
  hint scTail(scTail(e, 1+len(scpart(d, ds))), len(scpart(t, ts)))
  ensures scTail(e, 1+len(scpart(d, ds))+len(scpart(t, ts))) == qapp(kpart(k, ks), tl)
  trigger sce(d, t, k, ds, ts, ks, tl)
lemma sce_domain(d: bool, t: bool, k: bool, ds: Seq, ts: Seq, ks: SS, tl: Seq)
  requires len(ds) < 9223372036854775808
  uses sce_bits sce_rest1 varchar_round_trip
  let e = sce(d, t, k, ds, ts, ks, tl)
  let r = qapp(scpart(t, ts), qapp(kpart(k, ks), tl))
  hint qapp(vcenc(ds), r)
  ensures scd(e) == len(scpart(d, ds))
  ensures d ==> vcok(scTail(e, 1)) && vcd(scTail(e, 1)) == ds
  trigger sce(d, t, k, ds, ts, ks, tl)
lemma sce_tablet(d: bool, t: bool, k: bool, ds: Seq, ts: Seq, ks: SS, tl: Seq)
  requires len(ds) < 9223372036854775808 && len(ts) < 9223372036854775808
  uses sce_bits sce_rest2 varchar_round_trip sce_domain
  let e = sce(d, t, k, ds, ts, ks, tl)
  let r = qapp(kpart(k, ks), tl)
  hint qapp(vcenc(ts), r)
  ensures sct(e) == len(scpart(t, ts))
  ensures t ==> vcok(scTail(e, 1+scd(e))) && vcd(scTail(e, 1+scd(e))) == ts
  trigger sce(d, t, k, ds, ts, ks, tl)
lemma sce_buckets(d: bool, t: bool, k: bool, ds: Seq, ts: Seq, ks: SS, tl: Seq)
  requires len(ds) < 9223372036854775808 && len(ts) < 9223372036854775808 && short(ks)
  uses sce_rest3 sce_domain sce_tablet
  let e = sce(d, t, k, ds, ts, ks, tl)
  hint scTail(e, 1+scd(e)+sct(e))
  ensures scp(e) == qapp(kpart(k, ks), tl)
  trigger sce(d, t, k, ds, ts, ks, tl)
// the body is that of the key the buckets are written as
lemma sc_body(e: Seq)
  requires scDom(e) ==> vcok(scTail(e, 1))
  requires scTab(e) ==> vcok(scTail(e, 1+scd(e)))
  requires bytesS(e) && len(e) >= 1
  uses uvn_bound uvv_bound
  hint scp(e)
  hint kbody(scp(e))
  hint scq(e)
  ensures len(scp(e)) == len(e) - scq(e)
  ensures scr(e) == scq(e) + khead(scp(e))
  ensures scbody(e) == kbody(scp(e))
lemma sce_parts(d: bool, t: bool, k: bool, ds: Seq, ts: Seq, ks: SS, tl: Seq)
  requires len(ds) < 9223372036854775808 && len(ts) < 9223372036854775808 && short(ks) && bytesS(sce(d, t, k, ds, ts, ks, tl))
  uses sce_bits sce_domain sce_tablet sce_buckets sc_body
  let e = sce(d, t, k, ds, ts, ks, tl)
  hint scp(e)
  ensures scbody(e) == kbody(qapp(kpart(k, ks), tl))
  ensures scr(e) == scq(e) + khead(qapp(kpart(k, ks), tl))
  ensures sccnt(e) == kcnt(qapp(kpart(k, ks), tl))
  ensures scp(e) == qapp(kpart(k, ks), tl)
  ensures len(scp(e)) == len(e) - scq(e)
  ensures scq(e) == 1 + len(scpart(d, ds)) + len(scpart(t, ts))
  ensures (scDom(e) ==> vcok(scTail(e, 1))) && (scTab(e) ==> vcok(scTail(e, 1+scd(e)))) && len(e) >= 1
lemma scheme_round_trip(d: bool, t: bool, k: bool, ds: Seq, ts: Seq, ks: SS, tl: Seq)
  requires len(ds) < 9223372036854775808 && len(ts) < 9223372036854775808 && short(ks) && bytesS(sce(d, t, k, ds, ts, ks, tl))
  uses sce_bits sce_parts key_round_trip
  let e = sce(d, t, k, ds, ts, ks, tl)
  hint scbok(e)
  hint scok(e)
  hint scpre(d, t, k, ds, ts)
  hint qapp(kbytes(ks), tl)
  ensures scok(e)
  ensures sclen(e) == len(scenc(d, t, k, ds, ts, ks))
  ensures k ==> sccnt(e) == sslen(ks)
lemma scheme_round_bucket(d: bool, t: bool, k: bool, ds: Seq, ts: Seq, ks: SS, tl: Seq, j: int)
  requires len(ds) < 9223372036854775808 && len(ts) < 9223372036854775808 && short(ks) && bytesS(sce(d, t, k, ds, ts, ks, tl)) && k && 0 <= j < sslen(ks)
  uses sce_bits sce_parts key_round_elem
  hint qapp(kbytes(ks), tl)
  hint ssat(ks, j)
  let e = sce(d, t, k, ds, ts, ks, tl)
  ensures vsat(scbody(e), j) == ssat(ks, j)

foreach T,D in (MappedScheme,s.decoded) (Scheme,true)
func util.(*${T}).Domain(s) (r)
  requires s != nil && ${D}
  ensures [domain] r == s.domain
func util.(*${T}).DomainName(s) (r)
  requires s != nil && ${D}
  ensures [domain] seq(r) == seq(s.domain)
func util.(*${T}).Tablet(s) (r)
  requires s != nil && ${D}
  ensures [tablet] r == s.tablet
func util.(*${T}).TabletName(s) (r)
  requires s != nil && ${D}
  ensures [tablet] seq(r) == seq(s.tablet)
func util.(*${T}).Buckets(s) (r)
  requires s != nil && ${D}
  ensures [buckets] r == s.buckets
func util.(*${T}).BucketAt(s, i) (r)
  requires s != nil && ${D} && s.buckets != nil && 0 <= i < len(s.buckets)
  ensures [bucket] r == s.buckets[i]
endforeach
func util.(*MappedScheme).Buf(s) (r)
  requires s != nil
  ensures [bytes] r == s.buf
func util.(*Scheme).Buf(s) (r)
  requires s != nil && s.encoded
  ensures [bytes] r == s.buf
func util.(*Scheme).SchemeMagic(s) (r)
  requires s != nil && s.encoded && len(s.buf) > 0
  ensures r == s.buf[0]
func util.(*MappedScheme).SchemeMagic(s) (r)
  requires s != nil && len(s.buf) > 0
  ensures r == s.buf[0]
