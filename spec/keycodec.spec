use keys
lemma kenc_mono(s: SS, i: int, n: int)
  requires 0 <= i <= n
  decreases n
  hint kenc(s, n-1)
  ensures len(kenc(s, i)) <= len(kenc(s, n))
  ensures i < n ==> len(kenc(s, i)) + len(vcenc(ssat(s, i))) <= len(kenc(s, n))
  trigger kenc(s, i), kenc(s, n)
lemma kenc_split(s: SS, j: int)
  requires 0 <= j <= sslen(s)
  decreases sslen(s) - j
  hint kenc(s, j+1)
  hint krest(s, j+1)
  ensures qapp(kenc(s, j), krest(s, j)) == kenc(s, sslen(s))
  trigger kenc(s, j), krest(s, j)
// what was encoded is found again, sub-key by sub-key
lemma key_parts(s: SS, t: Seq, j: int)
  requires 0 <= j <= sslen(s)
  requires forall i: int {ssat(s, i)} :: 0 <= i < sslen(s) ==> len(ssat(s, i)) < 9223372036854775808
  uses varchar_round_trip kenc_split uv_len
  decreases j
  let e = qapp(kenc(s, sslen(s)), t)
  hint vsn(e, j-1)
  hint vsok(e, j-1)
  hint kenc(s, j-1)
  hint krest(s, j-1)
  hint krest(s, j)
  hint qapp(krest(s, j), t)
  hint qapp(kenc(s, j-1), qapp(krest(s, j-1), t))
  hint qapp(qapp(uvenc(len(ssat(s, j-1))), ssat(s, j-1)), qapp(krest(s, j), t))
  ensures vsok(e, j)
  ensures vsn(e, j) == len(kenc(s, j))
  ensures j > 0 ==> vsat(e, j-1) == ssat(s, j-1)
lemma kenc_len(s: SS, n: int)
  requires n <= sslen(s)
  uses uv_len
  decreases n
  hint kenc(s, n-1)
  ensures len(kenc(s, n)) >= n
  trigger kenc(s, n)
def short(s: SS) bool = sslen(s) < 9223372036854775808 && forall i: int {ssat(s, i)} :: 0 <= i < sslen(s) ==> len(ssat(s, i)) < 9223372036854775808
lemma key_round_trip(s: SS, t: Seq)
  requires short(s)
  uses uv_round uv_len key_parts kenc_len
  let b = qapp(kbytes(s), t)
  let e = qapp(kenc(s, sslen(s)), t)
  hint qapp(uvenc(sslen(s)), e)
  hint vsok(e, sslen(s))
  hint vsn(e, sslen(s))
  hint uvn(qapp(uvenc(sslen(s)), e))
  hint uvv(qapp(uvenc(sslen(s)), e))
  ensures kbody(b) == e
  ensures kcnt(b) == sslen(s)
  ensures kok(b)
  ensures klen(b) == len(kbytes(s))
lemma key_round_elem(s: SS, t: Seq, j: int)
  requires short(s) && 0 <= j < sslen(s)
  uses uv_round uv_len key_parts key_round_trip
  let b = qapp(kbytes(s), t)
  let e = qapp(kenc(s, sslen(s)), t)
  hint vsok(e, j+1)
  hint vsn(e, j)
  ensures vsat(kbody(b), j) == ssat(s, j)
  trigger qapp(qapp(uvenc(sslen(s)), kenc(s, sslen(s))), t), ssat(s, j)
lemma key_elem(s: SS, j: int)
  requires short(s) && 0 <= j < sslen(s)
  uses key_round_elem
  hint ssat(s, j)
  hint qapp(kbytes(s), sempty)
  ensures vsat(kbody(kbytes(s)), j) == ssat(s, j)
  trigger ssat(s, j), uvenc(sslen(s))
lemma key_count(s: SS)
  requires short(s)
  uses key_round_trip
  hint qapp(kbytes(s), sempty)
  ensures kcnt(kbytes(s)) == sslen(s)
  trigger uvenc(sslen(s))
lemma key_injective(a: SS, b: SS)
  requires short(a) && short(b) && kbytes(a) == kbytes(b)
  uses key_elem key_count
  hint kbytes(a)
  hint sseq(a, b)
  ensures a == b

func util.(*MappedKey).Decode(k, ctx) (n, err)
  requires k != nil
  let b = seq(k.buf)
  uses vsn_bound uvv_bound uvn_bound vsok_mono
  hint vsok(kbody(b), kcnt(b))
  modifies util.MappedKey.keys, util.MappedKey.buf, util.MappedKey.decoded at k
  ensures [accepts] err == nil <==> kok(b)
  ensures [consumed] err == nil ==> n == klen(b) && 0 <= n <= old(len(k.buf)) && base(k.buf) == old(base(k.buf)) && off(k.buf) == old(off(k.buf)) && len(k.buf) == n
  ensures [decoded] err == nil ==> k.decoded && fresh(k.keys) && len(k.keys) == kcnt(b) && keysOk(k.keys)
  ensures [sub-keys] err == nil ==> forall j: int {ssat(seq(k.keys), j)} :: 0 <= j < kcnt(b) ==> ssat(seq(k.keys), j) == vsat(kbody(b), j)
  ensures [sub-keys] err == nil ==> forall j: int {k.keys[j]} :: 0 <= j < kcnt(b) ==> seq(k.keys[j]) == vsat(kbody(b), j)
  invariant for $p: int, $i: int :: $p == khead(b) + vsn(kbody(b), $i) && vsok(kbody(b), $i) && 0 <= $p <= len(b)
  invariant for $i: int :: forall j: int {k.keys[j]} :: 0 <= j < $i ==> seq(k.keys[j]) == vsat(kbody(b), j)
  invariant for $i: int :: forall j: int {k.keys[j]} :: 0 <= j < $i ==> k.keys[j] != nil && alloced(k.keys[j])
  invariant fresh(k.keys) && len(k.keys) == kcnt(b)
func util.NewMappedKey(buf) (k, n, err)
  let b = seq(buf)
  ensures [accepts] err == nil <==> kok(b)
  ensures [consumed] err == nil ==> n == klen(b) && 0 <= n <= len(buf)
  ensures [kept bytes] err == nil ==> fresh(k) && len(k.buf) == n && (buf != nil ==> base(k.buf) == base(buf) && off(k.buf) == off(buf))
  ensures [decoded] err == nil ==> k.decoded && len(k.keys) == kcnt(b) && keysOk(k.keys) && fresh(k.keys)
  ensures [sub-keys] err == nil ==> forall j: int {ssat(seq(k.keys), j)} :: 0 <= j < kcnt(b) ==> ssat(seq(k.keys), j) == vsat(kbody(b), j)
  ensures [sub-keys] err == nil ==> forall j: int {k.keys[j]} :: 0 <= j < kcnt(b) ==> seq(k.keys[j]) == vsat(kbody(b), j)
  ensures [refused] err != nil ==> k == nil
func util.(*MappedKey).IsEmpty(k) (r)
  requires k != nil && k.decoded
  ensures r <==> len(k.buf) == 0 || len(k.keys) == 0
func util.(*MappedKey).Buf(k) (r)
  requires k != nil && k.decoded
  ensures [bytes] len(k.buf) == 0 || len(k.keys) == 0 ? seq(r) == qone(0) && fresh(r) : r == k.buf
func util.(*MappedKey).EstBufSize(k) (r)
  requires k != nil && k.decoded
  ensures r == (len(k.buf) == 0 || len(k.keys) == 0 ? 1 : len(k.buf))

def kwant(k: *util.Key) Seq = k.keys == nil ? sempty : kbytes(seq(k.keys))
func util.(*Key).Encode(k, ctx) (err)
  requires k != nil && keysOk(k.keys)
  modifies util.Key.buf, util.Key.estBufSize, util.Key.encoded at k
  let want = kwant(k)
  let ks = seq(k.keys)
  uses kenc_mono
  hint kenc(ks, sslen(ks))
  hint sseq(seq(k.keys), ks)
  ensures [accepts] err == nil <==> len(want) <= 4096
  ensures [bytes] err == nil ==> k.encoded && seq(k.buf) == want && fresh(k.buf) && k.estBufSize == len(want)
  ensures [refused] err != nil ==> k.encoded == old(k.encoded) && k.buf == old(k.buf)
  ensures [sub-keys unchanged] sseq(seq(k.keys), ks)
  invariant for $i: int, $b: []byte :: seq($b) == qapp(uvenc(sslen(ks)), kenc(ks, $i))
  invariant for $b: []byte :: fresh($b)
  invariant for $b: []byte :: len($b) <= 4096
  invariant sseq(seq(k.keys), ks)
func util.(*Key).Buf(k) (r)
  requires k != nil
  may_panic !k.encoded
  ensures [current bytes] k.encoded && r == k.buf
func util.(*Key).IsEmpty(k) (r)
  requires k != nil
  ensures r <==> len(k.keys) == 0
func util.(*Key).Add(k, s) (r)
  requires k != nil && len(s) > 0 && keysOk(k.keys)
  modifies util.Key.keys, util.Key.encoded, util.Key.estBufSize at k
  modifies M:[]byte where x :: x == base(k.keys)
  let ks = seq(k.keys)
  let t = seq(s)
  hint sseq(seq(k.keys), ssadd(ks, t))
  ensures [sub-keys] seq(k.keys) == ssadd(ks, t)
  ensures [not encoded] !k.encoded
  ensures [itself] r == k
  ensures keysOk(k.keys)
  ensures base(k.keys) == old(base(k.keys)) || fresh(k.keys)
func util.NewKey() (k)
  hint sseq(seq(k.keys), ssnil)
  ensures fresh(k) && seq(k.keys) == ssnil && !k.encoded && k.keys != nil && k.estBufSize == 1
  ensures fresh(k.keys)
func util.NewSimpleKey(s) (k)
  requires s != nil
  let t = seq(s)
  hint sseq(seq(k.keys), ssadd(ssnil, t))
  ensures fresh(k) && keysOk(k.keys) && k.keys != nil && !k.encoded
  ensures [sub-keys] seq(k.keys) == ssadd(ssnil, t)
  ensures [size] k.estBufSize == 2 + len(s)
