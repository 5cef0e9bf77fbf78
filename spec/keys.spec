use codec slices hashing
// Sequences of byte strings (the contents of a [][]byte).
smt {
(declare-sort SS 0)
(declare-fun sslen (SS) Int)
(declare-fun ssat (SS Int) QSeq)
(declare-fun ssq ((Array Int Slice) (Array Int (Array Int Int)) Int Int) SS)
(declare-fun sseq (SS SS) Bool)
(declare-fun ssadd (SS QSeq) SS)
(declare-const ssnil SS)
(assert (forall ((s SS)) (! (<= 0 (sslen s)) :pattern ((sslen s)))))
(assert (= (sslen ssnil) 0))
(assert (forall ((b (Array Int Slice)) (m (Array Int (Array Int Int))) (o Int) (n Int)) (! (=> (<= 0 n) (= (sslen (ssq b m o n)) n)) :pattern ((ssq b m o n)))))
(assert (forall ((b (Array Int Slice)) (m (Array Int (Array Int Int))) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (ssat (ssq b m o n) i) (sq (select m (sbase (select b (ix o i)))) (soff (select b (ix o i))) (slen (select b (ix o i)))))) :pattern ((ssat (ssq b m o n) i)) :pattern ((ssq b m o n) (sq (select m (sbase (select b (ix o i)))) (soff (select b (ix o i))) (slen (select b (ix o i))))))))
(assert (forall ((s SS) (q QSeq)) (! (= (sslen (ssadd s q)) (+ 1 (sslen s))) :pattern ((ssadd s q)))))
(assert (forall ((s SS) (q QSeq) (i Int)) (! (= (ssat (ssadd s q) i) (ite (= i (sslen s)) q (ssat s i))) :pattern ((ssat (ssadd s q) i)))))
(assert (forall ((a SS) (b SS)) (! (=> (sseq a b) (= a b)) :pattern ((sseq a b)))))
(assert (forall ((a SS) (b SS)) (! (or (sseq a b) (not (= (sslen a) (sslen b))) (exists ((i Int)) (and (<= 0 i) (< i (sslen a)) (not (= (ssat a i) (ssat b i)))))) :pattern ((sseq a b)))))
}
// every sub-key is a byte string (not nil)
def keysOk(ks: [][]byte) bool = forall i: int {ks[i]} :: 0 <= i < len(ks) ==> ks[i] != nil && alloced(ks[i])

// the kinds of keys, and what each holds
def isMapped(o: collection.IObject) bool = tag(o) == @type(*util.MappedKey)
def isPlain(o: collection.IObject) bool = tag(o) == @type(*util.Key)
def isEmptyK(o: collection.IObject) bool = tag(o) == @type(*util.EmptyKey)
def mkey(o: collection.IObject) *util.MappedKey = @as(*util.MappedKey, o)
def pkey(o: collection.IObject) *util.Key = @as(*util.Key, o)
def okKeyO(o: collection.IObject) bool = ref(o) != 0 && (isEmptyK(o) || (isMapped(o) && mkey(o).decoded && keysOk(mkey(o).keys)) || (isPlain(o) && keysOk(pkey(o).keys)))
def subs(o: collection.IObject) SS = isEmptyK(o) ? ssnil : isMapped(o) ? seq(mkey(o).keys) : seq(pkey(o).keys)

// lexicographic order on sub-key sequences
rec lexk(a: SS, b: SS, i: int) int decreases sslen(a) - i :=
  i >= sslen(a) ? (sslen(b) > i ? 0-1 : 0) :
  i >= sslen(b) ? 1 :
  lexc(ssat(a,i), ssat(b,i), 0) != 0 ? lexc(ssat(a,i), ssat(b,i), 0) : lexk(a, b, i+1)
lemma lex_eq(a: Seq, b: Seq)
  uses lex_zero
  ensures lexc(a, b, 0) == 0 ==> a == b
  ensures a == b ==> lexc(a, b, 0) == 0
  trigger lexc(a, b, 0)
lemma lexk_zero(a: SS, b: SS, i: int)
  requires 0 <= i <= sslen(a) && i <= sslen(b)
  uses lex_eq
  decreases sslen(a) - i
  hint lexk(a, b, i+1)
  ensures lexk(a, b, i) == 0 ==> sslen(a) == sslen(b)
  ensures forall j: int {ssat(a,j)} :: lexk(a, b, i) == 0 && i <= j < sslen(a) ==> ssat(a,j) == ssat(b,j)
  ensures sslen(a) == sslen(b) && (forall j: int {ssat(a,j)} :: i <= j < sslen(a) ==> ssat(a,j) == ssat(b,j)) ==> lexk(a, b, i) == 0
  trigger lexk(a, b, i)
lemma lexk_equal(a: SS, b: SS)
  uses lexk_zero
  hint sseq(a, b)
  ensures lexk(a, b, 0) == 0 <==> a == b
lemma lexk_anti(a: SS, b: SS, i: int)
  requires 0 <= i <= sslen(a) && i <= sslen(b)
  uses lex_anti
  decreases sslen(a) - i
  hint lexk(a, b, i+1)
  hint lexk(b, a, i+1)
  ensures lexk(a, b, i) == 0 - lexk(b, a, i)
lemma lexk_trans(a: SS, b: SS, c: SS, i: int)
  requires 0 <= i <= sslen(a) && i <= sslen(b) && i <= sslen(c)
  requires lexk(a, b, i) <= 0 && lexk(b, c, i) <= 0
  uses lex_trans lex_zero
  decreases sslen(a) - i
  hint lexk(a, b, i+1)
  hint lexk(b, c, i+1)
  hint lexk(a, c, i+1)
  hint lexc(ssat(a,i), ssat(c,i), 0)
  ensures lexk(a, c, i) <= 0

// the hash of a key: the hash values of its sub-keys, added without carries
rec hashk(f: int, s: SS, n: int) int decreases n := n <= 0 ? 0 : bit_xor32(hashk(f, s, n-1), callF(f, ssat(s, n-1)))

// n byte strings at the head of s: how many bytes, and whether they are all there
rec vsn(s: Seq, n: int) int decreases n := n <= 0 ? 0 : vsn(s, n-1) + vcn(s[vsn(s,n-1):len(s)])
rec vsok(s: Seq, n: int) bool decreases n := n <= 0 || (vsok(s, n-1) && vcok(s[vsn(s,n-1):len(s)]))
def vsat(s: Seq, j: int) Seq = vcd(s[vsn(s,j):len(s)])
lemma vsn_bound(s: Seq, n: int)
  requires vsok(s, n) && bytesS(s)
  uses uvv_bound uvn_bound
  decreases n
  hint vsn(s, n-1)
  hint vsok(s, n-1)
  ensures 0 <= vsn(s, n) <= len(s)
  trigger vsok(s, n)
lemma vsok_mono(s: Seq, i: int, n: int)
  requires 0 <= i < n && vsok(s, n)
  decreases n
  hint vsok(s, n-1)
  ensures vsok(s, i) && vcok(s[vsn(s,i):len(s)])
  trigger vsok(s, i), vsok(s, n)
// an encoded key at the head of b
def kcnt(b: Seq) int = len(b) == 0 ? 0 : uvv(b)
def kbody(b: Seq) Seq = len(b) == 0 ? sempty : b[uvn(b):len(b)]
def khead(b: Seq) int = len(b) == 0 ? 0 : uvn(b)
def kok(b: Seq) bool = len(b) == 0 || (uvok(b) && kcnt(b) <= len(b) - uvn(b) && vsok(kbody(b), kcnt(b)))
def klen(b: Seq) int = khead(b) + vsn(kbody(b), kcnt(b))
// the bytes of a sequence of sub-keys
rec kenc(s: SS, n: int) Seq decreases n := n <= 0 ? sempty : qapp(kenc(s, n-1), vcenc(ssat(s, n-1)))
def kbytes(s: SS) Seq = qapp(uvenc(sslen(s)), kenc(s, sslen(s)))
rec krest(s: SS, j: int) Seq decreases sslen(s) - j := j >= sslen(s) ? sempty : qapp(vcenc(ssat(s, j)), krest(s, j+1))

func util.(*EmptyKey).Key(k) (r)
  ensures fresh(r) && len(r) == 0
func util.(*EmptyKey).Buf(k) (r)
  ensures [bytes] seq(r) == qone(0) && fresh(r)
func util.(*EmptyKey).IsEmpty(k) (r)
  ensures r
func util.(*EmptyKey).HashUint32(k, f) (r)
  ensures [hash] r == 0
func util.(*MappedKey).Key(k) (r)
  requires k != nil && k.decoded
  ensures r == k.keys
func util.(*MappedKey).SubKeyAt(k, i) (r)
  requires k != nil && k.decoded && 0 <= i < len(k.keys)
  ensures r == k.keys[i]
func util.(*MappedKey).HashUint32(k, f) (r)
  requires k != nil && f != nil
  ensures [hash] r == hashk(f, seq(k.keys), len(k.keys))
  invariant for $i: int, $h: int :: $h == hashk(f, seq(k.keys), $i)
func util.(*Key).Key(k) (r)
  requires k != nil
  ensures r == k.keys
func util.(*Key).SubKeyAt(k, i) (r)
  requires k != nil && 0 <= i < len(k.keys)
  ensures r == k.keys[i]
func util.(*Key).HashUint32(k, f) (r)
  requires k != nil && f != nil
  ensures [hash] r == hashk(f, seq(k.keys), len(k.keys))
  invariant for $i: int, $h: int :: $h == hashk(f, seq(k.keys), $i)

foreach T in (EmptyKey) (MappedKey) (Key)
func util.(*${T}).Equal(k, o) (r)
  requires okKeyO(@box(*util.${T}, k))
  requires o == nil || okKeyO(o)
  case isMapped(o)
  case isPlain(o)
  case isEmptyK(o)
  let me = @box(*util.${T}, k)
  hint sseq(subs(me), subs(o))
  ensures [nothing] o == nil ==> !r
  ensures [equality] o != nil ==> (r <==> subs(me) == subs(o))
  invariant for $i: int :: forall j: int {ssat(subs(me), j)} {ssat(subs(o), j)} :: 0 <= j < $i ==> ssat(subs(me), j) == ssat(subs(o), j)
func util.(*${T}).Compare(k, c) (r)
  requires okKeyO(@box(*util.${T}, k))
  requires c == nil || okKeyO(c)
  case isMapped(c)
  case isPlain(c)
  case isEmptyK(c)
  let me = @box(*util.${T}, k)
  ensures [nothing] c == nil ==> r > 0
  ensures [order] c != nil ==> sgn(r) == lexk(subs(me), subs(c), 0)
  invariant for $i: int :: 0 <= $i <= sslen(subs(me)) && $i <= sslen(subs(c)) && lexk(subs(me), subs(c), 0) == lexk(subs(me), subs(c), $i)
endforeach
