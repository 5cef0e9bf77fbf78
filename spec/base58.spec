use lib nums
// digit of a base 58 character (255: not in the alphabet)
rec dig(c: int) int decreases c := 49 <= c && c <= 57 ? c - 49 : 65 <= c && c <= 72 ? c - 56 : 74 <= c && c <= 78 ? c - 57 : 80 <= c && c <= 90 ? c - 58 : 97 <= c && c <= 107 ? c - 64 : 109 <= c && c <= 122 ? c - 65 : 255
rec p58(n: int) int decreases n := n <= 0 ? 1 : 58 * p58(n-1)
// value of a text, most significant character first
rec v58(s: Seq) int decreases len(s) := len(s) == 0 ? 0 : dig(s[0]) * p58(len(s)-1) + v58(s[1:len(s)])
// the same by Horner's rule, the digits of a before those of s
rec h58(s: Seq, a: int) int decreases len(s) := len(s) == 0 ? a : h58(s[1:len(s)], 58 * a + dig(s[0]))
// the same for the first n characters of s, the last one the most significant
rec r58(s: Seq, n: int, a: int) int decreases n := n <= 0 ? a : r58(s, n-1, 58 * a + dig(s[n-1]))
// how many elements at the head of s, or before position n, are c
rec nlead(s: Seq, c: int) int decreases len(s) := len(s) == 0 || s[0] != c ? 0 : 1 + nlead(s[1:len(s)], c)
rec ntrail(s: Seq, n: int, c: int) int decreases n := n <= 0 || s[n-1] != c ? 0 : 1 + ntrail(s, n-1, c)
def ok58(s: Seq) bool = forall i: int {s[i]} :: 0 <= i < len(s) ==> dig(s[i]) != 255

lemma alpha58(d: int)
  requires 0 <= d < 58
  ensures dig(util.alphabet[d]) == d
  ensures 0 < d ==> util.alphabet[d] != 49
  trigger util.alphabet[d]
lemma h58_v(s: Seq, a: int)
  decreases len(s)
  hint h58(s[1:len(s)], 58 * a + dig(s[0]))
  hint v58(s[1:len(s)])
  hint p58(len(s)-1)
  ensures h58(s, a) == a * p58(len(s)) + v58(s)
  trigger h58(s, a)
lemma r58_ext(s: Seq, t: Seq, n: int, a: int, a2: int)
  requires a == a2
  requires forall i: int {s[i]} {t[i]} :: 0 <= i < n ==> s[i] == t[i]
  decreases n
  hint r58(s, n-1, 58 * a + dig(s[n-1]))
  hint r58(t, n-1, 58 * a2 + dig(t[n-1]))
  ensures r58(s, n, a) == r58(t, n, a2)
  trigger r58(s, n, a), r58(t, n, a2)
lemma ntrail_ext(s: Seq, t: Seq, n: int, c: int)
  requires forall i: int {s[i]} {t[i]} :: 0 <= i < n ==> s[i] == t[i]
  decreases n
  hint ntrail(s, n-1, c)
  hint ntrail(t, n-1, c)
  ensures ntrail(s, n, c) == ntrail(t, n, c)
  trigger ntrail(s, n, c), ntrail(t, n, c)
lemma r58_app(s: Seq, d: int, n: int, m: int, q: int, a: int)
  requires n == len(s) && m == n + 1 && a == 58 * q + dig(d)
  uses r58_ext
  hint r58(qapp(s, qone(d)), n, 58 * q + dig(d))
  ensures r58(qapp(s, qone(d)), m, q) == r58(s, n, a)
  trigger r58(qapp(s, qone(d)), m, q), r58(s, n, a)
lemma ntrail_app(s: Seq, d: int, n: int, m: int, c: int)
  requires n == len(s) && m == n + 1
  uses ntrail_ext
  hint ntrail(qapp(s, qone(d)), n, c)
  ensures ntrail(qapp(s, qone(d)), m, c) == (d == c ? ntrail(s, n, c) + 1 : 0)
  trigger ntrail(qapp(s, qone(d)), m, c), ntrail(s, n, c)
lemma rev_r58(s: Seq, t: Seq, a: int)
  requires len(t) <= len(s)
  requires forall i: int {t[i]} :: 0 <= i < len(t) ==> t[i] == s[len(t)-1-i]
  decreases len(t)
  hint r58(s, len(t)-1, 58 * a + dig(t[0]))
  hint h58(t[1:len(t)], 58 * a + dig(t[0]))
  ensures h58(t, a) == r58(s, len(t), a)
  trigger h58(t, a), r58(s, len(t), a)
lemma rev_ntrail(s: Seq, t: Seq, c: int)
  requires len(t) <= len(s)
  requires forall i: int {t[i]} :: 0 <= i < len(t) ==> t[i] == s[len(t)-1-i]
  decreases len(t)
  hint ntrail(s, len(t)-1, c)
  hint nlead(t[1:len(t)], c)
  ensures nlead(t, c) == ntrail(s, len(t), c)
  trigger nlead(t, c), ntrail(s, len(t), c)
lemma p58_pos(n: int)
  decreases n
  hint p58(n-1)
  ensures p58(n) >= 1
  trigger p58(n)
lemma v58_pos(s: Seq)
  decreases len(s)
  uses p58_pos
  hint p58(len(s)-1)
  hint v58(s[1:len(s)])
  ensures v58(s) >= 0
  trigger v58(s)
lemma pad_beval(s: Seq, t: Seq, n: int, m: int)
  requires 0 <= m <= n && n <= len(s) && m <= len(t)
  requires forall i: int {s[i]} :: 0 <= i < n - m ==> s[i] == 0
  requires forall i: int {s[i]} {t[i-(n-m)]} :: n - m <= i < n ==> s[i] == t[i-(n-m)]
  decreases n
  hint beval(s, n-1)
  hint beval(t, m-1)
  hint beval(t, 0)
  ensures beval(s, n) == beval(t, m)
  trigger beval(s, n), beval(t, m)
lemma nlead_nn(b: Seq, c: int)
  decreases len(b)
  hint nlead(b[1:len(b)], c)
  ensures 0 <= nlead(b, c) <= len(b)
  trigger nlead(b, c)
lemma pad_nlead(s: Seq, b: Seq, c: int)
  requires nlead(b, c) <= len(s)
  requires forall i: int {s[i]} :: 0 <= i < nlead(b, c) ==> s[i] == 0
  requires nlead(b, c) < len(s) ==> s[nlead(b, c)] != 0
  decreases len(b)
  hint nlead(b[1:len(b)], c)
  hint nlead(s[1:len(s)], 0)
  uses nlead_nn
  ensures nlead(s, 0) == nlead(b, c)
  trigger nlead(s, 0), nlead(b, c)

lib big.NewInt(v) (r)
  flag alloc
  touches P:big.Int
  ensures fresh(r) && bignum(r) == v
lib big.(*Int).SetInt64(z, v) (r)
  modifies P:big.Int at z
  ensures r == z && bignum(z) == v
lib big.(*Int).Add(z, a, b) (r)
  modifies P:big.Int at z
  ensures r == z && bignum(z) == old(bignum(a)) + old(bignum(b))
lib big.(*Int).Mul(z, a, b) (r)
  modifies P:big.Int at z
  ensures r == z && bignum(z) == old(bignum(a)) * old(bignum(b))
lib big.(*Int).Cmp(a, b) (r)
  flag pure
  ensures 0 - 1 <= r <= 1 && (r < 0 <==> bignum(a) < bignum(b)) && (r == 0 <==> bignum(a) == bignum(b))
lib big.(*Int).Int64(a) (r)
  flag pure
  ensures 0 - 9223372036854775808 <= bignum(a) <= 9223372036854775807 ==> r == bignum(a)
lib big.(*Int).DivMod(z, a, b, m) (q, r)
  requires [division by zero] bignum(b) != 0
  requires [results apart] z != m
  modifies P:big.Int at z, m
  ensures q == z && r == m
  ensures old(bignum(b)) == 58 ==> bignum(z) == old(bignum(a)) / 58 && bignum(m) == old(bignum(a)) % 58

func util.Base58Encode(b) (s)
  uses alpha58 r58_app ntrail_app rev_r58 rev_ntrail h58_v
  hint h58(s, 0)
  measure for $x: *big.Int :: bignum($x)
  invariant for $x: *big.Int :: bignum($x) >= 0
  invariant for $x: *big.Int, $s: phi []byte :: r58(seq($s), len($s), bignum($x)) == beval(seq(b), len(b))
  invariant for $x: *big.Int, $s: phi []byte :: bignum($x) > 0 || ntrail(seq($s), len($s), 49) == 0
  invariant for $s: phi []byte :: r58(seq($s), len($s), 0) == beval(seq(b), len(b))
  invariant for $s: phi []byte :: ok58(seq($s))
  invariant for $s: phi []byte, $i: int :: ntrail(seq($s), len($s), 49) == $i
  invariant for $i: int :: nlead(seq(b), 0) == $i + nlead(seq(b)[$i:len(b)], 0)
  invariant for $s: []byte, $i: int :: forall k: int {seq($s)[k]} :: 0 <= k < len($s) ==> seq($s)[k] == (k < $i || k >= len($s) - $i ? entry(seq($s))[len($s)-1-k] : entry(seq($s))[k])
  ensures [value] ok58(s) && v58(s) == beval(seq(b), len(b))
  ensures [zeros] nlead(s, 49) == nlead(seq(b), 0)
func util.Base58Decode(b) (r)
  uses pad_beval pad_nlead v58_pos
  invariant for $i: int, $a: *big.Int :: bignum($a) == v58(b[$i:len(b)])
  invariant for $i: int, $a: *big.Int :: bignum($a) == p58(len(b) - $i)
  invariant for $i: int :: forall k: int {b[k]} :: $i <= k < len(b) ==> dig(b[k]) != 255
  invariant for $i: int :: nlead(b, 49) == $i + nlead(b[$i:len(b)], 49)
  ensures [refuses other characters] (r == nil) <==> !ok58(b)
  ensures [bytes] r != nil ==> bytesS(seq(r))
  ensures [value] ok58(b) ==> beval(seq(r), len(r)) == v58(b)
  ensures [zeros] ok58(b) ==> nlead(seq(r), 0) == nlead(b, 49)

lemma beval_inj(s: Seq, t: Seq, n: int)
  requires bytesS(s) && bytesS(t) && 0 <= n <= len(s) && n <= len(t)
  requires beval(s, n) == beval(t, n)
  decreases n
  hint beval(s, n-1)
  hint beval(t, n-1)
  ensures forall i: int {s[i]} {t[i]} :: 0 <= i < n ==> s[i] == t[i]
  trigger beval(s, n), beval(t, n)
lemma nlead_spec(s: Seq, c: int, i: int)
  requires 0 <= i < len(s) && i <= nlead(s, c)
  decreases len(s)
  uses nlead_nn
  hint nlead(s[1:len(s)], c)
  hint s[1:len(s)][i-1]
  ensures i < nlead(s, c) <==> s[i] == c
  trigger nlead(s, c), s[i]
lemma beval_allz(s: Seq, n: int)
  requires 0 <= n <= len(s)
  requires forall i: int {s[i]} :: 0 <= i < n ==> s[i] == 0
  decreases n
  hint beval(s, n-1)
  ensures beval(s, n) == 0
  trigger beval(s, n)
lemma beval_lead(s: Seq, m: int, n: int)
  requires bytesS(s) && 0 < m <= n && n <= len(s)
  requires forall i: int {s[i]} :: 0 <= i < n - m ==> s[i] == 0
  requires s[n-m] >= 1
  decreases n
  uses beval_allz p256_pos
  hint beval(s, n-1)
  hint p256(m-1)
  hint p256(m-2)
  ensures p256(m-1) <= beval(s, n) < p256(m)
  trigger beval(s, n), p256(m)
lemma p256_le(n: int, m: int)
  requires n <= m
  decreases m
  uses p256_pos
  hint p256(m-1)
  ensures p256(n) <= p256(m)
  trigger p256(n), p256(m)
// the bytes Base58Decode returns on the text Base58Encode returned for a are a itself:
// value and number of leading zero bytes determine a byte string
lemma b58_roundtrip(a: Seq, r: Seq)
  requires bytesS(a) && bytesS(r)
  requires beval(r, len(r)) == beval(a, len(a)) && nlead(r, 0) == nlead(a, 0)
  uses nlead_nn nlead_spec beval_allz beval_lead p256_le p256_pos beval_inj
  hint p256(len(a) - nlead(a, 0))
  hint p256(len(r) - nlead(a, 0))
  hint p256(len(a) - nlead(a, 0) - 1)
  hint p256(len(r) - nlead(a, 0) - 1)
  hint a[nlead(a, 0)]
  hint r[nlead(a, 0)]
  ensures [decode of encode] a == r
