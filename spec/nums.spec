use lib time
// fixed-width big-endian numbers
def be64(s: Seq, o: int) int = be32(s, o) * 4294967296 + be32(s, o+4)
def u32(x: int) int = x < 0 ? x + 4294967296 : x
def s32(x: int) int = x < 2147483648 ? x : x - 4294967296
def u64(x: int) int = x < 0 ? x + 18446744073709551616 : x
def s64(x: int) int = x < 9223372036854775808 ? x : x - 18446744073709551616

// value of the first n bytes of s, big endian
rec beval(s: Seq, n: int) int decreases n := n <= 0 ? 0 : beval(s, n-1) * 256 + s[n-1]
rec p256(n: int) int decreases n := n <= 0 ? 1 : 256 * p256(n-1)
def bytesS(s: Seq) bool = forall i: int {s[i]} :: 0 <= i < len(s) ==> 0 <= s[i] <= 255
def two256() int = 115792089237316195423570985008687907853269984665640564039457584007913129639936

lemma p256_pos(n: int)
  decreases n
  hint p256(n-1)
  ensures p256(n) >= 1
  trigger p256(n)
lemma p256_mono(n: int)
  requires n >= 32
  decreases n
  hint p256(n-1)
  hint p256(31)
  hint p256(30)
  hint p256(29)
  hint p256(28)
  hint p256(27)
  hint p256(26)
  hint p256(25)
  hint p256(24)
  hint p256(23)
  hint p256(22)
  hint p256(21)
  hint p256(20)
  hint p256(19)
  hint p256(18)
  hint p256(17)
  hint p256(16)
  hint p256(15)
  hint p256(14)
  hint p256(13)
  hint p256(12)
  hint p256(11)
  hint p256(10)
  hint p256(9)
  hint p256(8)
  hint p256(7)
  hint p256(6)
  hint p256(5)
  hint p256(4)
  hint p256(3)
  hint p256(2)
  hint p256(1)
  hint p256(0)
  ensures p256(n) >= two256
  trigger p256(n)
lemma beval_bound(s: Seq, n: int)
  requires 0 <= n <= len(s) && bytesS(s)
  decreases n
  uses p256_pos
  hint beval(s, n-1)
  hint p256(n-1)
  hint s[n-1]
  ensures 0 <= beval(s, n) < p256(n)
  trigger beval(s, n)
lemma beval_lower(s: Seq, n: int)
  requires 1 <= n <= len(s) && bytesS(s) && s[0] >= 1
  decreases n
  uses p256_pos beval_bound
  hint beval(s, n-1)
  hint p256(n-2)
  hint s[n-1]
  ensures beval(s, n) >= p256(n-1)
  trigger beval(s, n)
lemma beval_ext(s: Seq, t: Seq, n: int)
  requires 0 <= n <= len(s) && n <= len(t)
  requires forall i: int {s[i]} {t[i]} :: 0 <= i < n ==> s[i] == t[i]
  decreases n
  hint beval(s, n-1)
  hint beval(t, n-1)
  hint s[n-1]
  ensures beval(s, n) == beval(t, n)
// leading zeros do not change the value
lemma beval_zeros(z: Seq, s: Seq, n: int)
  requires 0 <= n <= len(z) + len(s)
  requires forall i: int {z[i]} :: 0 <= i < len(z) ==> z[i] == 0
  decreases n
  hint beval(qapp(z,s), n-1)
  hint beval(s, n-1-len(z))
  ensures beval(qapp(z, s), n) == (n <= len(z) ? 0 : beval(s, n - len(z)))
  trigger beval(qapp(z, s), n)

lib time.Unix(sec, ns) (t)
  flag pure
  ensures t == sec * 1000000000 + ns
lib time.Time.UnixNano(t) (n)
  flag pure
  requires [representable instant] 0 - 9223372036854775808 <= t <= 9223372036854775807
  ensures n == t
lib big.(*Int).SetBytes(z, buf) (r)
  modifies P:big.Int at z
  ensures r == z && bignum(z) == beval(seq(buf), len(buf)) && bignum(z) >= 0
lib big.(*Int).Bytes(d) (r)
  flag alloc
  touches M:byte
  ensures fresh(r) && len(r) < 1000000000 && bytesS(seq(r)) && beval(seq(r), len(r)) == abs(bignum(d)) && (len(r) > 0 ==> seq(r)[0] >= 1)

func collection.Int64ToTime(nano) (t)
  ensures fresh(t) && timenum(t) == nano
func collection.BytesToTime(buf) (t, err)
  ensures [refuses short input] (err == nil) <==> len(buf) >= 8
  ensures [value] len(buf) >= 8 ==> fresh(t) && timenum(t) == s64(be64(seq(buf), 0))
func collection.TimeToBytes(t) (b)
  requires t != nil && 0 - 9223372036854775808 <= timenum(t) <= 9223372036854775807
  ensures [form] fresh(b) && len(b) == 8 && be64(seq(b), 0) == u64(timenum(t))
func collection.ByteArrayToBigInt(data) (r)
  ensures [value] fresh(r) && bignum(r) == beval(seq(data), len(data))
func collection.BigIntToByteArray(d) (b)
  requires d != nil
  uses p256_pos p256_mono beval_bound beval_lower beval_zeros
  ensures [length] fresh(b) && len(b) == 32
  ensures [value] 0 <= bignum(d) < two256 ==> beval(seq(b), 32) == bignum(d)
func collection.Int64ToByteArray(input) (b)
  case input >= 0
  ensures [form] fresh(b) && len(b) == 8 && be64(seq(b), 0) == u64(input)
func collection.ByteArrayToInt64(buf) (r)
  ensures [value] len(buf) >= 8 ==> r == s64(be64(seq(buf), 0))
func collection.Int32ToByteArray(input) (b)
  ensures [form] fresh(b) && len(b) == 4 && be32(seq(b), 0) == u32(input)
func collection.ByteArrayToInt32(buf) (r)
  ensures [value] len(buf) >= 4 ==> r == s32(be32(seq(buf), 0))
func collection.Uint32ToByteArray(input) (b)
  ensures [form] fresh(b) && len(b) == 4 && be32(seq(b), 0) == input
func collection.ByteArrayToUint32(buf) (r)
  ensures [value] len(buf) >= 4 ==> r == be32(seq(buf), 0)

lemma int_round_trip(x: int)
  ensures 0 - 2147483648 <= x <= 2147483647 ==> s32(u32(x)) == x && 0 <= u32(x) < 4294967296
  ensures 0 - 9223372036854775808 <= x <= 9223372036854775807 ==> s64(u64(x)) == x && 0 <= u64(x) < 18446744073709551616

foreach N in (MinInt) (MinUnt) (MinInt8) (MinUnt8) (MinInt16) (MinUnt16) (MinInt32) (MinUint32) (MinInt64) (MinUint64)
func collection.${N}(a, b) (r)
  ensures [smaller] r == min(a, b)
endforeach
foreach N in (MaxInt) (MaxUint) (MaxInt8) (MaxUint8) (MaxInt16) (MaxUint16) (MaxInt32) (MaxUint32) (MaxInt64) (MaxUint64)
func collection.${N}(a, b) (r)
  ensures [larger] r == max(a, b)
endforeach
