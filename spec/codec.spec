use lib nums
// variable length integers: length (0: unterminated) and value of the integer at the head of s
rec uvn(s: Seq) int decreases len(s) := len(s) == 0 ? 0 : s[0] < 128 ? 1 : (uvn(s[1:len(s)]) == 0 ? 0 : uvn(s[1:len(s)]) + 1)
rec uvv(s: Seq) int decreases len(s) := len(s) == 0 ? 0 : s[0] < 128 ? s[0] : s[0] - 128 + 128 * uvv(s[1:len(s)])
// the integer is complete and fits 64 bits
def uvok(s: Seq) bool = uvn(s) >= 1 && uvn(s) <= 10 && (uvn(s) == 10 ==> s[9] <= 1)
rec uvenc(x: int) Seq decreases x := x < 128 ? qone(x) : qapp(qone(128 + x % 128), uvenc(x / 128))
def zz(x: int) int = x >= 0 ? 2 * x : 0 - 2 * x - 1
def unzz(u: int) int = u % 2 == 0 ? u / 2 : 0 - u / 2 - 1
def hintU(x: int) int = 0

lemma uv_round(x: int, t: Seq)
  requires x >= 0
  decreases x
  hint uvenc(x/128)
  hint qapp(uvenc(x/128), t)
  hint uvn(qapp(uvenc(x/128), t))
  hint uvv(qapp(uvenc(x/128), t))
  ensures uvn(qapp(uvenc(x), t)) == len(uvenc(x)) && uvv(qapp(uvenc(x), t)) == x && len(uvenc(x)) >= 1
  trigger uvn(qapp(uvenc(x), t))
  trigger uvv(qapp(uvenc(x), t))
lemma uv_self(x: int)
  requires x >= 0
  uses uv_round
  hint qapp(uvenc(x), sempty)
  hint uvn(qapp(uvenc(x), sempty))
  ensures uvn(uvenc(x)) == len(uvenc(x)) && uvv(uvenc(x)) == x
  trigger uvenc(x)
lemma uv_len(x: int)
  requires 0 <= x
  hint uvenc(x/128)
  hint uvenc(x/128/128)
  hint uvenc(x/128/128/128)
  hint uvenc(x/128/128/128/128)
  hint uvenc(x/128/128/128/128/128)
  hint uvenc(x/128/128/128/128/128/128)
  hint uvenc(x/128/128/128/128/128/128/128)
  hint uvenc(x/128/128/128/128/128/128/128/128)
  hint uvenc(x/128/128/128/128/128/128/128/128/128)
  ensures len(uvenc(x)) >= 1
  ensures x < 18446744073709551616 ==> len(uvenc(x)) <= 10 && (len(uvenc(x)) == 10 ==> uvenc(x)[9] <= 1)
  ensures x < 128 ==> len(uvenc(x)) == 1
  ensures x < 16384 ==> len(uvenc(x)) <= 2
  ensures x < 2097152 ==> len(uvenc(x)) <= 3
  trigger uvenc(x)
lemma uv_bytes(x: int)
  requires 0 <= x
  decreases x
  hint uvenc(x/128)
  ensures bytesS(uvenc(x))
  trigger uvenc(x)
lemma uvn_bound(s: Seq)
  decreases len(s)
  hint uvn(s[1:len(s)])
  ensures 0 <= uvn(s) <= len(s)
  trigger uvn(s)
lemma uvv_bound(s: Seq)
  requires bytesS(s)
  decreases len(s)
  hint uvn(s[1:len(s)])
  hint uvv(s[1:len(s)])
  ensures uvv(s) >= 0
  trigger uvv(s)

func binary.PutUvarint(buf, x) (n)
  flag unroll=10
  requires len(buf) >= 10
  modifies M:byte at base(buf)
  hint uvenc(x/128)
  hint uvenc(x/128/128)
  hint uvenc(x/128/128/128)
  hint uvenc(x/128/128/128/128)
  hint uvenc(x/128/128/128/128/128)
  hint uvenc(x/128/128/128/128/128/128)
  hint uvenc(x/128/128/128/128/128/128/128)
  hint uvenc(x/128/128/128/128/128/128/128/128)
  hint uvenc(x/128/128/128/128/128/128/128/128/128)
  ensures [length] n == len(uvenc(x)) && 1 <= n <= 10
  ensures [bytes] seq(buf)[0:n] == uvenc(x)
func binary.Uvarint(buf) (x, n)
  flag unroll=11
  let s = seq(buf)
  hint uvn(s[1:len(s)])
  hint uvv(s[1:len(s)])
  hint uvn(s[2:len(s)])
  hint uvv(s[2:len(s)])
  hint uvn(s[3:len(s)])
  hint uvv(s[3:len(s)])
  hint uvn(s[4:len(s)])
  hint uvv(s[4:len(s)])
  hint uvn(s[5:len(s)])
  hint uvv(s[5:len(s)])
  hint uvn(s[6:len(s)])
  hint uvv(s[6:len(s)])
  hint uvn(s[7:len(s)])
  hint uvv(s[7:len(s)])
  hint uvn(s[8:len(s)])
  hint uvv(s[8:len(s)])
  hint uvn(s[9:len(s)])
  hint uvv(s[9:len(s)])
  hint uvn(s[10:len(s)])
  hint uvv(s[10:len(s)])
  ensures [accepts] n >= 1 <==> uvok(s)
  ensures [value] uvok(s) ==> x == uvv(s) && n == uvn(s)
  ensures [refused] !uvok(s) ==> x == 0 && (n == 0 <==> uvn(s) == 0 && len(buf) <= 10)
func binary.PutVarint(buf, x) (n)
  requires len(buf) >= 10
  modifies M:byte at base(buf)
  ensures [length] n == len(uvenc(zz(x))) && 1 <= n <= 10
  ensures [bytes] seq(buf)[0:n] == uvenc(zz(x))
func binary.Varint(buf) (x, n)
  let s = seq(buf)
  uses uvv_bound
  ensures [accepts] n >= 1 <==> uvok(s)
  ensures [value] uvok(s) ==> x == unzz(uvv(s)) && n == uvn(s)
  ensures [refused] !uvok(s) ==> x == 0 && (n == 0 <==> uvn(s) == 0 && len(buf) <= 10)

func util.EncodeVarint64(data) (r)
  uses uv_len
  ensures [form] fresh(r) && seq(r) == uvenc(zz(data))
func util.EncodeUvarint64(data) (r)
  uses uv_len
  ensures [form] fresh(r) && seq(r) == uvenc(data)
func util.DecodeVarint64(buf) (x, n, err)
  let s = seq(buf)
  ensures [accepts] err == nil <==> len(buf) == 0 || uvok(s)
  ensures [value] err == nil ==> (len(buf) == 0 ? x == 0 && n == 0 : x == unzz(uvv(s)) && n == uvn(s))
  ensures [refused] err != nil ==> n == 0
func util.DecodeUvarint64(buf) (x, n, err)
  let s = seq(buf)
  ensures [accepts] err == nil <==> len(buf) == 0 || uvok(s)
  ensures [value] err == nil ==> (len(buf) == 0 ? x == 0 && n == 0 : x == uvv(s) && n == uvn(s))
  ensures [refused] err != nil ==> n == 0

// byte strings
def vcok(s: Seq) bool = len(s) == 0 || (uvok(s) && uvv(s) <= len(s) - uvn(s))
def vcn(s: Seq) int = len(s) == 0 ? 0 : uvn(s) + uvv(s)
def vcd(s: Seq) Seq = len(s) == 0 ? sempty : s[uvn(s):uvn(s)+uvv(s)]
def vcenc(d: Seq) Seq = qapp(uvenc(len(d)), d)

func util.EncodeVarchar(data) (r)
  uses uv_len
  ensures [form] fresh(r) && seq(r) == vcenc(seq(data))
func util.DecodeVarchar(buf) (d, n, err)
  let s = seq(buf)
  uses uvv_bound uvn_bound
  ensures [accepts] err == nil <==> vcok(s)
  ensures [value] err == nil ==> n == vcn(s) && seq(d) == vcd(s) && d != nil && 0 <= n <= len(buf)
  ensures [place] err == nil && len(buf) > 0 ==> base(d) == base(buf) && off(d) == off(buf) + uvn(s)
  ensures [place] err == nil && len(buf) == 0 ==> fresh(d)
  ensures [refused] err != nil ==> n == 0 && d == nil

// what is encoded is decoded again, whatever follows it
lemma varint_round_trip(x: int, t: Seq)
  requires 0 - 9223372036854775808 <= x <= 9223372036854775807
  uses uv_round uv_len
  let s = qapp(uvenc(zz(x)), t)
  ensures uvok(s) && unzz(uvv(s)) == x && uvn(s) == len(uvenc(zz(x)))
lemma uvarint_round_trip(x: int, t: Seq)
  requires 0 <= x < 18446744073709551616
  uses uv_round uv_len
  let s = qapp(uvenc(x), t)
  ensures uvok(s) && uvv(s) == x && uvn(s) == len(uvenc(x))
lemma varchar_round_trip(d: Seq, t: Seq)
  requires len(d) < 9223372036854775808
  uses uv_round uv_len
  let s = qapp(vcenc(d), t)
  hint qapp(d, t)
  ensures vcok(s) && vcd(s) == d && vcn(s) == len(vcenc(d))
  trigger qapp(qapp(uvenc(len(d)), d), t)
