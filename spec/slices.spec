use lib

// sign of the lexicographic comparison of a and b from index i on
rec lexc(a: Seq, b: Seq, i: int) int decreases len(a) - i :=
  i >= len(a) ? (len(b) > i ? 0-1 : 0) :
  i >= len(b) ? 1 :
  a[i] < b[i] ? 0-1 : a[i] > b[i] ? 1 : lexc(a, b, i+1)

def sgn(x: int) int = x < 0 ? 0-1 : x > 0 ? 1 : 0

lemma lex_zero(a: Seq, b: Seq, i: int)
  requires 0 <= i <= len(a) && i <= len(b)
  decreases len(a) - i
  hint lexc(a, b, i+1)
  ensures lexc(a, b, i) == 0 <==> (len(a) == len(b) && forall j: int :: i <= j < len(a) ==> a[j] == b[j])
  trigger lexc(a, b, i)
lemma lex_anti(a: Seq, b: Seq, i: int)
  requires 0 <= i <= len(a) && i <= len(b)
  decreases len(a) - i
  hint lexc(a, b, i+1)
  hint lexc(b, a, i+1)
  ensures lexc(a, b, i) == 0 - lexc(b, a, i)
  trigger lexc(a, b, i), lexc(b, a, i)
lemma lex_trans(a: Seq, b: Seq, c: Seq, i: int)
  requires 0 <= i <= len(a) && i <= len(b) && i <= len(c)
  requires lexc(a, b, i) <= 0 && lexc(b, c, i) <= 0
  decreases len(a) - i
  hint lexc(a, b, i+1)
  hint lexc(b, c, i+1)
  hint lexc(a, c, i+1)
  ensures lexc(a, c, i) <= 0
  ensures lexc(a, c, i) == 0 ==> lexc(a, b, i) == 0 && lexc(b, c, i) == 0
  trigger lexc(a, b, i), lexc(b, c, i)
lemma lex_prefix(a: Seq, b: Seq, i: int)
  requires 0 <= i <= len(a) && len(a) < len(b)
  requires forall j: int :: i <= j < len(a) ==> a[j] == b[j]
  decreases len(a) - i
  hint lexc(a, b, i+1)
  ensures lexc(a, b, i) == 0-1
  trigger lexc(a, b, i)

foreach N,T in (Byte,byte) (Int8,int8) (Int16,int16) (Uint16,uint16) (Int32,int32) (Uint32,uint32) (Int64,int64) (Uint64,uint64) (Int,int)
func collection.Equal${N}Slice(a, b) (r)
  ensures [equality] r <==> ((a == nil) == (b == nil) && seq(a) == seq(b))
  invariant for $i: int :: forall j: int {seq(a)[j]} :: 0 <= j < $i ==> seq(a)[j] == seq(b)[j]
func collection.Compare${N}Slice(s1, s2) (r)
  ensures [both nil] s1 == nil && s2 == nil ==> r == 0
  ensures [nil first] s1 == nil && s2 != nil ==> r < 0
  ensures [nil last] s1 != nil && s2 == nil ==> r > 0
  ensures [order] s1 != nil && s2 != nil ==> sgn(r) == lexc(seq(s1), seq(s2), 0)
  invariant for $i: int :: lexc(seq(s1), seq(s2), 0) == lexc(seq(s1), seq(s2), $i)
endforeach

// comparable wrappers (interface values never hold nil pointers)
foreach N,T in (Byte,byte) (Int8,int8) (Int16,int16) (Uint16,uint16) (Int32,int32) (Uint32,uint32) (Int64,int64) (Uint64,uint64)
func collection.NewComparable${N}Slice(s) (r)
  ensures fresh(r) && r.slice == s
func collection.(*Comparable${N}Slice).Equal(s, t) (r)
  requires tag(t) == @type(*collection.Comparable${N}Slice) ==> ref(t) != 0
  let o = @as(*collection.Comparable${N}Slice, t)
  ensures [nil] s == nil || t == nil ==> (r <==> s == nil && t == nil)
  ensures [kind] s != nil && t != nil && tag(t) != @type(*collection.Comparable${N}Slice) ==> !r
  ensures [equality] s != nil && tag(t) == @type(*collection.Comparable${N}Slice) ==> (r <==> (s.slice == nil) == (o.slice == nil) && seq(s.slice) == seq(o.slice))
func collection.(*Comparable${N}Slice).Compare(s, c) (r)
  requires [same kind] c == nil || tag(c) == @type(*collection.Comparable${N}Slice)
  requires tag(c) == @type(*collection.Comparable${N}Slice) ==> ref(c) != 0
  let o = @as(*collection.Comparable${N}Slice, c)
  ensures [nil] s == nil || c == nil ==> r == (s == nil ? 0 : 1) - (c == nil ? 0 : 1)
  ensures [nil slice] s != nil && c != nil && (s.slice == nil || o.slice == nil) ==> sgn(r) == (s.slice == nil ? 0 : 1) - (o.slice == nil ? 0 : 1)
  ensures [order] s != nil && c != nil && s.slice != nil && o.slice != nil ==> sgn(r) == lexc(seq(s.slice), seq(o.slice), 0)
endforeach
