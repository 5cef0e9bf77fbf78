use lib slices rank
rec lexi(A: IBlock, oa: int, n: int, B: IBlock, ob: int, m: int, i: int) int decreases n - i :=
  i >= n ? (m > i ? 0-1 : 0) :
  i >= m ? 1 :
  krank(A[ix(oa,i)]) < krank(B[ix(ob,i)]) ? 0-1 : krank(A[ix(oa,i)]) > krank(B[ix(ob,i)]) ? 1 : lexi(A, oa, n, B, ob, m, i+1)

lemma lexi_zero(A: IBlock, oa: int, n: int, B: IBlock, ob: int, m: int, i: int)
  requires 0 <= i <= n && i <= m
  decreases n - i
  hint lexi(A, oa, n, B, ob, m, i+1)
  ensures lexi(A, oa, n, B, ob, m, i) == 0 <==> (n == m && forall j: int {krank(A[ix(oa,j)])} {krank(B[ix(ob,j)])} :: i <= j < n ==> krank(A[ix(oa,j)]) == krank(B[ix(ob,j)]))
  trigger lexi(A, oa, n, B, ob, m, i)
lemma lexi_anti(A: IBlock, oa: int, n: int, B: IBlock, ob: int, m: int, i: int)
  requires 0 <= i <= n && i <= m
  decreases n - i
  hint lexi(A, oa, n, B, ob, m, i+1)
  hint lexi(B, ob, m, A, oa, n, i+1)
  ensures lexi(A, oa, n, B, ob, m, i) == 0 - lexi(B, ob, m, A, oa, n, i)
  trigger lexi(A, oa, n, B, ob, m, i)
lemma lexi_trans(A: IBlock, oa: int, n: int, B: IBlock, ob: int, m: int, C: IBlock, oc: int, l: int, i: int)
  requires 0 <= i <= n && i <= m && i <= l
  requires lexi(A, oa, n, B, ob, m, i) <= 0 && lexi(B, ob, m, C, oc, l, i) <= 0
  decreases n - i
  hint lexi(A, oa, n, B, ob, m, i+1)
  hint lexi(B, ob, m, C, oc, l, i+1)
  hint lexi(A, oa, n, C, oc, l, i+1)
  ensures lexi(A, oa, n, C, oc, l, i) <= 0
  ensures lexi(A, oa, n, C, oc, l, i) == 0 ==> lexi(A, oa, n, B, ob, m, i) == 0 && lexi(B, ob, m, C, oc, l, i) == 0
  trigger lexi(A, oa, n, B, ob, m, i), lexi(B, ob, m, C, oc, l, i)

def lexS(s1: []collection.IComparable, s2: []collection.IComparable, i: int) int = lexi(blk(s1), off(s1), len(s1), blk(s2), off(s2), len(s2), i)
def comparableS(s1: []collection.IComparable, s2: []collection.IComparable) bool =
  forall j: int :: 0 <= j < len(s1) && j < len(s2) ==> s1[j] != nil && s2[j] != nil && kfam(s1[j]) == kfam(s2[j])

func collection.CompareSlice(s1, s2) (r)
  requires comparableS(s1, s2)
  ensures [nil] s1 == nil || s2 == nil ==> sgn(r) == (s1 == nil ? 0 : 1) - (s2 == nil ? 0 : 1)
  ensures [order] s1 != nil && s2 != nil ==> sgn(r) == lexS(s1, s2, 0)
  invariant for $i: int :: lexS(s1, s2, 0) == lexS(s1, s2, $i)

func collection.NewComparableSlice(s) (r)
  ensures fresh(r) && r.slice == s
func collection.(*ComparableSlice).Compare(s, c) (r)
  requires [same kind] c == nil || tag(c) == @type(*collection.ComparableSlice)
  requires tag(c) == @type(*collection.ComparableSlice) ==> ref(c) != 0
  let o = @as(*collection.ComparableSlice, c)
  requires s != nil && c != nil ==> comparableS(s.slice, o.slice)
  ensures [nil] s == nil || c == nil ==> r == (s == nil ? 0 : 1) - (c == nil ? 0 : 1)
  ensures [nil slice] s != nil && c != nil && (s.slice == nil || o.slice == nil) ==> sgn(r) == (s.slice == nil ? 0 : 1) - (o.slice == nil ? 0 : 1)
  ensures [order] s != nil && c != nil && s.slice != nil && o.slice != nil ==> sgn(r) == lexS(s.slice, o.slice, 0)
func collection.(*ComparableSlice).Equal(s, t) (r)
  requires tag(t) == @type(*collection.ComparableSlice) ==> ref(t) != 0
  let o = @as(*collection.ComparableSlice, t)
  ensures [nil] s == nil || t == nil ==> (r <==> s == nil && t == nil)
  ensures [kind] s != nil && t != nil && tag(t) != @type(*collection.ComparableSlice) ==> !r
  ensures [equality] s != nil && tag(t) == @type(*collection.ComparableSlice) ==> (r <==> len(s.slice) == len(o.slice) &&
    forall j: int {s.slice[j]} :: 0 <= j < len(s.slice) ==> (s.slice[j] == nil ? o.slice[j] == nil : o.slice[j] != nil && kfam(s.slice[j]) == kfam(o.slice[j]) && krank(s.slice[j]) == krank(o.slice[j])))
  invariant for $i: int :: forall j: int {s.slice[j]} :: 0 <= j < $i ==> (s.slice[j] == nil ? @as(*collection.ComparableSlice, t).slice[j] == nil : @as(*collection.ComparableSlice, t).slice[j] != nil && kfam(s.slice[j]) == kfam(@as(*collection.ComparableSlice, t).slice[j]) && krank(s.slice[j]) == krank(@as(*collection.ComparableSlice, t).slice[j]))
