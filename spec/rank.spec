use lib
// Orderable objects: the contract of IComparable for arbitrary implementations.
// krank places an object in a total order, kfam is the family of mutually comparable objects.
smt {
(declare-fun krank (Iface) Real)
(declare-fun kfam (Iface) Int)
}
iface collection.IComparable.Compare(a, b) (r)
  flag assumed=any-implementation-of-the-documented-interface pure
  requires [comparable] b != nil && kfam(a) == kfam(b)
  ensures (r < 0) <==> krank(a) < krank(b)
  ensures (r > 0) <==> krank(a) > krank(b)
iface collection.IComparable.Equal(a, b) (r)
  flag assumed=any-implementation-of-the-documented-interface pure
  ensures r <==> b != nil && kfam(a) == kfam(b) && krank(a) == krank(b)
