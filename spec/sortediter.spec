use lib sorted
// A sequence of entries: node, key, value.
smt {
(declare-datatypes ((Ents 0)) (((ENil) (ECons (eref Int) (ekey Iface) (eval Iface) (etl Ents)))))
(declare-fun esz (Ents) Int)
(assert (= (esz ENil) 0))
(assert (forall ((t Ents)) (! (>= (esz t) 0) :pattern ((esz t)))))
(assert (forall ((t Ents)) (! (=> (not (= t ENil)) (= (esz t) (+ 1 (esz (etl t))))) :pattern ((esz (etl t))))))
}
// the entries of t in order, then acc
rec ino(t: Tree, acc: Ents) Ents decreases tsz(t) := t == Leaf ? acc : ino(nl(t), ECons(nref(t), nkey(t), nval(t), ino(nr(t), acc)))
// strictly ascending
rec asc(l: Ents) bool decreases esz(l) := l == ENil || etl(l) == ENil || (krank(ekey(l)) < krank(ekey(etl(l))) && asc(etl(l)))
// all keys are set and of family f
rec efam(l: Ents, f: int) bool decreases esz(l) := l == ENil || (ekey(l) != nil && kfam(ekey(l)) == f && efam(etl(l), f))
// without the entries below s; up to the first that is not below e
rec eskip(l: Ents, s: Real) Ents decreases esz(l) := l == ENil ? ENil : krank(ekey(l)) < s ? eskip(etl(l), s) : l
rec ecut(l: Ents, e: Real) Ents decreases esz(l) := l == ENil || krank(ekey(l)) >= e ? ENil : ECons(eref(l), ekey(l), eval(l), ecut(etl(l), e))
// what is in a sequence
rec emem(l: Ents, x: int) bool decreases esz(l) := l != ENil && (eref(l) == x || emem(etl(l), x))

lemma ino_asc(t: Tree, acc: Ents)
  requires bst(t) && asc(acc) && (t == Leaf || acc == ENil || maxr(t) < krank(ekey(acc)))
  uses bst_mid
  decreases tsz(t)
  let m = ECons(nref(t), nkey(t), nval(t), ino(nr(t), acc))
  hint ino(nr(t), acc)
  hint ino(nl(t), m)
  hint asc(m)
  hint minr(nl(t))
  ensures asc(ino(t, acc))
  ensures t != Leaf ==> ino(t, acc) != ENil && krank(ekey(ino(t, acc))) == minr(t)
  trigger ino(t, acc)
lemma ino_fam(t: Tree, acc: Ents, f: int)
  requires fam(t, f) && efam(acc, f)
  decreases tsz(t)
  let m = ECons(nref(t), nkey(t), nval(t), ino(nr(t), acc))
  hint ino(nr(t), acc)
  hint ino(nl(t), m)
  hint efam(m, f)
  ensures efam(ino(t, acc), f)
  trigger ino(t, acc), fam(t, f)
// what the stack of nodes still has to offer: each node, and then its right side
rec prem(K: IBlock, V: IBlock, B: Block, L: Mem, P: Block, o: int, n: int) Ents decreases n :=
  n <= 0 ? ENil : ECons(P[ix(o,n-1)], K[P[ix(o,n-1)]], V[P[ix(o,n-1)]], ino(tree(K, V, B, L, L[P[ix(o,n-1)]][1]), prem(K, V, B, L, P, o, n-1)))
// the stack is well formed, and everything in it older than m
rec pok(K: IBlock, V: IBlock, B: Block, L: Mem, P: Block, o: int, n: int, m: int) bool decreases n :=
  n <= 0 || (0 < P[ix(o,n-1)] < m && wfT(K, V, B, L, L[P[ix(o,n-1)]][1]) && alo(tree(K, V, B, L, L[P[ix(o,n-1)]][1]), m) && pok(K, V, B, L, P, o, n-1, m))
lemma pok_mono(K: IBlock, V: IBlock, B: Block, L: Mem, P: Block, o: int, n: int, m: int, m2: int)
  requires pok(K, V, B, L, P, o, n, m) && m <= m2
  uses alo_mono
  decreases n
  hint pok(K, V, B, L, P, o, n-1, m)
  hint pok(K, V, B, L, P, o, n-1, m2)
  hint alo(tree(K, V, B, L, L[P[ix(o,n-1)]][1]), m2)
  ensures pok(K, V, B, L, P, o, n, m2)
  trigger pok(K, V, B, L, P, o, n, m), pok(K, V, B, L, P, o, n, m2)
lemma prem_blk(K: IBlock, V: IBlock, B: Block, L: Mem, P: Block, o: int, P2: Block, o2: int, n: int)
  requires forall j: int {P2[ix(o2,j)]} {P[ix(o,j)]} :: 0 <= j < n ==> P[ix(o,j)] == P2[ix(o2,j)]
  decreases n
  hint prem(K, V, B, L, P, o, n-1)
  hint prem(K, V, B, L, P2, o2, n-1)
  ensures prem(K, V, B, L, P2, o2, n) == prem(K, V, B, L, P, o, n)
  trigger prem(K, V, B, L, P, o, n), prem(K, V, B, L, P2, o2, n)
lemma pok_blk(K: IBlock, V: IBlock, B: Block, L: Mem, P: Block, o: int, P2: Block, o2: int, n: int, m: int)
  requires forall j: int {P2[ix(o2,j)]} {P[ix(o,j)]} :: 0 <= j < n ==> P[ix(o,j)] == P2[ix(o2,j)]
  decreases n
  hint pok(K, V, B, L, P, o, n-1, m)
  hint pok(K, V, B, L, P2, o2, n-1, m)
  ensures pok(K, V, B, L, P2, o2, n, m) == pok(K, V, B, L, P, o, n, m)
  trigger pok(K, V, B, L, P, o, n, m), pok(K, V, B, L, P2, o2, n, m)
lemma prem_step(K: IBlock, V: IBlock, B: Block, L: Mem, K2: IBlock, V2: IBlock, B2: Block, L2: Mem, x: int, P: Block, o: int, n: int, m: int)
  requires step(K, V, B, L, K2, V2, B2, L2, x)
  requires (K2 == K || K2 == store(K, x, K2[x])) && (V2 == V || V2 == store(V, x, V2[x])) && (B2 == B || B2 == store(B, x, B2[x])) && (L2 == L || L2 == store(L, x, L2[x]))
  requires pok(K, V, B, L, P, o, n, m) && x >= m
  uses tree_step alo_out
  decreases n
  hint prem(K, V, B, L, P, o, n-1)
  hint prem(K2, V2, B2, L2, P, o, n-1)
  hint pok(K, V, B, L, P, o, n-1, m)
  hint pok(K2, V2, B2, L2, P, o, n-1, m)
  hint inT(x, tree(K, V, B, L, L[P[ix(o,n-1)]][1]))
  ensures prem(K2, V2, B2, L2, P, o, n) == prem(K, V, B, L, P, o, n) && pok(K2, V2, B2, L2, P, o, n, m)
  trigger step(K, V, B, L, K2, V2, B2, L2, x), prem(K2, V2, B2, L2, P, o, n), pok(K, V, B, L, P, o, n, m)

def stk(i: *collection.AVLIterator) Ents = prem(@heap(collection.AVLNode.key), @heap(collection.AVLNode.value), @heap(collection.AVLNode.balance), @heap(collection.AVLNode.link), blk(i.paths), off(i.paths), len(i.paths))
def stkOk(i: *collection.AVLIterator) bool = pok(@heap(collection.AVLNode.key), @heap(collection.AVLNode.value), @heap(collection.AVLNode.balance), @heap(collection.AVLNode.link), blk(i.paths), off(i.paths), len(i.paths), allocmark())
// a node whose entry and right side are still to come
def nodeOk(c: *collection.AVLNode) bool = c != nil && alloced(c) && wfr(c.link[1]) && alo(tr(c.link[1]), allocmark())
def rest(i: *collection.AVLIterator) Ents = i.currNode == nil ? stk(i) :
  i.currPos == 0 ? ECons(ref(i.currNode), i.currNode.key, i.currNode.value, ino(tr(i.currNode.link[1]), stk(i))) : ino(tr(i.currNode.link[1]), stk(i))
def clip(l: Ents, s: collection.IComparable, e: collection.IComparable) Ents =
  let m = (s == nil ? l : eskip(l, krank(s))) :: (e == nil ? m : ecut(m, krank(e)))
// the entries still to come
def view(i: *collection.AVLIterator) Ents = clip(rest(i), i.start, i.end)
def famOk(l: Ents, i: *collection.AVLIterator) bool = asc(l) && (i.start != nil ==> efam(l, kfam(i.start))) && (i.end != nil ==> efam(l, kfam(i.end)))
def okIter(i: *collection.AVLIterator) bool = i != nil && alloced(i) && (i.currNode == nil || nodeOk(i.currNode)) && (i.currPos == 0 || i.currPos == 1) && stkOk(i) && famOk(rest(i), i)
def ready(i: *collection.AVLIterator) bool = okIter(i) && (i.currNode == nil ==> len(i.paths) == 0) && (i.currNode != nil ==> i.currPos == 0 && i.start == nil && (i.end == nil || krank(i.currNode.key) < krank(i.end)))

func collection.(*AVLIterator).advance(i) ()
  uses tree_nil tree_unfold prem_blk pok_blk
  requires okIter(i)
  modifies collection.AVLIterator.paths, collection.AVLIterator.currNode, collection.AVLIterator.currPos, collection.AVLIterator.start, collection.AVLIterator.end at i
  modifies M:*collection.AVLNode where x :: x == base(i.paths)
  ensures [ready] ready(i)
  ensures [same entries] view(i) == old(view(i))
  invariant okIter(i)
  invariant i.currNode != nil && i.currPos == 0
  invariant view(i) == old(view(i))
  invariant fresh(base(i.paths)) || base(i.paths) == old(base(i.paths))
  invariant i.currNode != nil && alloced(i.currNode) && wfr(i.currNode) && alo(tr(i.currNode), allocmark()) && stkOk(i) && famOk(ino(tr(i.currNode), stk(i)), i) && i.currPos == 0
  invariant clip(ino(tr(i.currNode), stk(i)), i.start, i.end) == old(view(i))
  invariant i.start == old(i.start)
  invariant i.end == old(i.end)
  invariant i.start == nil
  invariant i.start != nil
  invariant i.end != nil
  invariant for $c: int :: ($c > 0 <==> krank(i.start) > krank(i.currNode.key))
  invariant for $c: int :: ($c >= 0 <==> krank(i.currNode.key) >= krank(i.end))
  measure tsz(tr(i.currNode))
  measure esz(rest(i))
  measure len(i.paths)
