use lib rank
// The shape below a node as a mathematical tree, with the nodes, keys, values and balance factors in it.
smt {
(declare-datatypes ((Tree 0)) (((Leaf) (Node (nref Int) (nkey Iface) (nval Iface) (nbal Int) (nl Tree) (nr Tree)))))
(declare-fun tsz (Tree) Int)
(assert (= (tsz Leaf) 0))
(assert (forall ((t Tree)) (! (>= (tsz t) 0) :pattern ((tsz t)))))
(assert (forall ((t Tree)) (! (=> (not (= t Leaf)) (= (tsz t) (+ 1 (tsz (nl t)) (tsz (nr t))))) :pattern ((tsz (nl t))) :pattern ((tsz (nr t))))))
(declare-fun step ((Array Int Iface) (Array Int Iface) (Array Int Int) (Array Int (Array Int Int)) (Array Int Iface) (Array Int Iface) (Array Int Int) (Array Int (Array Int Int)) Int) Bool)
(declare-fun tree ((Array Int Iface) (Array Int Iface) (Array Int Int) (Array Int (Array Int Int)) Int) Tree)
}
// the fields of the nodes from r on are those of t
rec rep(K: IBlock, V: IBlock, B: Block, L: Mem, r: int, t: Tree) bool decreases tsz(t) :=
  t == Leaf ? r == 0 : r != 0 && nref(t) == r && nkey(t) == K[r] && nval(t) == V[r] && nbal(t) == B[r] &&
    rep(K, V, B, L, L[r][0], nl(t)) && rep(K, V, B, L, L[r][1], nr(t))
rec inT(x: int, t: Tree) bool decreases tsz(t) := t != Leaf && (x == nref(t) || inT(x, nl(t)) || inT(x, nr(t)))

lemma rep_det(K: IBlock, V: IBlock, B: Block, L: Mem, r: int, t: Tree, u: Tree)
  requires rep(K, V, B, L, r, t) && rep(K, V, B, L, r, u)
  decreases tsz(t)
  hint rep(K, V, B, L, L[r][0], nl(t))
  hint rep(K, V, B, L, L[r][1], nr(t))
  hint rep(K, V, B, L, L[r][0], nl(u))
  hint rep(K, V, B, L, L[r][1], nr(u))
  ensures t == u
  trigger rep(K, V, B, L, r, t), rep(K, V, B, L, r, u)
// tree picks the one tree there is (rep_det), if there is one
axiom tree_choice(K: IBlock, V: IBlock, B: Block, L: Mem, r: int, t: Tree)
  requires rep(K, V, B, L, r, t)
  ensures tree(K, V, B, L, r) == t
  trigger rep(K, V, B, L, r, t)
def wfT(K: IBlock, V: IBlock, B: Block, L: Mem, r: int) bool = rep(K, V, B, L, r, tree(K, V, B, L, r))

lemma tree_nil(K: IBlock, V: IBlock, B: Block, L: Mem)
  uses tree_choice
  hint rep(K, V, B, L, 0, Leaf)
  ensures tree(K, V, B, L, 0) == Leaf && rep(K, V, B, L, 0, Leaf)
  trigger tree(K, V, B, L, 0)
lemma tree_unfold(K: IBlock, V: IBlock, B: Block, L: Mem, r: int)
  requires r != 0
  uses tree_choice
  let t = tree(K, V, B, L, r)
  let l = tree(K, V, B, L, L[r][0])
  let q = tree(K, V, B, L, L[r][1])
  hint rep(K, V, B, L, L[r][0], nl(t))
  hint rep(K, V, B, L, L[r][1], nr(t))
  hint rep(K, V, B, L, L[r][0], l)
  hint rep(K, V, B, L, L[r][1], q)
  hint rep(K, V, B, L, r, Node(r, K[r], V[r], B[r], l, q))
  ensures wfT(K, V, B, L, r) <==> wfT(K, V, B, L, L[r][0]) && wfT(K, V, B, L, L[r][1])
  ensures wfT(K, V, B, L, r) ==> t == Node(r, K[r], V[r], B[r], l, q)
  trigger tree(K, V, B, L, r), touched(r)
lemma inT_sub(x: int, t: Tree)
  requires t != Leaf
  hint inT(x, t)
  ensures inT(x, nl(t)) || inT(x, nr(t)) ==> inT(x, t)
  trigger inT(x, nl(t))
  trigger inT(x, nr(t))
lemma rep_frame(K: IBlock, V: IBlock, B: Block, L: Mem, K2: IBlock, V2: IBlock, B2: Block, L2: Mem, r: int, t: Tree)
  uses inT_sub
  requires rep(K, V, B, L, r, t)
  requires forall x: int {inT(x, t)} :: inT(x, t) ==> K[x] == K2[x] && V[x] == V2[x] && B[x] == B2[x] && L[x] == L2[x]
  decreases tsz(t)
  hint rep(K, V, B, L, L[r][0], nl(t))
  hint rep(K, V, B, L, L[r][1], nr(t))
  hint rep(K2, V2, B2, L2, L[r][0], nl(t))
  hint rep(K2, V2, B2, L2, L[r][1], nr(t))
  hint inT(r, t)
  ensures rep(K2, V2, B2, L2, r, t)
  trigger rep(K, V, B, L, r, t), rep(K2, V2, B2, L2, r, t)
// every node was allocated before the mark n
rec alo(t: Tree, n: int) bool decreases tsz(t) := t == Leaf || (0 < nref(t) < n && alo(nl(t), n) && alo(nr(t), n))
lemma alo_mono(t: Tree, n: int, m: int)
  requires alo(t, n) && n <= m
  decreases tsz(t)
  hint alo(nl(t), n)
  hint alo(nr(t), n)
  hint alo(nl(t), m)
  hint alo(nr(t), m)
  ensures alo(t, m)
  trigger alo(t, n), alo(t, m)
lemma alo_out(t: Tree, n: int, x: int)
  requires alo(t, n) && (x >= n || x <= 0)
  decreases tsz(t)
  hint alo(nl(t), n)
  hint alo(nr(t), n)
  hint inT(x, nl(t))
  hint inT(x, nr(t))
  ensures !inT(x, t)
  trigger alo(t, n), inT(x, t)
// no node in common
rec disj(t: Tree, u: Tree) bool decreases tsz(t) := t == Leaf || (!inT(nref(t), u) && disj(nl(t), u) && disj(nr(t), u))
lemma disj_out(t: Tree, u: Tree, x: int)
  requires disj(t, u) && inT(x, t)
  decreases tsz(t)
  hint disj(nl(t), u)
  hint disj(nr(t), u)
  hint inT(x, nl(t))
  hint inT(x, nr(t))
  ensures !inT(x, u)
  trigger disj(t, u), inT(x, t), inT(x, u)
lemma disj_right(t: Tree, u: Tree)
  requires u != Leaf
  decreases tsz(t)
  hint disj(nl(t), u)
  hint disj(nr(t), u)
  hint disj(nl(t), nl(u))
  hint disj(nl(t), nr(u))
  hint disj(nr(t), nl(u))
  hint disj(nr(t), nr(u))
  hint inT(nref(t), u)
  hint inT(nref(u), t)
  ensures disj(t, u) <==> !inT(nref(u), t) && disj(t, nl(u)) && disj(t, nr(u))
  trigger disj(t, u)
lemma disj_leaf(t: Tree)
  decreases tsz(t)
  hint disj(nl(t), Leaf)
  hint disj(nr(t), Leaf)
  hint inT(nref(t), Leaf)
  ensures disj(t, Leaf)
  trigger disj(t, Leaf)
lemma disj_comm(t: Tree, u: Tree)
  uses disj_right disj_leaf
  decreases tsz(u)
  hint disj(t, nl(u))
  hint disj(t, nr(u))
  hint disj(nl(u), t)
  hint disj(nr(u), t)
  ensures disj(t, u) <==> disj(u, t)
  trigger disj(t, u)
// outside of t and of what is newer than n nothing changed
rec framed(K: IBlock, V: IBlock, B: Block, L: Mem, K2: IBlock, V2: IBlock, B2: Block, L2: Mem, t: Tree, n: int) bool decreases 0 :=
  forall x: int {K2[x]} {V2[x]} {B2[x]} {L2[x]} :: 0 < x < n && !inT(x, t) ==> K[x] == K2[x] && V[x] == V2[x] && B[x] == B2[x] && L[x] == L2[x]
lemma tree_framed(K: IBlock, V: IBlock, B: Block, L: Mem, K2: IBlock, V2: IBlock, B2: Block, L2: Mem, t: Tree, n: int, r: int)
  let u = tree(K, V, B, L, r)
  requires framed(K, V, B, L, K2, V2, B2, L2, t, n) && wfT(K, V, B, L, r) && alo(u, n) && disj(u, t)
  uses tree_choice rep_frame alo_out disj_out
  hint rep(K2, V2, B2, L2, r, u)
  ensures wfT(K2, V2, B2, L2, r) && tree(K2, V2, B2, L2, r) == u
  trigger framed(K, V, B, L, K2, V2, B2, L2, t, n), tree(K2, V2, B2, L2, r)
  trigger framed(K, V, B, L, K2, V2, B2, L2, t, n), tree(K, V, B, L, r)
// one store
watch step(collection.AVLNode.key, collection.AVLNode.value, collection.AVLNode.balance, collection.AVLNode.link)
lemma tree_step(K: IBlock, V: IBlock, B: Block, L: Mem, K2: IBlock, V2: IBlock, B2: Block, L2: Mem, x: int, r: int)
  let u = tree(K, V, B, L, r)
  requires (K2 == K || K2 == store(K, x, K2[x])) && (V2 == V || V2 == store(V, x, V2[x])) && (B2 == B || B2 == store(B, x, B2[x])) && (L2 == L || L2 == store(L, x, L2[x]))
  requires wfT(K, V, B, L, r) && !inT(x, u)
  uses tree_choice rep_frame
  hint rep(K2, V2, B2, L2, r, u)
  ensures wfT(K2, V2, B2, L2, r) && tree(K2, V2, B2, L2, r) == u
  trigger step(K, V, B, L, K2, V2, B2, L2, x), tree(K2, V2, B2, L2, r)
  trigger step(K, V, B, L, K2, V2, B2, L2, x), tree(K, V, B, L, r)

rec dist(t: Tree) bool decreases tsz(t) := t == Leaf || (dist(nl(t)) && dist(nr(t)) && !inT(nref(t), nl(t)) && !inT(nref(t), nr(t)) && disj(nl(t), nr(t)))
// every key is set and from the family f
rec fam(t: Tree, f: int) bool decreases tsz(t) := t == Leaf || (nkey(t) != nil && kfam(nkey(t)) == f && fam(nl(t), f) && fam(nr(t), f))
// smallest and largest place in the order, for a tree with an element
rec minr(t: Tree) Real decreases tsz(t) := nl(t) == Leaf || t == Leaf ? krank(nkey(t)) : minr(nl(t))
rec maxr(t: Tree) Real decreases tsz(t) := nr(t) == Leaf || t == Leaf ? krank(nkey(t)) : maxr(nr(t))
// a search tree
rec bst(t: Tree) bool decreases tsz(t) := t == Leaf || (bst(nl(t)) && bst(nr(t)) && (nl(t) == Leaf || maxr(nl(t)) < krank(nkey(t))) && (nr(t) == Leaf || krank(nkey(t)) < minr(nr(t))))
lemma bst_mid(t: Tree)
  requires bst(t) && t != Leaf
  decreases tsz(t)
  hint bst(nl(t))
  hint bst(nr(t))
  hint minr(nl(t))
  hint maxr(nr(t))
  ensures minr(t) <= krank(nkey(t)) <= maxr(t)
  trigger bst(t)
rec ht(t: Tree) int decreases tsz(t) := t == Leaf ? 0 : 1 + (ht(nl(t)) >= ht(nr(t)) ? ht(nl(t)) : ht(nr(t)))
lemma ht_pos(t: Tree)
  decreases tsz(t)
  hint ht(nl(t))
  hint ht(nr(t))
  ensures ht(t) >= 0 && (t != Leaf ==> ht(t) >= 1)
  trigger ht(t)
// balanced, and the balance factors say how
rec avl(t: Tree) bool decreases tsz(t) := t == Leaf || (avl(nl(t)) && avl(nr(t)) && nbal(t) == ht(nr(t)) - ht(nl(t)) && 0-1 <= nbal(t) <= 1)
// what the tree maps a place in the order to: key (nil: nothing) and value
rec gk(t: Tree, q: Real) collection.IComparable decreases tsz(t) := t == Leaf ? nil : q == krank(nkey(t)) ? nkey(t) : q < krank(nkey(t)) ? gk(nl(t), q) : gk(nr(t), q)
rec gv(t: Tree, q: Real) collection.IObject decreases tsz(t) := t == Leaf ? nil : q == krank(nkey(t)) ? nval(t) : q < krank(nkey(t)) ? gv(nl(t), q) : gv(nr(t), q)
lemma gk_low(t: Tree, q: Real)
  requires bst(t) && t != Leaf && q < minr(t)
  uses bst_mid
  decreases tsz(t)
  hint gk(nl(t), q)
  hint gv(nl(t), q)
  hint minr(nl(t))
  ensures gk(t, q) == gk(Leaf, q) && gv(t, q) == gv(Leaf, q)
  trigger gk(t, q)
  trigger gv(t, q)
lemma gk_high(t: Tree, q: Real)
  requires bst(t) && t != Leaf && q > maxr(t)
  uses bst_mid
  decreases tsz(t)
  hint gk(nr(t), q)
  hint gv(nr(t), q)
  hint maxr(nr(t))
  ensures gk(t, q) == gk(Leaf, q) && gv(t, q) == gv(Leaf, q)
  trigger gk(t, q)
  trigger gv(t, q)
def tr(r: *collection.AVLNode) Tree = tree(@heap(collection.AVLNode.key), @heap(collection.AVLNode.value), @heap(collection.AVLNode.balance), @heap(collection.AVLNode.link), r)
def wfr(r: *collection.AVLNode) bool = wfT(@heap(collection.AVLNode.key), @heap(collection.AVLNode.value), @heap(collection.AVLNode.balance), @heap(collection.AVLNode.link), r)
def okrep(r: *collection.AVLNode) bool = wfT(@heap(collection.AVLNode.key), @heap(collection.AVLNode.value), @heap(collection.AVLNode.balance), @heap(collection.AVLNode.link), r) &&
  dist(tr(r)) && alo(tr(r), allocmark())

// what rebalancing does: t is too deep on its left (0) or right (1) side
def mkn(t: Tree, b: int, l: Tree, q: Tree) Tree = Node(nref(t), nkey(t), nval(t), b, l, q)
def reb0(t: Tree) Tree = let l = nl(t) :: let m = nr(l) ::
  nbal(l) == 0-1 ? mkn(l, 0, nl(l), mkn(t, 0, m, nr(t))) :
  mkn(m, 0, mkn(l, nbal(m) == 1 ? 0-1 : 0, nl(l), nl(m)), mkn(t, nbal(m) == 0-1 ? 1 : 0, nr(m), nr(t)))
def reb1(t: Tree) Tree = let q = nr(t) :: let m = nl(q) ::
  nbal(q) == 1 ? mkn(q, 0, mkn(t, 0, nl(t), m), nr(q)) :
  mkn(m, 0, mkn(t, nbal(m) == 1 ? 0-1 : 0, nl(t), nl(m)), mkn(q, nbal(m) == 0-1 ? 1 : 0, nr(m), nr(q)))
def rot0(t: Tree) Tree = let l = nl(t) :: mkn(l, 1, nl(l), mkn(t, 0-1, nr(l), nr(t)))
def rot1(t: Tree) Tree = let q = nr(t) :: mkn(q, 0-1, mkn(t, 1, nl(t), nl(q)), nr(q))
def childOk(t: Tree, d: int) bool = t != Leaf && (d == 0 ? nl(t) != Leaf && (nbal(nl(t)) == 1 ==> nr(nl(t)) != Leaf) : nr(t) != Leaf && (nbal(nr(t)) == 0-1 ==> nl(nr(t)) != Leaf))

func collection.(*AVLNode).putBalance(root, dir) (r)
  flag chain=left,right
  uses tree_nil tree_unfold tree_step disj_comm disj_leaf alo_mono alo_out bst_mid
  requires okrep(root) && (dir == 0 || dir == 1) && childOk(tr(root), dir) && (dir == 0 ? 0-1 <= nbal(nl(tr(root))) <= 1 && nbal(nl(tr(root))) != 0 : 0-1 <= nbal(nr(tr(root))) <= 1 && nbal(nr(tr(root))) != 0)
  requires dir == 0 && nbal(nl(tr(root))) == 1 ==> 0-1 <= nbal(nr(nl(tr(root)))) <= 1
  requires dir == 1 && nbal(nr(tr(root))) == 0-1 ==> 0-1 <= nbal(nl(nr(tr(root)))) <= 1
  modifies collection.AVLNode.balance, collection.AVLNode.link where x :: inT(x, tr(root))
  ensures [shape] wfr(r)
  ensures [left] dir == 0 ==> tr(r) == reb0(old(tr(root)))
  ensures [right] dir == 1 ==> tr(r) == reb1(old(tr(root)))
  ensures [same keys] bst(old(tr(root))) ==> forall p: Real {gk(tr(r), p)} :: gk(tr(r), p) == gk(old(tr(root)), p)
  ensures [same values] bst(old(tr(root))) ==> forall p: Real {gv(tr(r), p)} :: gv(tr(r), p) == gv(old(tr(root)), p)
  ensures [alloc] alo(tr(r), allocmark())
  ensures [dist] dist(tr(r))
  ensures [frame] framed(old(@heap(collection.AVLNode.key)), old(@heap(collection.AVLNode.value)), old(@heap(collection.AVLNode.balance)), old(@heap(collection.AVLNode.link)), @heap(collection.AVLNode.key), @heap(collection.AVLNode.value), @heap(collection.AVLNode.balance), @heap(collection.AVLNode.link), old(tr(root)), old(allocmark()))
func collection.(*AVLNode).putR(root, key, value) (r, found, done)
  flag nilrecv
  uses tree_nil tree_unfold tree_framed tree_step disj_comm disj_leaf alo_mono alo_out ht_pos bst_mid
  decreases tsz(tr(root))
  requires okrep(root)
  requires key != nil && fam(tr(root), kfam(key)) && bst(tr(root)) && avl(tr(root))
  modifies collection.AVLNode.key, collection.AVLNode.value, collection.AVLNode.balance, collection.AVLNode.link where x :: inT(x, tr(root))
  ensures [shape] okrep(r) && r != nil
  ensures [frame] framed(old(@heap(collection.AVLNode.key)), old(@heap(collection.AVLNode.value)), old(@heap(collection.AVLNode.balance)), old(@heap(collection.AVLNode.link)),
    @heap(collection.AVLNode.key), @heap(collection.AVLNode.value), @heap(collection.AVLNode.balance), @heap(collection.AVLNode.link), old(tr(root)), old(allocmark()))
  ensures [nodes] forall x: int {inT(x, tr(r))} :: x < old(allocmark()) && inT(x, tr(r)) ==> inT(x, old(tr(root)))
  ensures [nodes2] forall u: Tree {disj(tr(r), u)} :: disj(old(tr(root)), u) && alo(u, old(allocmark())) ==> disj(tr(r), u)
  ensures [balance] avl(tr(r))
  ensures [height] ht(tr(r)) == old(ht(tr(root))) + (done ? 0 : 1)
  ensures [leaning] !done && old(tr(root)) != Leaf ==> nbal(tr(r)) != 0
  let f = kfam(key)
  let q = krank(key)
  ensures [keys] fam(tr(r), f)
  ensures [order] bst(tr(r))
  ensures [smallest] minr(tr(r)) == (old(tr(root)) == Leaf || q < old(minr(tr(root))) ? q : old(minr(tr(root))))
  ensures [largest] maxr(tr(r)) == (old(tr(root)) == Leaf || q > old(maxr(tr(root))) ? q : old(maxr(tr(root))))
  ensures [lookup key] forall p: Real {gk(tr(r), p)} :: gk(tr(r), p) == (p == q ? key : old(gk(tr(root), p)))
  ensures [lookup value] forall p: Real {gv(tr(r), p)} :: gv(tr(r), p) == (p == q ? value : old(gv(tr(root), p)))
  ensures [count] tsz(tr(r)) == old(tsz(tr(root))) + (found == nil ? 1 : 0)
  ensures [absent] found == nil <==> old(gk(tr(root), q)) == nil
  ensures [replaced] found != nil ==> fresh(found) && found.key == old(gk(tr(root), q)) && found.value == old(gv(tr(root), q))

func collection.(*AVLNode).removeBalance(root, dir) (r, done)
  flag chain=left,right
  uses tree_nil tree_unfold tree_step disj_comm disj_leaf alo_mono alo_out bst_mid
  requires okrep(root) && (dir == 0 || dir == 1) && childOk(tr(root), 1 - dir) && (dir == 1 ? 0-1 <= nbal(nl(tr(root))) <= 1 : 0-1 <= nbal(nr(tr(root))) <= 1)
  requires dir == 1 && nbal(nl(tr(root))) == 1 ==> 0-1 <= nbal(nr(nl(tr(root)))) <= 1
  requires dir == 0 && nbal(nr(tr(root))) == 0-1 ==> 0-1 <= nbal(nl(nr(tr(root)))) <= 1
  modifies collection.AVLNode.balance, collection.AVLNode.link where x :: inT(x, tr(root))
  ensures [shape] wfr(r)
  ensures [left] dir == 1 ==> tr(r) == (old(nbal(nl(tr(root)))) == 0 ? rot0(old(tr(root))) : reb0(old(tr(root))))
  ensures [right] dir == 0 ==> tr(r) == (old(nbal(nr(tr(root)))) == 0 ? rot1(old(tr(root))) : reb1(old(tr(root))))
  ensures [done] done <==> old(dir == 1 ? nbal(nl(tr(root))) == 0 : nbal(nr(tr(root))) == 0)
  ensures [same keys] bst(old(tr(root))) ==> forall p: Real {gk(tr(r), p)} :: gk(tr(r), p) == gk(old(tr(root)), p)
  ensures [same values] bst(old(tr(root))) ==> forall p: Real {gv(tr(r), p)} :: gv(tr(r), p) == gv(old(tr(root)), p)
  ensures [alloc] alo(tr(r), allocmark())
  ensures [dist] dist(tr(r))
  ensures [frame] framed(old(@heap(collection.AVLNode.key)), old(@heap(collection.AVLNode.value)), old(@heap(collection.AVLNode.balance)), old(@heap(collection.AVLNode.link)), @heap(collection.AVLNode.key), @heap(collection.AVLNode.value), @heap(collection.AVLNode.balance), @heap(collection.AVLNode.link), old(tr(root)), old(allocmark()))

func collection.(*AVLNode).removeR(root, key) (r, found, done)
  flag nilrecv
  uses tree_nil tree_unfold tree_framed tree_step disj_comm disj_leaf alo_mono alo_out ht_pos bst_mid gk_low gk_high
  decreases tsz(tr(root))
  requires okrep(root)
  requires key != nil && fam(tr(root), kfam(key)) && bst(tr(root)) && avl(tr(root))
  modifies collection.AVLNode.key, collection.AVLNode.value, collection.AVLNode.balance, collection.AVLNode.link where x :: inT(x, tr(root))
  ensures [shape] okrep(r)
  ensures [frame] framed(old(@heap(collection.AVLNode.key)), old(@heap(collection.AVLNode.value)), old(@heap(collection.AVLNode.balance)), old(@heap(collection.AVLNode.link)), @heap(collection.AVLNode.key), @heap(collection.AVLNode.value), @heap(collection.AVLNode.balance), @heap(collection.AVLNode.link), old(tr(root)), old(allocmark()))
  ensures [nodes] forall x: int {inT(x, tr(r))} :: inT(x, tr(r)) ==> inT(x, old(tr(root)))
  ensures [nodes2] forall u: Tree {disj(tr(r), u)} :: disj(old(tr(root)), u) ==> disj(tr(r), u)
  ensures [balance] avl(tr(r))
  ensures [height] ht(tr(r)) == old(ht(tr(root))) - (done ? 0 : 1)
  let f = kfam(key)
  let q = krank(key)
  ensures [keys] fam(tr(r), f)
  ensures [order] bst(tr(r))
  ensures [smallest] tr(r) != Leaf ==> old(tr(root)) != Leaf && minr(tr(r)) >= old(minr(tr(root)))
  ensures [largest] tr(r) != Leaf ==> maxr(tr(r)) <= old(maxr(tr(root))) && (q == old(maxr(tr(root))) ==> maxr(tr(r)) < q)
  ensures [lookup key] forall p: Real {gk(tr(r), p)} :: gk(tr(r), p) == (p == q ? nil : old(gk(tr(root), p)))
  ensures [lookup value] forall p: Real {gv(tr(r), p)} :: gv(tr(r), p) == (p == q ? nil : old(gv(tr(root), p)))
  ensures [count] tsz(tr(r)) == old(tsz(tr(root))) - (found == nil ? 0 : 1)
  ensures [absent] found == nil <==> old(gk(tr(root), q)) == nil
  ensures [removed] found != nil ==> fresh(found) && found.key == old(gk(tr(root), q)) && found.value == old(gv(tr(root), q))
  invariant for $h: *collection.AVLNode :: $h != nil && okrep($h) && fam(tr($h), kfam(key)) && bst(tr($h)) &&
    maxr(tr($h)) == maxr(nl(tr(root))) && gk(tr($h), maxr(tr($h))) == gk(nl(tr(root)), maxr(tr($h))) && gv(tr($h), maxr(tr($h))) == gv(nl(tr(root)), maxr(tr($h)))
  measure for $h: *collection.AVLNode :: tsz(tr($h))

func collection.(*AVLNode).getR(root, key) (r)
  uses tree_nil tree_unfold bst_mid gk_low gk_high
  flag pure
  decreases tsz(tr(root))
  requires okrep(root) && root != nil
  requires key != nil && fam(tr(root), kfam(key)) && bst(tr(root))
  ensures [absent] r == nil <==> gk(tr(root), krank(key)) == nil
  ensures [found] r != nil ==> r.key == gk(tr(root), krank(key)) && r.value == gv(tr(root), krank(key))
