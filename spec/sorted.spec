use lib avl
// the tree is a well formed search tree of size entries
def okTree(t: *collection.AVLTree) bool = t != nil && alloced(t) && okrep(t.root) && bst(tr(t.root)) && avl(tr(t.root)) && t.size == tsz(tr(t.root))
def okKey(t: *collection.AVLTree, k: collection.IComparable) bool = k != nil && fam(tr(t.root), kfam(k))

func collection.NewAVLTree() (r)
  uses tree_nil
  ensures [empty] fresh(r) && okTree(r) && tr(r.root) == Leaf
func collection.(*AVLTree).Get(t, data) (r)
  uses tree_nil
  flag pure
  requires okTree(t) && okKey(t, data)
  ensures [absent] r == nil <==> gk(tr(t.root), krank(data)) == nil
  ensures [found] r != nil ==> r.key == gk(tr(t.root), krank(data)) && r.value == gv(tr(t.root), krank(data))
func collection.(*AVLTree).Put(t, key, value) (r)
  uses tree_nil tree_unfold tree_step alo_out alo_mono
  requires okTree(t) && okKey(t, key) && t.size < 0x7fffffffffffffff
  modifies collection.AVLTree.root, collection.AVLTree.size at t
  modifies collection.AVLNode.key, collection.AVLNode.value, collection.AVLNode.balance, collection.AVLNode.link where x :: inT(x, tr(t.root))
  let q = krank(key)
  ensures [invariant] okTree(t) && fam(tr(t.root), kfam(key))
  ensures [keys] forall p: Real {gk(tr(t.root), p)} :: gk(tr(t.root), p) == (p == q ? key : old(gk(tr(t.root), p)))
  ensures [values] forall p: Real {gv(tr(t.root), p)} :: gv(tr(t.root), p) == (p == q ? value : old(gv(tr(t.root), p)))
  ensures [size] t.size == old(t.size) + (old(gk(tr(t.root), q)) == nil ? 1 : 0)
  ensures [absent] r == nil <==> old(gk(tr(t.root), q)) == nil
  ensures [previous] r != nil ==> r.key == old(gk(tr(t.root), q)) && r.value == old(gv(tr(t.root), q))
func collection.(*AVLTree).Remove(t, key) (r)
  uses tree_nil tree_unfold tree_step alo_out alo_mono
  requires okTree(t) && okKey(t, key)
  modifies collection.AVLTree.root, collection.AVLTree.size at t
  modifies collection.AVLNode.key, collection.AVLNode.value, collection.AVLNode.balance, collection.AVLNode.link where x :: inT(x, tr(t.root))
  let q = krank(key)
  ensures [invariant] okTree(t) && fam(tr(t.root), kfam(key))
  ensures [keys] forall p: Real {gk(tr(t.root), p)} :: gk(tr(t.root), p) == (p == q ? nil : old(gk(tr(t.root), p)))
  ensures [values] forall p: Real {gv(tr(t.root), p)} :: gv(tr(t.root), p) == (p == q ? nil : old(gv(tr(t.root), p)))
  ensures [size] t.size == old(t.size) - (old(gk(tr(t.root), q)) == nil ? 0 : 1)
  ensures [absent] r == nil <==> old(gk(tr(t.root), q)) == nil
  ensures [previous] r != nil ==> r.key == old(gk(tr(t.root), q)) && r.value == old(gv(tr(t.root), q))
func collection.(*AVLTree).Size(t) (r)
  flag pure
  requires okTree(t)
  ensures r == tsz(tr(t.root))
func collection.NewSortedMap() (r)
  uses tree_nil
  ensures [empty] fresh(r) && okTree(r.tree) && tr(r.tree.root) == Leaf
func collection.(*SortedMap).Put(m, k, v) (r)
  requires m != nil && okTree(m.tree) && okKey(m.tree, k) && m.tree.size < 0x7fffffffffffffff
  modifies collection.AVLTree.root, collection.AVLTree.size at m.tree
  modifies collection.AVLNode.key, collection.AVLNode.value, collection.AVLNode.balance, collection.AVLNode.link where x :: inT(x, tr(m.tree.root))
  let q = krank(k)
  ensures [invariant] okTree(m.tree) && fam(tr(m.tree.root), kfam(k))
  ensures [keys] forall p: Real {gk(tr(m.tree.root), p)} :: gk(tr(m.tree.root), p) == (p == q ? k : old(gk(tr(m.tree.root), p)))
  ensures [values] forall p: Real {gv(tr(m.tree.root), p)} :: gv(tr(m.tree.root), p) == (p == q ? v : old(gv(tr(m.tree.root), p)))
  ensures [size] m.tree.size == old(m.tree.size) + (old(gk(tr(m.tree.root), q)) == nil ? 1 : 0)
  ensures [previous] r == (old(gk(tr(m.tree.root), q)) == nil ? nil : old(gv(tr(m.tree.root), q)))
func collection.(*SortedMap).Remove(m, k) (r)
  requires m != nil && okTree(m.tree) && okKey(m.tree, k)
  modifies collection.AVLTree.root, collection.AVLTree.size at m.tree
  modifies collection.AVLNode.key, collection.AVLNode.value, collection.AVLNode.balance, collection.AVLNode.link where x :: inT(x, tr(m.tree.root))
  let q = krank(k)
  ensures [invariant] okTree(m.tree) && fam(tr(m.tree.root), kfam(k))
  ensures [keys] forall p: Real {gk(tr(m.tree.root), p)} :: gk(tr(m.tree.root), p) == (p == q ? nil : old(gk(tr(m.tree.root), p)))
  ensures [values] forall p: Real {gv(tr(m.tree.root), p)} :: gv(tr(m.tree.root), p) == (p == q ? nil : old(gv(tr(m.tree.root), p)))
  ensures [size] m.tree.size == old(m.tree.size) - (old(gk(tr(m.tree.root), q)) == nil ? 0 : 1)
  ensures [previous] r == (old(gk(tr(m.tree.root), q)) == nil ? nil : old(gv(tr(m.tree.root), q)))
func collection.(*SortedMap).Size(m) (r)
  flag pure
  requires m != nil && okTree(m.tree)
  ensures r == tsz(tr(m.tree.root))
func collection.NewSortedSet() (r)
  uses tree_nil
  ensures [empty] fresh(r) && okTree(r.tree) && tr(r.tree.root) == Leaf
func collection.(*SortedSet).Put(m, k) (r)
  requires m != nil && okTree(m.tree) && okKey(m.tree, k) && m.tree.size < 0x7fffffffffffffff
  modifies collection.AVLTree.root, collection.AVLTree.size at m.tree
  modifies collection.AVLNode.key, collection.AVLNode.value, collection.AVLNode.balance, collection.AVLNode.link where x :: inT(x, tr(m.tree.root))
  let q = krank(k)
  ensures [invariant] okTree(m.tree) && fam(tr(m.tree.root), kfam(k))
  ensures [keys] forall p: Real {gk(tr(m.tree.root), p)} :: gk(tr(m.tree.root), p) == (p == q ? k : old(gk(tr(m.tree.root), p)))
  ensures [size] m.tree.size == old(m.tree.size) + (old(gk(tr(m.tree.root), q)) == nil ? 1 : 0)
  ensures [previous] r == (old(gk(tr(m.tree.root), q)) == nil ? nil : old(gk(tr(m.tree.root), q)))
func collection.(*SortedSet).Remove(m, k) (r)
  requires m != nil && okTree(m.tree) && okKey(m.tree, k)
  modifies collection.AVLTree.root, collection.AVLTree.size at m.tree
  modifies collection.AVLNode.key, collection.AVLNode.value, collection.AVLNode.balance, collection.AVLNode.link where x :: inT(x, tr(m.tree.root))
  let q = krank(k)
  ensures [invariant] okTree(m.tree) && fam(tr(m.tree.root), kfam(k))
  ensures [keys] forall p: Real {gk(tr(m.tree.root), p)} :: gk(tr(m.tree.root), p) == (p == q ? nil : old(gk(tr(m.tree.root), p)))
  ensures [size] m.tree.size == old(m.tree.size) - (old(gk(tr(m.tree.root), q)) == nil ? 0 : 1)
  ensures [previous] r == (old(gk(tr(m.tree.root), q)) == nil ? nil : old(gk(tr(m.tree.root), q)))
func collection.(*SortedSet).Size(m) (r)
  flag pure
  requires m != nil && okTree(m.tree)
  ensures r == tsz(tr(m.tree.root))
func collection.(*SortedMap).Get(m, k) (r)
  flag pure
  requires m != nil && okTree(m.tree) && okKey(m.tree, k)
  ensures [lookup] r == (gk(tr(m.tree.root), krank(k)) == nil ? nil : gv(tr(m.tree.root), krank(k)))
func collection.(*SortedSet).Exist(m, k) (r)
  flag pure
  requires m != nil && okTree(m.tree) && okKey(m.tree, k)
  ensures [lookup] r <==> gk(tr(m.tree.root), krank(k)) != nil
