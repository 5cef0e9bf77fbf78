use record
// the bytes of a hash table: magic, two lists of 4-byte numbers each followed by its mask,
// then the keys themselves (magic 1) or a seed and the hash of every key (magic 0)
def w32(b: Seq, p: int) int = be32(b, p)
rec t1(b: Seq) int decreases 0 := 9 + 4 * be32(b, 1)
rec t2(b: Seq) int decreases 0 := t1(b) + 8 + 4 * be32(b, t1(b))
def tlevels(b: Seq) bool = len(b) >= 5 && len(b) >= t1(b) && len(b) >= t1(b) + 4 && len(b) >= t2(b)
rec ek(b: Seq) bool decreases 0 := kok(b)
rec el(b: Seq) int decreases 0 := klen(b)
// n keys one after the other
rec kpos(c: Seq, n: int) int decreases n := n <= 0 ? 0 : kpos(c, n-1) + el(c[kpos(c,n-1):len(c)])
rec kall(c: Seq, n: int) bool decreases n := n <= 0 || (kall(c, n-1) && ek(c[kpos(c,n-1):len(c)]))
def krst(c: Seq, n: int) Seq = c[kpos(c,n):len(c)]
rec tkeys(b: Seq) Seq decreases 0 := b[t2(b)+4:len(b)]
rec thashed(b: Seq) bool decreases 0 := len(b) >= t2(b) + 8 && len(b) >= t2(b) + 8 + 4 * be32(b, t2(b)+4)
rec tkeyed(b: Seq) bool decreases 0 := len(b) >= t2(b) + 4 && len(b) >= t2(b) + 4 + be32(b, t2(b)) && kall(tkeys(b), be32(b, t2(b)))
def tok(b: Seq) bool = len(b) >= 1 && b[0] <= 1 && tlevels(b) && (b[0] == 1 ? tkeyed(b) : thashed(b))
def tlen(b: Seq) int = t2(b) + 4 + (b[0] == 1 ? kpos(tkeys(b), be32(b, t2(b))) : 4 + 4 * be32(b, t2(b)+4))
lemma el_bound(b: Seq)
  requires ek(b) && bytesS(b)
  uses klen_bound
  opaque uvn uvv vsn vsok
  hint el(b)
  ensures 0 <= el(b) <= len(b)
  trigger ek(b)
lemma kpos_bound(c: Seq, n: int)
  requires kall(c, n) && bytesS(c)
  uses el_bound
  decreases n
  opaque ek el
  hint kpos(c, n-1)
  hint kall(c, n-1)
  ensures 0 <= kpos(c, n) <= len(c)
  trigger kall(c, n)
lemma kall_mono(c: Seq, i: int, n: int)
  requires 0 <= i < n && kall(c, n)
  decreases n
  opaque ek el
  hint kall(c, n-1)
  ensures kall(c, i) && ek(krst(c, i))
  trigger kall(c, i), kall(c, n)
lemma kzero(c: Seq)
  hint kpos(c, 0)
  hint kall(c, 0)
  ensures kpos(c, 0) == 0 && kall(c, 0)
  trigger kpos(c, 0)
  trigger kall(c, 0)
lemma kstep(c: Seq, i: int)
  requires i >= 0 && kall(c, i) && bytesS(c)
  uses kpos_bound el_bound
  opaque ek el
  hint kpos(c, i+1)
  hint kall(c, i+1)
  ensures 0 <= kpos(c,i) <= len(c)
  ensures kall(c, i+1) <==> ek(krst(c,i))
  ensures ek(krst(c,i)) ==> kpos(c,i+1) == kpos(c,i) + el(krst(c,i)) && kpos(c,i+1) <= len(c)
  trigger kall(c, i)
func util.NewMPHTable(buf) (t, n, err)
  let b = seq(buf)
  uses kstep kzero kall_mono
  opaque uvn uvv vsn vsok kpos kall
  ensures [accepts] err == nil <==> tok(b)
  ensures [consumed] err == nil ==> n == tlen(b) && 0 <= n <= len(buf)
  ensures [levels] err == nil ==> fresh(t) && len(t.level0) == be32(b, 1) && t.level0Mask == be32(b, t1(b)-4) && len(t.level1) == be32(b, t1(b)) && t.level1Mask == be32(b, t2(b)-4)
  ensures [levels] err == nil ==> forall i: int {t.level0[i]} :: 0 <= i < len(t.level0) ==> t.level0[i] == be32(b, 5+4*i)
  ensures [levels] err == nil ==> forall i: int {t.level1[i]} :: 0 <= i < len(t.level1) ==> t.level1[i] == be32(b, t1(b)+4+4*i)
  ensures [mode] err == nil ==> (t.verifyKey != nil <==> b[0] == 1) && (t.verifyHash != nil <==> b[0] == 0)
  ensures [hashes] err == nil && b[0] == 0 ==> t.verifySeed == be32(b, t2(b)) && len(t.verifyHash) == be32(b, t2(b)+4)
  ensures [hashes] err == nil && b[0] == 0 ==> forall i: int {t.verifyHash[i]} :: 0 <= i < len(t.verifyHash) ==> t.verifyHash[i] == be32(b, t2(b)+8+4*i)
  ensures [keys] err == nil && b[0] == 1 ==> len(t.verifyKey) == be32(b, t2(b)) && forall j: int {t.verifyKey[j]} :: 0 <= j < len(t.verifyKey) ==> isMK(t.verifyKey[j]) && iskey(mk(t.verifyKey[j]), krst(tkeys(b), j))
  ensures [refused] err != nil ==> t == nil
  invariant for $pos: int, $i: int :: $pos == 5 + 4*$i
  invariant for $pos: int, $i: int :: $pos == t1(b) + 4 + 4*$i
  invariant for $pos: int, $i: int :: $pos == t2(b) + 8 + 4*$i
  invariant for $pos: int, $i: int :: kall(tkeys(b), $i) && $pos == t2(b) + 4 + kpos(tkeys(b), $i) && $pos <= len(b)
  invariant for $t: *util.MPHTable, $i: int :: forall j: int {$t.level0[j]} :: 0 <= j < $i ==> $t.level0[j] == be32(b, 5+4*j)
  invariant for $t: *util.MPHTable, $i: int :: forall j: int {$t.level1[j]} :: 0 <= j < $i ==> $t.level1[j] == be32(b, t1(b)+4+4*j)
  invariant for $t: *util.MPHTable, $i: int :: forall j: int {$t.verifyHash[j]} :: 0 <= j < $i ==> $t.verifyHash[j] == be32(b, t2(b)+8+4*j)
  invariant for $t: *util.MPHTable :: forall j: int {$t.level0[j]} :: 0 <= j < len($t.level0) ==> $t.level0[j] == be32(b, 5+4*j)
  invariant for $t: *util.MPHTable :: forall j: int {$t.level1[j]} :: 0 <= j < len($t.level1) ==> $t.level1[j] == be32(b, t1(b)+4+4*j)
  invariant for $t: *util.MPHTable, $i: int :: forall j: int {$t.verifyKey[j]} :: 0 <= j < $i ==> isMK($t.verifyKey[j]) && alloced(mk($t.verifyKey[j])) && alloced(mk($t.verifyKey[j]).keys)
  invariant for $t: *util.MPHTable, $i: int :: forall j: int {$t.verifyKey[j]} :: 0 <= j < $i ==> mk($t.verifyKey[j]).decoded && keysOk(mk($t.verifyKey[j]).keys)
  invariant for $t: *util.MPHTable, $i: int :: forall j: int {$t.verifyKey[j]} :: 0 <= j < $i ==> len(mk($t.verifyKey[j]).keys) == kcnt(krst(tkeys(b), j)) && len(mk($t.verifyKey[j]).buf) == klen(krst(tkeys(b), j))
  invariant for $t: *util.MPHTable, $i: int :: forall j: int, m: int {mk($t.verifyKey[j]).keys[m]} :: 0 <= j < $i && 0 <= m < kcnt(krst(tkeys(b), j)) ==> seq(mk($t.verifyKey[j]).keys[m]) == vsat(kbody(krst(tkeys(b), j)), m)
