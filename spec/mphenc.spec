use mph
// what is at the head of a buffer does not depend on what follows it
lemma table_form(b: Seq, n0: int, n1: int, nh: int)
  requires bytesS(b) && n0 >= 0 && n1 >= 0 && nh >= 0 && len(b) == 25 + 4*n0 + 4*n1 + 4*nh && b[0] == 0
  requires be32(b, 1) == n0 && be32(b, 9+4*n0) == n1 && be32(b, 21+4*n0+4*n1) == nh
  hint t1(b)
  hint t2(b)
  hint thashed(b)
  ensures t1(b) == 9+4*n0 && t2(b) == 17+4*n0+4*n1
  ensures tok(b) && tlen(b) == len(b)
lemma table_prefix(b: Seq, e: Seq)
  requires bytesS(e) && len(b) <= len(e) && b == e[0:len(b)] && tok(b) && b[0] == 0 && tlen(b) == len(b)
  hint t1(b)
  hint t2(b)
  hint t1(e)
  hint t2(e)
  hint thashed(b)
  hint thashed(e)
  ensures e[0] == 0
  ensures be32(e, 1) == be32(b, 1) && t1(e) == t1(b)
  ensures be32(e, t1(b)) == be32(b, t1(b)) && t2(e) == t2(b)
  ensures be32(e, t2(b)) == be32(b, t2(b)) && be32(e, t2(b)+4) == be32(b, t2(b)+4)
  ensures tok(e) && tlen(e) == len(b)
lemma table_words(b: Seq, e: Seq, p: int)
  requires len(b) <= len(e) && b == e[0:len(b)] && 0 <= p && p + 4 <= len(b)
  ensures be32(e, p) == be32(b, p)
func util.(*MPHTable).Encode(t) (r, err)
  requires t != nil && t.verifyKey == nil && alloced(t.level0) && alloced(t.level1) && alloced(t.verifyHash)
  requires len(t.level0) <= 4294967295 && len(t.level1) <= 4294967295 && len(t.verifyHash) <= 4294967295
  requires 0 <= t.level0Mask <= 4294967295 && 0 <= t.level1Mask <= 4294967295
  let n0 = len(t.level0)
  let n1 = len(t.level1)
  let nh = len(t.verifyHash)
  ensures err == nil
  ensures [length] len(r) == 25 + 4*n0 + 4*n1 + 4*nh && r[0] == 0
  ensures [counts] be32(seq(r), 1) == n0 && be32(seq(r), 9+4*n0) == n1 && be32(seq(r), 21+4*n0+4*n1) == nh
  ensures [masks] be32(seq(r), 5+4*n0) == t.level0Mask
  ensures [masks] be32(seq(r), 13+4*n0+4*n1) == t.level1Mask
  ensures [seed] be32(seq(r), 17+4*n0+4*n1) == t.verifySeed
  ensures [level0] forall i: int {t.level0[i]} :: 0 <= i < n0 ==> be32(seq(r), 5+4*i) == t.level0[i]
  ensures [level1] forall i: int {t.level1[i]} :: 0 <= i < n1 ==> be32(seq(r), 13+4*n0+4*i) == t.level1[i]
  ensures [hashes] forall i: int {t.verifyHash[i]} :: 0 <= i < nh ==> be32(seq(r), 25+4*n0+4*n1+4*i) == t.verifyHash[i]
  invariant for $pos: int, $i: int :: $pos == 5 + 4*$i
  invariant for $pos: int, $i: int :: $pos == 13 + 4*n0 + 4*$i
  invariant for $buf: []byte :: fresh($buf) && len($buf) == 17 + 4*n0 + 4*n1 && $buf[0] == 0
  invariant for $buf: []byte :: fresh($buf) && len($buf) == 8 + 4*nh
  invariant for $buf: []byte :: be32(seq($buf), 1) == n0
  invariant for $buf: []byte :: be32(seq($buf), 5+4*n0) == t.level0Mask && be32(seq($buf), 9+4*n0) == n1
  invariant for $buf: []byte :: be32(seq($buf), 13+4*n0+4*n1) == t.level1Mask
  invariant for $buf: []byte :: be32(seq($buf), 0) == t.verifySeed && be32(seq($buf), 4) == nh
  invariant for $buf: []byte, $i: int :: forall j: int {t.level0[j]} :: 0 <= j < $i ==> be32(seq($buf), 5+4*j) == t.level0[j]
  invariant for $buf: []byte, $i: int :: forall j: int {t.level1[j]} :: 0 <= j < $i ==> be32(seq($buf), 13+4*n0+4*j) == t.level1[j]
  invariant for $buf: []byte, $i: int :: forall j: int {t.verifyHash[j]} :: 0 <= j < $i ==> be32(seq($buf), 8+4*j) == t.verifyHash[j]
  invariant for $buf: []byte :: forall j: int {t.level0[j]} :: 0 <= j < n0 ==> be32(seq($buf), 5+4*j) == t.level0[j]
  invariant for $buf: []byte :: forall j: int {t.level1[j]} :: 0 <= j < n1 ==> be32(seq($buf), 13+4*n0+4*j) == t.level1[j]
