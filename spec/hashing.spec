use lib
// hash functions handed in (deterministic functions of the bytes), and exclusive or on 32 bits
smt {
(declare-fun callF (Int QSeq) Int)
(declare-fun bit_xor32 (Int Int) Int)
(assert (forall ((a Int) (b Int)) (! (= (bit_xor32 a b) (bit_xor32 b a)) :pattern ((bit_xor32 a b)))))
(assert (forall ((a Int)) (! (=> (and (<= 0 a) (< a 4294967296)) (= (bit_xor32 0 a) a)) :pattern ((bit_xor32 0 a)))))
}
