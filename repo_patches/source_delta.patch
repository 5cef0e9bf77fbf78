From 69b76d861a00cf86407b0ea49d2c61d4b834586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:15 +0000
Subject: [PATCH 01/27] fix: RaftTime.Buf overwrote the magic byte and
 misplaced every field

---
 src/util/consensus_util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index c7ac540..e112bff 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -143,9 +143,9 @@ func NewRaftTime(term, millis, count uint32) *RaftTime {
 func (t *RaftTime) Buf() []byte {
 	buf := make([]byte, 1+12)
 	buf[0] = CONSENSUS_TIME_RAFT
-	binary.BigEndian.PutUint32(buf, t.term)
-	binary.BigEndian.PutUint32(buf[4:], t.millis)
-	binary.BigEndian.PutUint32(buf[8:], t.count)
+	binary.BigEndian.PutUint32(buf[1:], t.term)
+	binary.BigEndian.PutUint32(buf[5:], t.millis)
+	binary.BigEndian.PutUint32(buf[9:], t.count)
 	return buf
 }
 
-- 
2.43.0


From 823792d7f104c0001fa82e903a83a576a4fcbac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:15 +0000
Subject: [PATCH 02/27] fix: RaftTime.LT and LE compared later fields although
 an earlier one was greater

---
 src/util/consensus_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index e112bff..ff1e894 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -223,17 +223,17 @@ func (t *RaftTime) LT(ict IConsensusTime) (bool, error) {
 	if tmp, ok := ict.(*RaftTime); ok {
 		if t.term < tmp.term {
 			return true, nil
-		} else if t.term < tmp.term {
+		} else if t.term > tmp.term {
 			return false, nil
 		}
 		if t.millis < tmp.millis {
 			return true, nil
-		} else if t.millis < tmp.millis {
+		} else if t.millis > tmp.millis {
 			return false, nil
 		}
 		if t.count < tmp.count {
 			return true, nil
-		} else if t.count < tmp.count {
+		} else if t.count > tmp.count {
 			return false, nil
 		}
 		return false, nil
@@ -246,17 +246,17 @@ func (t *RaftTime) LE(ict IConsensusTime) (bool, error) {
 	if tmp, ok := ict.(*RaftTime); ok {
 		if t.term < tmp.term {
 			return true, nil
-		} else if t.term < tmp.term {
+		} else if t.term > tmp.term {
 			return false, nil
 		}
 		if t.millis < tmp.millis {
 			return true, nil
-		} else if t.millis < tmp.millis {
+		} else if t.millis > tmp.millis {
 			return false, nil
 		}
 		if t.count < tmp.count {
 			return true, nil
-		} else if t.count < tmp.count {
+		} else if t.count > tmp.count {
 			return false, nil
 		}
 		return true, nil
-- 
2.43.0


From 97e41f83b86f30ac5a732a11abc66e45f01078ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:15 +0000
Subject: [PATCH 03/27] fix: NewMappedConsensusID indexed an empty buffer while
 reporting it

---
 src/util/consensus_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index ff1e894..fa3ba59 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -281,7 +281,7 @@ type MappedConsensusID struct {
 
 func NewMappedConsensusID(buf []byte) (*MappedConsensusID, error) {
 	if buf == nil || len(buf) == 0 || buf[0] == 0x00 {
-		return nil, fmt.Errorf("NewConsensusID - invalid magic [%b]", buf[0])
+		return nil, fmt.Errorf("NewConsensusID - invalid magic [%b]", buf)
 	}
 
 	if (buf[0] & 0x7) != 0 {
-- 
2.43.0


From 552f5a8644d5b4ae89e0ff0a0e09b25f987dafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:59 +0000
Subject: [PATCH 04/27] fix: Compare*Slice indexed past the end of a shorter
 second slice

---
 src/collection/util.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/collection/util.go b/src/collection/util.go
index c235b01..42695bc 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -437,7 +437,7 @@ func CompareSlice(s1, s2 []IComparable) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -470,7 +470,7 @@ func CompareByteSlice(s1, s2 []byte) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -504,7 +504,7 @@ func CompareInt8Slice(s1, s2 []int8) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -538,7 +538,7 @@ func CompareInt16Slice(s1, s2 []int16) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -572,7 +572,7 @@ func CompareUint16Slice(s1, s2 []uint16) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -606,7 +606,7 @@ func CompareInt32Slice(s1, s2 []int32) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -640,7 +640,7 @@ func CompareUint32Slice(s1, s2 []uint32) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -674,7 +674,7 @@ func CompareInt64Slice(s1, s2 []int64) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -708,7 +708,7 @@ func CompareUint64Slice(s1, s2 []uint64) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -742,7 +742,7 @@ func CompareIntSlice(s1, s2 []int) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
-- 
2.43.0


From 2458ce6b2a4bc60122ca340db5ddd77d749c9b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:35 +0000
Subject: [PATCH 05/27] fix: Comparable*Slice.Compare put a wrapper of a nil
 slice before another one of a nil slice

---
 src/collection/comparable.go | 54 ++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/collection/comparable.go b/src/collection/comparable.go
index 39e2c96..796e987 100644
--- a/src/collection/comparable.go
+++ b/src/collection/comparable.go
@@ -86,15 +86,15 @@ func (s *ComparableSlice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableSlice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableSlice [%v]", reflect.TypeOf(c)))
 	}
@@ -143,15 +143,15 @@ func (s *ComparableByteSlice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableByteSlice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableByteSlice [%v]", reflect.TypeOf(c)))
 	}
@@ -200,15 +200,15 @@ func (s *ComparableInt8Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt8Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt8Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -257,15 +257,15 @@ func (s *ComparableInt16Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt16Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt16Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -314,15 +314,15 @@ func (s *ComparableUint16Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableUint16Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableUint16Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -371,15 +371,15 @@ func (s *ComparableInt32Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt32Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt32Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -428,15 +428,15 @@ func (s *ComparableUint32Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableUint32Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableUint32Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -485,15 +485,15 @@ func (s *ComparableInt64Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt64Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt64Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -543,15 +543,15 @@ func (s *ComparableUint64Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableUint64Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if IsNil(s) && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if IsNil(s) {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableUint64Slice [%v]", reflect.TypeOf(c)))
 	}
-- 
2.43.0


From b6823c516e800c34cae721933e46100184a346d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:35 +0000
Subject: [PATCH 06/27] fix: map and set iterators panicked when asked for an
 element after the last one

---
 src/collection/hash_map.go   | 4 ++--
 src/collection/hash_set.go   | 4 ++--
 src/collection/sorted_map.go | 4 ++--
 src/collection/sorted_set.go | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/collection/hash_map.go b/src/collection/hash_map.go
index 7d0fa41..760c6ea 100644
--- a/src/collection/hash_map.go
+++ b/src/collection/hash_map.go
@@ -50,7 +50,7 @@ func (m *HashMap) Size() int {
 }
 
 func (i *HashMapIterator) Next() (IHashable, IObject) {
-	node := i.iter.Next().(*HashNode)
+	node, _ := i.iter.Next().(*HashNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
@@ -63,7 +63,7 @@ func (i *HashMapIterator) HasNext() bool {
 }
 
 func (i *HashMapIterator) Peek() (IHashable, IObject) {
-	node := i.iter.Peek().(*HashNode)
+	node, _ := i.iter.Peek().(*HashNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
diff --git a/src/collection/hash_set.go b/src/collection/hash_set.go
index 46d8b34..7d77ef0 100644
--- a/src/collection/hash_set.go
+++ b/src/collection/hash_set.go
@@ -50,7 +50,7 @@ func (m *HashSet) Size() int {
 }
 
 func (i *HashSetIterator) Next() IObject {
-	node := i.iter.Next().(*HashNode)
+	node, _ := i.iter.Next().(*HashNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
@@ -63,7 +63,7 @@ func (i *HashSetIterator) HasNext() bool {
 }
 
 func (i *HashSetIterator) Peek() IObject {
-	node := i.iter.Peek().(*HashNode)
+	node, _ := i.iter.Peek().(*HashNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
diff --git a/src/collection/sorted_map.go b/src/collection/sorted_map.go
index dc10121..ff1653f 100644
--- a/src/collection/sorted_map.go
+++ b/src/collection/sorted_map.go
@@ -45,7 +45,7 @@ func (m *SortedMap) Size() int {
 }
 
 func (i *SortedMapIterator) Next() (IComparable, IObject) {
-	node := i.iter.Next().(*AVLNode)
+	node, _ := i.iter.Next().(*AVLNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
@@ -58,7 +58,7 @@ func (i *SortedMapIterator) HasNext() bool {
 }
 
 func (i *SortedMapIterator) Peek() (IComparable, IObject) {
-	node := i.iter.Peek().(*AVLNode)
+	node, _ := i.iter.Peek().(*AVLNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
diff --git a/src/collection/sorted_set.go b/src/collection/sorted_set.go
index 6b4ffd4..faf6724 100644
--- a/src/collection/sorted_set.go
+++ b/src/collection/sorted_set.go
@@ -45,7 +45,7 @@ func (m *SortedSet) Size() int {
 }
 
 func (i *SortedSetIterator) Next() IObject {
-	node := i.iter.Next().(*AVLNode)
+	node, _ := i.iter.Next().(*AVLNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
@@ -58,7 +58,7 @@ func (i *SortedSetIterator) HasNext() bool {
 }
 
 func (i *SortedSetIterator) Peek() IObject {
-	node := i.iter.Peek().(*AVLNode)
+	node, _ := i.iter.Peek().(*AVLNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
-- 
2.43.0


From c8bff993e86b2155d7f3f36047e24b1595ccb217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:35 +0000
Subject: [PATCH 07/27] fix: AVLIterator skipped the wrong entries when
 positioning on the start of a range

---
 src/collection/avl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/collection/avl.go b/src/collection/avl.go
index f5a0932..947d6fe 100644
--- a/src/collection/avl.go
+++ b/src/collection/avl.go
@@ -448,11 +448,15 @@ func (i *AVLIterator) advance() {
 
 	if i.start != nil {
 
-		for comp := i.start.Compare(i.currNode.key); comp < 0; {
+		for comp := i.start.Compare(i.currNode.key); comp > 0; {
 
 			if i.currNode.link[1] != nil {
 
 				i.currNode = i.currNode.link[1]
+				for i.currNode.link[0] != nil {
+					i.paths = append(i.paths, i.currNode)
+					i.currNode = i.currNode.link[0]
+				}
 				comp = i.start.Compare(i.currNode.key)
 
 			} else {
-- 
2.43.0


From 0d50db98844544364afdcd237ea8fb0a3f7e5459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:35 +0000
Subject: [PATCH 08/27] fix: HashableSlice.HashUint32 passed a nil type to
 Implements

---
 src/collection/hashable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collection/hashable.go b/src/collection/hashable.go
index 1570685..d15bcc6 100644
--- a/src/collection/hashable.go
+++ b/src/collection/hashable.go
@@ -102,7 +102,7 @@ func (s *HashableSlice) HashUint32(f func([]byte) uint32) uint32 {
 		if obj == nil {
 			h ^= empty_hash
 		} else {
-			if !reflect.TypeOf(obj).Implements(reflect.TypeOf((IHashable)(nil))) {
+			if !reflect.TypeOf(obj).Implements(reflect.TypeOf((*IHashable)(nil)).Elem()) {
 				panic(fmt.Sprintf("HashableSlice::HashUint32 - unexpected object type [%s]", reflect.TypeOf(obj)))
 			}
 			h ^= obj.(IHashable).HashUint32(f)
-- 
2.43.0


From 38098e0461d9ab30acce8c51eff31b2620f8d413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:35 +0000
Subject: [PATCH 09/27] fix: hashing 16, 32 and 64 bit slices resliced past
 their capacity

---
 src/collection/hashable.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collection/hashable.go b/src/collection/hashable.go
index d15bcc6..373b720 100644
--- a/src/collection/hashable.go
+++ b/src/collection/hashable.go
@@ -204,7 +204,7 @@ func (s *HashableInt16Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int16 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*2]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*2)
 	return f(b)
 }
 
@@ -253,7 +253,7 @@ func (s *HashableUint16Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint16 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*2]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*2)
 	return f(b)
 }
 
@@ -302,7 +302,7 @@ func (s *HashableInt32Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int32 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*4]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*4)
 	return f(b)
 }
 
@@ -351,7 +351,7 @@ func (s *HashableUint32Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint32 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*4]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*4)
 	return f(b)
 }
 
@@ -400,7 +400,7 @@ func (s *HashableInt64Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int64 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*8]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*8)
 	return f(b)
 }
 
@@ -449,6 +449,6 @@ func (s *HashableUint64Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint64 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*8]
+	b := unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s.slice))), len(s.slice)*8)
 	return f(b)
 }
-- 
2.43.0


From 3371cf185d58638ad7abc4ac64a4a2829e3d9f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 10/27] fix: signed RandInt*Range returned values below the
 minimum

---
 src/util/rand_util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/rand_util.go b/src/util/rand_util.go
index 34d3dc3..ac2bba0 100644
--- a/src/util/rand_util.go
+++ b/src/util/rand_util.go
@@ -155,7 +155,7 @@ func RandUint64() uint64 {
 
 func RandInt8Range(min, max int8) int8 {
 	data := RandInt8()
-	result := data%(max-min) + min
+	result := int8(uint8(data)%uint8(max-min)) + min
 	return result
 }
 
@@ -167,7 +167,7 @@ func RandUint8Range(min, max uint8) uint8 {
 
 func RandInt16Range(min, max int16) int16 {
 	data := RandInt16()
-	result := data%(max-min) + min
+	result := int16(uint16(data)%uint16(max-min)) + min
 	return result
 }
 
@@ -179,7 +179,7 @@ func RandUint16Range(min, max uint16) uint16 {
 
 func RandInt32Range(min, max int32) int32 {
 	data := RandInt32()
-	result := data%(max-min) + min
+	result := int32(uint32(data)%uint32(max-min)) + min
 	return result
 }
 
@@ -191,7 +191,7 @@ func RandUint32Range(min, max uint32) uint32 {
 
 func RandInt64Range(min, max int64) int64 {
 	data := RandInt64()
-	result := data%(max-min) + min
+	result := int64(uint64(data)%uint64(max-min)) + min
 	return result
 }
 
-- 
2.43.0


From e8de53aeb4b7dfb77e39645eb11fea6b270a9e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 11/27] fix: DecodeVarint64 and DecodeUvarint64 treated the
 decoded value as a length

---
 src/util/key_util.go    | 3 +++
 src/util/misc_util.go   | 4 ----
 src/util/scheme_util.go | 3 +++
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 93a3ae0..354f386 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -227,6 +227,9 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 		return 0, fmt.Errorf("MappedKey::Decode - subKey size error [%v]", err)
 	}
 	pos += length
+	if subKeySize > uint64(len(k.buf)-pos) {
+		return 0, fmt.Errorf("MappedKey::Decode - subKey size [%d] bigger than remaining buf size [%d]", subKeySize, len(k.buf)-pos)
+	}
 	k.keys = make([][]byte, subKeySize)
 	for idx, _ := range k.keys {
 		k.keys[idx], length, err = DecodeVarchar(k.buf[pos:])
diff --git a/src/util/misc_util.go b/src/util/misc_util.go
index a07b0c6..10e21e3 100644
--- a/src/util/misc_util.go
+++ b/src/util/misc_util.go
@@ -51,8 +51,6 @@ func DecodeVarint64(buf []byte) (int64, int, error) {
 		return 0, 0, fmt.Errorf("DecodeVarint64 - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return 0, 0, fmt.Errorf("DecodeVarint64 - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
-		return 0, 0, fmt.Errorf("DecodeVarint64 - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
 	return bufLength, bufN, nil
@@ -85,8 +83,6 @@ func DecodeUvarint64(buf []byte) (uint64, int, error) {
 		return 0, 0, fmt.Errorf("DecodeUvarint64 - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return 0, 0, fmt.Errorf("DecodeUvarint64 - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
-		return 0, 0, fmt.Errorf("DecodeUvarint64 - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
 	return bufLength, bufN, nil
diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index bb0c842..c41ddd2 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -182,6 +182,9 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 			return 0, fmt.Errorf("MappedScheme::Decode - bucket size error [%v]", err)
 		}
 		pos += length
+		if bucketSize > uint64(len(s.buf)-pos) {
+			return 0, fmt.Errorf("MappedScheme::Decode - bucket size [%d] bigger than remaining buf size [%d]", bucketSize, len(s.buf)-pos)
+		}
 		s.buckets = make([][]byte, bucketSize)
 		for idx, _ := range s.buckets {
 			s.buckets[idx], length, err = DecodeVarchar(s.buf[pos:])
-- 
2.43.0


From e8d709a75b23d7b61e21148471d95e983d0518c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 12/27] fix: DecodeVarchar overflowed on huge lengths

---
 src/util/misc_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/misc_util.go b/src/util/misc_util.go
index 10e21e3..ec9e940 100644
--- a/src/util/misc_util.go
+++ b/src/util/misc_util.go
@@ -118,7 +118,7 @@ func DecodeVarchar(buf []byte) ([]byte, int, error) {
 		return nil, 0, fmt.Errorf("DecodeVarchar - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return nil, 0, fmt.Errorf("DecodeVarchar - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
+	} else if bufLength > uint64(len(buf)-bufN) {
 		return nil, 0, fmt.Errorf("DecodeVarchar - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
-- 
2.43.0


From 5bb733c3a44420c216be5f740aaf08b87a798e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 13/27] fix: comparing a key with a shorter one asked for a sub
 key that does not exist

---
 src/util/key_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 354f386..ebedd8a 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -299,7 +299,7 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 
 	t := c.(IKey)
 	for idx, subKey := range k.Key() {
-		if len(t.Key()) < idx {
+		if len(t.Key()) <= idx {
 			return 1
 		}
 		r := collection.CompareByteSlice(subKey, t.SubKeyAt(idx))
@@ -505,7 +505,7 @@ func (k *Key) Compare(c collection.IComparable) int {
 
 	t := c.(IKey)
 	for idx, subKey := range k.Key() {
-		if len(t.Key()) < idx {
+		if len(t.Key()) <= idx {
 			return 1
 		}
 		r := collection.CompareByteSlice(subKey, t.SubKeyAt(idx))
-- 
2.43.0


From 41e7105719c86f1e4640090fb052ab0f9ea5ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 14/27] fix: MappedKey kept the bytes following the key as part
 of its own buf

---
 src/util/key_util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index ebedd8a..3c199ad 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -239,6 +239,8 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 		pos += length
 	}
 
+	// set buf length to be the exact length
+	k.buf = k.buf[:pos]
 	k.decoded = true
 
 	return pos, nil
-- 
2.43.0


From ad1e58bdfc51283ab93957b02b485dbd0da24eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 15/27] fix: MappedKey.IsDecoded reported the opposite

---
 src/util/key_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 3c199ad..057c99e 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -213,7 +213,7 @@ func (k *MappedKey) Encode(IContext) error {
 }
 
 func (k *MappedKey) IsDecoded() bool {
-	return k.keys == nil
+	return k.decoded
 }
 
 func (k *MappedKey) Decode(IContext) (int, error) {
-- 
2.43.0


From 4cdf338b83cbdd343f9ed3e10e646c759953239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 16/27] fix: Key.Add left the previously encoded bytes marked
 as current

---
 src/util/key_util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 057c99e..e2d23bf 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -554,6 +554,7 @@ func (k *Key) Add(subKey []byte) *Key {
 	}
 
 	k.keys = append(k.keys, subKey)
+	k.encoded = false
 	k.estBufSize += 1 + len(subKey)
 	return k
 }
-- 
2.43.0


From 71ba7e8e7ba78bdd0269485ccac22ce4ed51e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 17/27] fix: Scheme encoding never announced its parts and
 decoding ignored what was announced

---
 src/util/scheme_util.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index c41ddd2..e508d86 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -153,12 +153,16 @@ func (s *MappedScheme) IsDecoded() bool {
 
 func (s *MappedScheme) Decode(IContext) (int, error) {
 
+	if len(s.buf) < 1 {
+		return 0, fmt.Errorf("MappedScheme::Decode - empty buf")
+	}
+
 	pos := 1
 	var length int
 	var err error
 
 	// decode domain
-	if s.buf[0]|(0x01<<7) != 0 {
+	if s.buf[0]&(0x01<<7) != 0 {
 		s.domain, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - domain error [%v]", err)
@@ -167,7 +171,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	}
 
 	// decode tablet
-	if s.buf[0]|(0x01<<6) != 0 {
+	if s.buf[0]&(0x01<<6) != 0 {
 		s.tablet, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - tablet error [%v]", err)
@@ -176,7 +180,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	}
 
 	// decode buckets
-	if s.buf[0]|(0x01<<5) != 0 {
+	if s.buf[0]&(0x01<<5) != 0 {
 		bucketSize, length, err := DecodeUvarint64(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - bucket size error [%v]", err)
@@ -195,6 +199,8 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 		}
 	}
 
+	// set buf length to be the exact length
+	s.buf = s.buf[:pos]
 	s.decoded = true
 
 	return pos, nil
@@ -329,7 +335,7 @@ func (s *Scheme) Encode(IContext) error {
 	buf := []byte{byte(0x00)}
 
 	if s.domain != nil {
-		buf[0] |= 0x00 << 7
+		buf[0] |= 0x01 << 7
 		buf = append(buf, EncodeVarchar(s.domain)...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
@@ -339,7 +345,7 @@ func (s *Scheme) Encode(IContext) error {
 	}
 
 	if s.tablet != nil {
-		buf[0] |= 0x00 << 6
+		buf[0] |= 0x01 << 6
 		buf = append(buf, EncodeVarchar(s.tablet)...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
@@ -349,7 +355,7 @@ func (s *Scheme) Encode(IContext) error {
 	}
 
 	if s.buckets != nil {
-		buf[0] |= 0x00 << 5
+		buf[0] |= 0x01 << 5
 		buf = append(buf, EncodeUvarint64(uint64(len(s.buckets)))...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
-- 
2.43.0


From 17cf1e1041dccab8186e81c8e1c69c1a7c44118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 18/27] fix: a Primitive without data encoded to no bytes at
 all

---
 src/util/value_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 5a44774..16882bc 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -691,7 +691,7 @@ func (d *Primitive) Encode(IContext) error {
 
 	if d.data == nil {
 		d.magic = 0x00
-		d.buf = nil
+		d.buf = []byte{0x00}
 		d.encoded = true
 		return nil
 	}
-- 
2.43.0


From d45e82d549597e684eb1fe1ff413710ff49e6048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 19/27] fix: RecordList.Encode did not refresh the estimated
 buf size as ValueArray.Encode does

---
 src/util/value_util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 16882bc..11f8447 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -1144,6 +1144,7 @@ func (d *RecordList) Encode(IContext) error {
 
 		d.buf = buf
 		d.encoded = true
+		d.estBufSize = len(d.buf)
 		return nil
 
 	} else if content_len < 256 {
@@ -1153,6 +1154,7 @@ func (d *RecordList) Encode(IContext) error {
 		buf = append(buf, content_buf...)
 		d.buf = buf
 		d.encoded = true
+		d.estBufSize = len(d.buf)
 		return nil
 
 	} else if content_len < 65536 {
@@ -1162,6 +1164,7 @@ func (d *RecordList) Encode(IContext) error {
 		buf = append(buf, content_buf...)
 		d.buf = buf
 		d.encoded = true
+		d.estBufSize = len(d.buf)
 		return nil
 
 	} else {
-- 
2.43.0


From b855d363481ba40789104e643503519885c99e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 20/27] fix: an element that failed to decode was remembered as
 a nil value and dereferenced later

---
 src/util/value_util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 11f8447..3b32c12 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -280,17 +280,17 @@ func (d *StandardMappedValue) ValueAt(idx uint16) (IValue, error) {
 		return d.data_array[idx], nil
 	}
 
-	var err error
 	pos := 0
 	for i := uint16(0); i <= idx; i++ {
 		if d.data_array[i] == nil {
 			if len(d.content) < pos {
 				return nil, fmt.Errorf("StandardMappedValue:ValueAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
 			}
-			d.data_array[i], _, err = NewStandardMappedValue(d.content[pos:])
+			element, _, err := NewStandardMappedValue(d.content[pos:])
 			if err != nil {
 				return nil, err
 			}
+			d.data_array[i] = element
 		}
 		pos += len(d.data_array[i].Buf())
 		//pos += length
@@ -317,17 +317,17 @@ func (d *StandardMappedValue) RecordAt(idx uint16) (IRecord, error) {
 		return d.record_list[idx], nil
 	}
 
-	var err error
 	pos := 0
 	for i := uint16(0); i <= idx; i++ {
 		if d.record_list[i] == nil {
 			if len(d.content) < pos {
 				return nil, fmt.Errorf("StandardMappedValue:RecordAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
 			}
-			d.record_list[i], _, err = NewMappedRecord(d.content[pos:])
+			record, _, err := NewMappedRecord(d.content[pos:])
 			if err != nil {
 				return nil, err
 			}
+			d.record_list[i] = record
 		}
 		pos += len(d.record_list[i].Buf())
 	}
-- 
2.43.0


From 1ce5773c3fdea6c89b436a0dfe40bbeab3f0f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 21/27] fix: MappedRecord.Decode dereferenced a key, value or
 scheme that the record does not have

---
 src/util/record_util.go | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index d3c2ead..662c0d7 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -167,14 +167,13 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	hasKey := (r.buf[0] >> 6) & 0x01
 	if hasKey != 0 {
 		key, length, err = NewMappedKey(r.buf[pos:])
-	}
-	if err != nil {
-		return 0, fmt.Errorf("MappedRecord::Decode - key error [%v]", err)
-	} else if len(key.Buf()) > MAX_KEY_LENGTH {
-		return 0, fmt.Errorf("MappedRecord::Decode - key size %d larger than %d", len(key.Buf()), MAX_KEY_LENGTH)
-	} else {
+		if err != nil {
+			return 0, fmt.Errorf("MappedRecord::Decode - key error [%v]", err)
+		} else if length > MAX_KEY_LENGTH {
+			return 0, fmt.Errorf("MappedRecord::Decode - key size %d larger than %d", length, MAX_KEY_LENGTH)
+		}
 		r.key = key
-		pos += len(r.key.Buf())
+		pos += length
 	}
 
 	// value
@@ -184,14 +183,13 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	hasValue := (r.buf[0] >> 5) & 0x01
 	if hasValue != 0 {
 		value, length, err = NewStandardMappedValue(r.buf[pos:])
-	}
-	if err != nil {
-		return 0, fmt.Errorf("MappedRecord::Decode - value error [%v]", err)
-	} else if len(value.Buf()) > MAX_VALUE_LENGTH {
-		return 0, fmt.Errorf("MappedRecord::Decode - value size %d larger than %d", len(value.Buf()), MAX_VALUE_LENGTH)
-	} else {
+		if err != nil {
+			return 0, fmt.Errorf("MappedRecord::Decode - value error [%v]", err)
+		} else if length > MAX_VALUE_LENGTH {
+			return 0, fmt.Errorf("MappedRecord::Decode - value size %d larger than %d", length, MAX_VALUE_LENGTH)
+		}
 		r.value = value
-		pos += len(r.value.Buf())
+		pos += length
 	}
 
 	// scheme
@@ -201,14 +199,13 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	hasScheme := (r.buf[0] >> 4) & 0x01
 	if hasScheme != 0 {
 		scheme, length, err = NewStandardMappedValue(r.buf[pos:])
-	}
-	if err != nil {
-		return 0, fmt.Errorf("MappedRecord::Decode - scheme error [%v]", err)
-	} else if len(scheme.Buf()) > MAX_SCHEME_LENGTH {
-		return 0, fmt.Errorf("MappedRecord::Decode - scheme size %d larger than %d", len(scheme.Buf()), MAX_SCHEME_LENGTH)
-	} else {
+		if err != nil {
+			return 0, fmt.Errorf("MappedRecord::Decode - scheme error [%v]", err)
+		} else if length > MAX_SCHEME_LENGTH {
+			return 0, fmt.Errorf("MappedRecord::Decode - scheme size %d larger than %d", length, MAX_SCHEME_LENGTH)
+		}
 		r.scheme = scheme
-		pos += len(r.scheme.Buf())
+		pos += length
 	}
 
 	// timestamp bit
-- 
2.43.0


From 6a47c6fd708cc6788ed9e78f84ab450a024ace98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 22/27] fix: MappedRecord.CopyConstruct dereferenced absent
 parts

---
 src/util/record_util.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index 662c0d7..4f4f602 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -263,24 +263,29 @@ func (r *MappedRecord) Copy() IEncodable {
 func (r *MappedRecord) CopyConstruct() (IEncodable, error) {
 
 	result := NewRecord()
-	var err error
 
-	key, err := r.Key().CopyConstruct()
-	result.key = key.(IKey)
-	if err != nil {
-		return nil, fmt.Errorf("MappedRecord::CopyConstruct - key error [%v]", err)
+	if r.Key() != nil {
+		key, err := r.Key().CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("MappedRecord::CopyConstruct - key error [%v]", err)
+		}
+		result.key = key.(IKey)
 	}
 
-	value, err := r.Value().CopyConstruct()
-	result.value = value.(IValue)
-	if err != nil {
-		return nil, fmt.Errorf("MappedRecord::CopyConstruct - value error [%v]", err)
+	if r.Value() != nil {
+		value, err := r.Value().CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("MappedRecord::CopyConstruct - value error [%v]", err)
+		}
+		result.value = value.(IValue)
 	}
 
-	scheme, err := r.Scheme().CopyConstruct()
-	result.scheme = scheme.(IValue)
-	if err != nil {
-		return nil, fmt.Errorf("MappedRecord::CopyConstruct - scheme error [%v]", err)
+	if r.Scheme() != nil {
+		scheme, err := r.Scheme().CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("MappedRecord::CopyConstruct - scheme error [%v]", err)
+		}
+		result.scheme = scheme.(IValue)
 	}
 
 	result.timestamp = r.Timestamp()                       // timestamp is immutable
-- 
2.43.0


From 70b88fd9f6f6fb7890328f69e178f203f3f19cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 23/27] fix: Record.Encode accepted parts larger than
 MappedRecord.Decode accepts

---
 src/util/record_util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index 4f4f602..fed1655 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -418,6 +418,8 @@ func (r *Record) Encode(IContext) error {
 		err := r.key.Encode(nil)
 		if err != nil {
 			return fmt.Errorf("Record::Encode - key error [%v]", err)
+		} else if len(r.key.Buf()) > MAX_KEY_LENGTH {
+			return fmt.Errorf("Record::Encode - key size %d larger than %d", len(r.key.Buf()), MAX_KEY_LENGTH)
 		}
 
 		buf[0] |= byte(0x01) << 6
@@ -430,6 +432,8 @@ func (r *Record) Encode(IContext) error {
 		err := r.value.Encode(nil)
 		if err != nil {
 			return fmt.Errorf("Record::Encode - value error [%v]", err)
+		} else if len(r.value.Buf()) > MAX_VALUE_LENGTH {
+			return fmt.Errorf("Record::Encode - value size %d larger than %d", len(r.value.Buf()), MAX_VALUE_LENGTH)
 		}
 
 		buf[0] |= byte(0x01) << 5
@@ -442,6 +446,8 @@ func (r *Record) Encode(IContext) error {
 		err := r.scheme.Encode(nil)
 		if err != nil {
 			return fmt.Errorf("Record::Encode - scheme error [%v]", err)
+		} else if len(r.scheme.Buf()) > MAX_SCHEME_LENGTH {
+			return fmt.Errorf("Record::Encode - scheme size %d larger than %d", len(r.scheme.Buf()), MAX_SCHEME_LENGTH)
 		}
 
 		buf[0] |= byte(0x01) << 4
-- 
2.43.0


From c35aa33de0039f154e9d36314492f3cc74767b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 24/27] fix: NewMPHTable allocated whatever number of keys the
 buffer announced

---
 src/util/mph_util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/mph_util.go b/src/util/mph_util.go
index bc53b34..cf2450d 100644
--- a/src/util/mph_util.go
+++ b/src/util/mph_util.go
@@ -132,6 +132,9 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 		verifyKeySize := binary.BigEndian.Uint32(buf[pos:])
 		pos += 4
 
+		if int(verifyKeySize) > len(buf)-pos {
+			return nil, pos, fmt.Errorf("NewMPHTable - missing verify key data %d", verifyKeySize)
+		}
 		t.verifyKey = make([]IKey, verifyKeySize)
 
 		// iterate each key
-- 
2.43.0


From 47a7fd90d9a3be51adfbd1c315fb9b781f979f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 25/27] fix: MPHTable.Lookup indexed past the end of an empty
 or damaged table

---
 src/util/mph_util.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/util/mph_util.go b/src/util/mph_util.go
index cf2450d..0df7e03 100644
--- a/src/util/mph_util.go
+++ b/src/util/mph_util.go
@@ -357,9 +357,18 @@ func nextPow2(n int) int {
 // Lookup searches for s in t and returns its index and whether it was found.
 func (t *MPHTable) Lookup(s IKey) (n uint32, ok bool) {
 	i0 := int(s.HashUint32(collection.MurmurSeed(0).Hash)) & t.level0Mask
+	if i0 >= len(t.level0) {
+		return 0, false
+	}
 	seed := t.level0[i0]
 	i1 := int(s.HashUint32(collection.MurmurSeed(seed).Hash)) & t.level1Mask
+	if i1 >= len(t.level1) {
+		return 0, false
+	}
 	n = t.level1[i1]
+	if int(n) >= len(t.verifyKey) && int(n) >= len(t.verifyHash) {
+		return n, false
+	}
 	if t.verifyKey != nil {
 		return n, s.Equal(t.verifyKey[int(n)])
 	} else {
-- 
2.43.0


From 0fa33061607d82443cdc28aeace6ac21575057b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 26/27] fix: key files that are too short caused a panic
 instead of an error

---
 src/util/lc_util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 0b816ae..f066e93 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -233,6 +233,10 @@ func lc_load_key_data(filepath string) ([]byte, error) {
 		return nil, err
 	}
 
+	if n < 4 {
+		return nil, fmt.Errorf("[%s] missing CRC", filepath)
+	}
+
 	data := output[:n-4]
 	compute_crc := make([]byte, 4)
 	binary.BigEndian.PutUint32(compute_crc, crc32.ChecksumIEEE(data))
@@ -271,6 +275,10 @@ func lc_load_priv_key(cls int, id string, secret []byte) (*ecdsa.PrivateKey, err
 		return nil, err
 	}
 
+	if len(data) < 12 {
+		return nil, fmt.Errorf("[%s] missing nonce", filepath)
+	}
+
 	key := []byte(secret)
 	nonce := data[:12]
 	ciphertext := data[12:]
-- 
2.43.0


From 6e1a3ef639f140c9430cbb034de413779dc0fe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:16 +0000
Subject: [PATCH 27/27] fix: a copied decoded key has its own bytes
 (encodable.go: Copy copies the mapped byte array)

---
 src/util/key_util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index e2d23bf..3399de3 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -247,7 +247,10 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 }
 
 func (k *MappedKey) Copy() IEncodable {
-	result, _, err := NewMappedKey(k.buf)
+	// make a deep copy of the buf
+	buf := make([]byte, len(k.buf))
+	copy(buf, k.buf)
+	result, _, err := NewMappedKey(buf)
 	if err != nil {
 		panic(fmt.Errorf("MappedKey::Copy - unexpected failure %s", err))
 	}
-- 
2.43.0

