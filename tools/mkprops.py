import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
A="src/collection/avl.go"
p("C01","Sorted map and set behave as a mathematical map for every history",
 "After any sequence of put, get and remove calls, the sorted tree, the sorted map and the sorted set answer exactly like a mathematical map from keys (up to key equality) to the last value put: get returns the stored key and value or nothing, put and remove return the previous entry or nothing, and every other key is left untouched. The reported size always equals the number of distinct keys present. Removing from or reading an empty container is harmless.",
 ["histories","inputs"],"all finite sequences of put/get/remove over all keys and values of one totally ordered key type",
 "TestAVL performs a single random run and only looks at printed output; the rotation and heir-replacement cases for arbitrary tree shapes are sampled, never covered.",
 [A,"src/collection/sorted_map.go","src/collection/sorted_set.go"],
 [("recursive insert/remove/lookup","avl.go: putR, removeR, getR"),("wrappers","sorted_map.go, sorted_set.go, AVLTree.Put/Get/Remove")],
 ["AVLTree.Get/Put/Remove/Size","SortedMap.*","SortedSet.*"])
p("C02","The sorted tree stays height balanced",
 "After every insertion and every removal, the two subtrees of every node of the sorted tree differ in height by at most one, and the balance factor recorded in each node is exactly that difference. Hence lookups stay logarithmic for every insertion order.",
 ["histories","inputs"],"all finite sequences of insertions and removals starting from an empty tree",
 "No test inspects balance factors or heights; a wrong balance update still returns right answers until a later rotation dereferences a missing child.",
 [A],[("rebalancing","avl.go: putBalance, removeBalance, adjustBalance, single, double")],["shape of the tree reachable from AVLTree"])
p("C03","Sorted iteration yields every entry exactly once in ascending order",
 "A full iteration over a sorted container yields every stored entry exactly once in strictly ascending key order and then ends. Asking whether there is a next element, or peeking at it, any number of times never consumes or changes anything, peek shows what next will return, and an exhausted iterator keeps reporting that it has nothing (and yields nothing) without failing.",
 ["inputs","histories"],"all trees, all interleavings of has-next, peek and next calls on an unmodified container",
 "Existing tests walk one random tree and print it; nothing compares the walk with the contents nor calls peek/has-next repeatedly or past the end.",
 [A,"src/collection/sorted_map.go","src/collection/sorted_set.go"],[("iterator","avl.go: NewAVLIterator, AVLIterator.advance/Next/Peek/HasNext")],["AVLIterator","SortedMapIterator","SortedSetIterator"])
p("C04","Range iteration yields exactly the keys in the half-open range",
 "Iterating a sorted container over a range yields, in ascending order and exactly once, precisely the stored entries whose key is at least the start (if one is given) and strictly below the end (if one is given). A bound may be absent on either side and bounds need not be present as keys.",
 ["inputs"],"all trees, all start and end keys (absent, present, between keys, outside the stored span)",
 "Range iteration is exercised by one printed example; the skip-to-start and stop-at-end logic depends on tree shape and on where the bound falls.",
 [A,"src/collection/sorted_map.go","src/collection/sorted_set.go"],[("start skip and end stop","avl.go: AVLIterator.advance, RangeIterator")],["RangeIterator of tree, map and set"])
p("C05","Hash map and set behave as a mathematical map across resizes",
 "After any sequence of put, get and remove calls, the hash table, hash map and hash set answer exactly like a mathematical map from keys (up to key equality) to the last value put: get finds exactly the stored entries, put and remove return the previous entry or nothing, and growing or shrinking the table never loses, duplicates or changes an entry. The reported size always equals the number of distinct keys present. Any requested initial capacity, load factor and multiplier gives a working container.",
 ["histories","inputs","configurations"],"all finite sequences of operations, all hash seeds, capacities, load factors and multipliers",
 "TestHash samples random keys with default parameters; collision chains, head/middle removals and resize boundaries are hit by chance only.",
 ["src/collection/hash.go","src/collection/hash_map.go","src/collection/hash_set.go"],
 [("bucket chains","hash.go: Get, Put, Remove"),("resize","hash.go: resize"),("wrappers","hash_map.go, hash_set.go")],["Hash.*","HashMap.*","HashSet.*"])
p("C06","Hash iteration yields every entry exactly once",
 "Iterating a hash container yields every stored entry exactly once and then ends. Asking whether there is a next element, or peeking at it, never consumes anything, peek shows what next will return, and an exhausted iterator keeps yielding nothing without failing.",
 ["inputs","histories"],"all bucket layouts, all interleavings of has-next, peek and next on an unmodified container",
 "No existing test iterates a hash container.",
 ["src/collection/hash.go","src/collection/hash_map.go","src/collection/hash_set.go"],[("iterator","hash.go: HashIterator.advance/Next/Peek/HasNext")],["HashIterator","HashMapIterator","HashSetIterator"])
p("C07","Slice equality and comparison are a total lexicographic order",
 "For every element type, slice equality is true exactly when both slices have the same length and the same elements (a nil and an empty slice are distinguished consistently), and slice comparison returns a negative, zero or positive result exactly following lexicographic order where a proper prefix sorts first. Comparison therefore never fails on any pair of slices, is antisymmetric and transitive, and the comparable wrappers agree with it.",
 ["inputs"],"all pairs and triples of slices of every supported element type, of all lengths including nil and empty",
 "No test compares slices of different lengths; the nine near-identical variants are not tested at all.",
 ["src/collection/util.go","src/collection/comparable.go"],[("comparison functions","util.go: Compare*Slice, Equal*Slice"),("wrappers","comparable.go: Comparable*Slice.Equal/Compare")],["Compare*Slice","Equal*Slice","Comparable*Slice.Compare/Equal"])
p("C08","Key comparison, equality and hash agree across key representations",
 "Whatever mix of representations two keys have (empty, decoded from bytes, or constructed), equality is true exactly when their sub-key sequences are the same, comparison is the lexicographic order on sub-key sequences with a shorter prefix first, and comparison yields zero exactly when the keys are equal. Equal keys have equal hash values under every hash function, and none of these operations fails on any pair of keys.",
 ["inputs"],"all pairs of keys over all three representations and all sub-key sequences",
 "TestKey only compares a few hand-made keys of one representation.",
 ["src/util/key_util.go"],[("key relations","key_util.go: Equal, Compare, HashUint32 of EmptyKey, MappedKey, Key")],["IKey.Equal/Compare/HashUint32"])
p("C09","Hash wrappers are consistent and the built-in hash is Murmur3-32",
 "The built-in seeded hash of any byte string is the reference 32-bit Murmur3 value for that seed. For every hashable slice wrapper, equal wrappers have equal hash values under every hash function, the hash is the hash function applied to the little-endian bytes of the elements (element-wise combination for slices of hashables), and computing it never fails for any slice.",
 ["inputs"],"all seeds, all byte strings of every length and tail size, all slices of every element type",
 "TestMurmur checks a handful of vectors; hash wrappers of multi-byte elements are not tested.",
 ["src/collection/hash.go","src/collection/hashable.go"],[("Murmur3","hash.go: MurmurSeed.Hash"),("wrappers","hashable.go: Hashable*Slice.Equal/HashUint32")],["MurmurSeed.Hash","Hashable*Slice.HashUint32"])
p("C10","Variable-length integers and byte strings survive encoding",
 "Encoding any signed or unsigned 64-bit integer, or any byte string, and decoding the result (even when followed by arbitrary further bytes) gives back the same value and consumes exactly the encoded bytes. Distinct values have distinct encodings and an empty buffer decodes to zero or the empty string while consuming nothing.",
 ["inputs"],"all 64-bit integers, all byte strings, all trailing bytes",
 "No test covers the integer codecs; byte strings are only exercised indirectly with short lengths.",
 ["src/util/misc_util.go"],[("varint/varchar codec","misc_util.go: Encode/DecodeVarint64, Encode/DecodeUvarint64, Encode/DecodeVarchar")],["Encode*/Decode*"])
p("C11","Keys survive encoding and decoding",
 "Encoding any key within the size limit and decoding the resulting bytes, even when followed by arbitrary further bytes, yields a key with exactly the same sub-keys, consumes exactly the encoded bytes, and the decoded key's own bytes are exactly the encoded ones. Keys with different sub-key sequences never share an encoding.",
 ["inputs"],"all sub-key sequences, all trailing bytes",
 "TestSerializeKey/TestKey try a few random keys with no trailing data.",
 ["src/util/key_util.go","src/util/misc_util.go"],[("key codec","key_util.go: Key.Encode, MappedKey.Decode, NewMappedKey")],["Key.Encode/Buf","NewMappedKey"])
p("C12","Values survive encoding and decoding",
 "Encoding any primitive value, value array or record list within the size limits and decoding the resulting bytes, even when followed by further bytes, yields a value of the same kind with the same content and the same number of elements in the same order (of a list of records: the bytes of the records, one after the other; what a single record's bytes say is C13), and consumes exactly the encoded bytes. An empty container is encoded as the nil value. Reading elements by index gives the same element in whatever order the indices are visited, and an index past the end is reported as an error.",
 ["inputs","histories"],"all (nested) values, all sizes around the one- and two-byte length boundaries, all element access orders",
 "TestValueRandom fails to be meaningful at large sizes and only samples shapes; element-wise lazy decoding order is not varied.",
 ["src/util/value_util.go"],[("value codec","value_util.go: Primitive/ValueArray/RecordList.Encode, StandardMappedValue.Decode/ValueAt/RecordAt, SimpleMappedValue.Decode")],["IValue"])
p("C13","Records survive encoding and decoding",
 "Encoding a record with any combination of key, value, scheme, timestamp and signature and decoding the resulting bytes, even when followed by further bytes, succeeds and yields exactly the same parts, with absent parts reported as absent, and consumes exactly the encoded bytes. A signature is carried only together with a timestamp.",
 ["inputs"],"all 2^5 combinations of parts, all contents within limits, all trailing bytes",
 "TestRecord is a stub; a record with a missing part is never decoded by any test.",
 ["src/util/record_util.go"],[("record codec","record_util.go: Record.Encode, MappedRecord.Decode, NewMappedRecord")],["Record.Encode/Buf","NewMappedRecord"])
p("C14","Schemes survive encoding and decoding",
 "Encoding a scheme with any combination of domain, tablet and buckets within the size limit and decoding the resulting bytes yields the same domain, tablet and buckets, with absent parts reported as absent, and consumes exactly the encoded bytes.",
 ["inputs"],"all combinations and contents of scheme parts, all trailing bytes",
 "No test touches schemes.",
 ["src/util/scheme_util.go"],[("scheme codec","scheme_util.go: Scheme.Encode, MappedScheme.Decode")],["Scheme.Encode/Buf","MappedScheme.Decode"])
p("C15","Decoders are safe on arbitrary bytes",
 "Decoding an integer, byte string, key, value, record, scheme, consensus time, consensus identifier or hash table from any byte sequence whatsoever either reports an error or succeeds; it never fails with a run-time fault, and on success the consumed length is never more than the bytes supplied and the bytes kept are exactly that prefix. Reading any element of a successfully decoded value is equally safe.",
 ["inputs"],"all byte sequences of all lengths",
 "Tests only decode well-formed encodings produced by the matching encoder.",
 ["src/util/misc_util.go","src/util/key_util.go","src/util/value_util.go","src/util/record_util.go","src/util/scheme_util.go","src/util/consensus_util.go","src/util/mph_util.go"],
 [("bounds and length checks","all Decode*/NewMapped* functions")],["every decode entry point"])
p("C16","Encoders enforce the documented size limits",
 "An encoder that reports success has produced bytes within the documented maximum for that part: 4 KB for a key, 1 KB for a scheme, 64 KB - 1 for the content of a value, and in a record 4 KB for the key, 56 KB for the value and 1 KB for the scheme; an element count or content that does not fit its length field is refused with an error rather than truncated.",
 ["inputs"],"all sizes, in particular at and just beyond each limit",
 "No test reaches the limits.",
 ["src/util/key_util.go","src/util/value_util.go","src/util/record_util.go","src/util/scheme_util.go","src/util/const_util.go"],
 [("limit checks","Key.Encode, Scheme.Encode, Record.Encode, Primitive/ValueArray/RecordList.Encode")],["Encode errors"])
p("C17","Consensus times survive encoding and form a total order",
 "Encoding any ledger or raft time and decoding the bytes gives back an equal time of the same kind. On two times of the same kind the six comparisons are mutually consistent and implement one strict total order (raft times ordered by term, then milliseconds, then count), and comparing different kinds is reported as an error.",
 ["inputs"],"all 32-bit epochs and all term/millis/count triples, all pairs",
 "No test covers consensus times.",
 ["src/util/consensus_util.go"],[("comparisons and codec","consensus_util.go: LedgerTime, RaftTime, NewConsensusTime")],["IConsensusTime"])
p("C18","Consensus identifiers are parsed exactly",
 "Parsing a consensus identifier succeeds exactly when the first byte is non-zero with no reserved bit set and the buffer holds every part announced by it; each announced 32-byte part is then exactly the corresponding bytes, absent parts are absent, and the kept bytes are exactly the consumed prefix. A copy has equal bytes and shares no memory with the original.",
 ["inputs"],"all byte sequences, all 31 part combinations",
 "No test covers consensus identifiers.",
 ["src/util/consensus_util.go"],[("parser","consensus_util.go: NewMappedConsensusID, Copy")],["NewMappedConsensusID"])
p("C19","A perfect hash table maps every key to its own index",
 "A minimal perfect hash table built from any list of pairwise different keys looks up every one of those keys successfully and returns its position in the list. With exact verification a key not in the list is never reported as found, and a lookup never fails with a run-time fault.",
 ["inputs"],"all lists of distinct keys for which construction finishes, all lookups, both verification modes",
 "TestBuild samples word lists; collisions during seed search and bucket ordering are covered by chance.",
 ["src/util/mph_util.go"],[("build and lookup","mph_util.go: MPHBuild, Lookup, nextPow2")],["MPHBuild","MPHTable.Lookup"])
p("C20","Perfect hash tables survive serialization",
 "Serializing a table that verifies lookups by hash and parsing the bytes, even when followed by further bytes, gives a table with identical lists, masks, seed and hashes that verifies by hash again, so that every lookup gives the same answer, and consumes exactly the serialized bytes.",
 ["inputs"],"all tables verifying by hash (lists below 2^32 elements, masks 0 to 2^32-1), all trailing bytes",
 "TestSerialize* use a few tables and only re-lookup the inserted keys.",
 ["src/util/mph_util.go"],[("serialization","mph_util.go: Encode, NewMPHTable")],["MPHTable.Encode","NewMPHTable"])
p("C21","Base58 text survives decoding",
 "Decoding the Base58 encoding of any byte string gives back exactly that byte string, including leading zero bytes. Decoding text with a character outside the alphabet yields nothing.",
 ["inputs"],"all byte strings, all texts",
 "No test covers Base58.",
 ["src/util/base58_util.go"],[("codec","base58_util.go: Base58Encode, Base58Decode")],["Base58Encode","Base58Decode"])
p("C22","Fixed-width conversions survive a round trip",
 "Converting any fixed-width integer, timestamp or non-negative 256-bit number to bytes gives the documented fixed-width big-endian form, and converting it back gives the same value. Converting bytes that are too short is reported or refused without a run-time fault where an error result exists, and min/max helpers return the smaller or larger argument.",
 ["inputs"],"all integers of each width, all timestamps, all numbers below 2^256, all byte strings",
 "No test covers the conversions at boundary values or negative numbers.",
 ["src/collection/util.go"],[("conversions","util.go: *ToBytes, BytesTo*, BigIntToByteArray, ByteArrayToBigInt, TimeToBytes, BytesToTime")],["conversion functions"])
p("C23","Range-limited random numbers stay within their range",
 "For every integer width, a random number requested in a range is at least the minimum and strictly below the maximum, for every non-empty range including ranges with negative bounds and ranges spanning more than half of the type, and whatever the random source produces.",
 ["inputs"],"all pairs min < max of every width, all outputs of the random source",
 "TestRandInt32 draws a few samples from one positive range.",
 ["src/util/rand_util.go"],[("range reduction","rand_util.go: Rand*Range")],["Rand*Range"])
p("C24","Key files are integrity checked and malformed files are refused",
 "Key material saved to a key file is loaded back unchanged. A key file whose contents are not the hexadecimal form of some data followed by the data's checksum is refused with an error, never accepted and never a run-time fault, whatever bytes it contains.",
 ["inputs","fault_sequences"],"all key values, all file contents including truncated and corrupted ones",
 "TestLCKeyGen writes one key and never damages the file.",
 ["src/util/lc_util.go"],[("file codec","lc_util.go: lc_load_key_data, lc_save_key_pair, lc_save_pub_key, lc_load_priv_key")],["LCSaveKeyPair","LCLoadPubKey","LCLoadPrivKey"])
p("C25","The trie behaves as a map from keys to values",
 "After any sequence of set operations on a constructed trie, looking up a key returns the value last set for exactly that key, or nothing if it was never set, without failing, and setting one key never changes another.",
 ["histories","inputs"],"all sequences of set and get over all keys, including keys that are prefixes of each other",
 "No test touches the trie.",
 ["src/util/trie_util.go"],[("trie node operations","trie_util.go: TrieNode.Get, TrieNode.Set, GetChild")],["TrieNode.Get/Set"])
p("C26","Copies are equal to and independent of the original",
 "A copy of a key, value, record, scheme or consensus identifier has the same kind and observable content as the original (Copy of a decoded object is a decoded object with the same bytes, CopyConstruct of a decoded key, of a decoded value without elements and of a decoded record with such values is the constructed object with the same parts). A modification made through the copy's or the original's update operations never changes the other one, and a copy of a decoded object does not share the bytes the original was decoded from.",
 ["inputs","histories"],"all objects of every kind, all later update operations on either side",
 "No test modifies an object after copying it.",
 ["src/util/key_util.go","src/util/value_util.go","src/util/record_util.go","src/util/scheme_util.go"],[("copy operations","Copy and CopyConstruct of every type")],["Copy","CopyConstruct"])
p("C27","Perfect hash construction always finishes",
 "Building a perfect hash table from any list of pairwise different keys finishes.",
 ["inputs"],"all lists of distinct keys","Termination depends on the hash seeds tried; tests only use word lists on which it finishes quickly.",
 ["src/util/mph_util.go"],[("seed search","mph_util.go: MPHBuild")],["MPHBuild"])
p("C28","A saved public key is loaded back as the same point",
 "A public key saved to a key file and loaded back verifies exactly the signatures the original key verifies.",
 ["inputs"],"all key pairs","TestECDSA only derives keys in memory and tolerates either root.",
 ["src/util/ecdsa_util.go","src/util/lc_util.go"],[("point recovery","ecdsa_util.go: ECDSAGetPublicKey, ECDSACalculateY")],["LCLoadPubKey"])
p("C29","Stored tables are read back as written",
 "Every record written to an on-disk sorted table is found again under its key when the table is opened, and a damaged table file is refused.",
 ["inputs","crash_points"],"all tables, all damaged files","The package holding it does not compile at this commit, so nothing is tested.",
 ["src/pdb"],[("table files","src/pdb")],["pdb package"])
p("C30","Constructed objects never hand out stale encoded bytes",
 "Appending to, deleting from or setting a part of a constructed key, value array, record list or record has exactly the list (or field) effect it names, and the bytes handed out after encoding always describe the object's current content: after any update the object counts as not encoded until it is encoded again.",
 ["histories"],"all sequences of update, encode and read operations on constructed objects",
 "No test updates an object after encoding it.",
 ["src/util/key_util.go","src/util/value_util.go","src/util/record_util.go"],[("updaters","Key.Add, ValueArray/RecordList.Append/DeleteAt, Record.Set*")],["Append","DeleteAt","Set*","Add","Buf"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
