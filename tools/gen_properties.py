import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[]):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
I=lambda s:"include/"+s
KS="every sorted list of non-empty byte-string keys (any bytes, any length, prefix keys and duplicates allowed), every configuration (dense levels on or off, size ratio at least 1, suffix type none/hash/real/mixed, suffix lengths with a sum of at most 64 bits)"
T="The unit tests run two fixed data sets (a word list and equally spaced integers) with one or two suffix lengths and the default ratio; a false result for a particular byte pattern, fan-out, depth or word alignment stays unseen."
p("P01","Point queries have no false negatives","A filter built from a sorted list of non-empty keys answers true to a point query for every key in that list. This holds for every suffix type and length and every split of the trie into its two encodings.",["inputs","configurations"],KS+", every key of the list",T,
  [I("surf.hpp"),I("louds_dense.hpp"),I("louds_sparse.hpp"),I("surf_builder.hpp"),I("suffix.hpp")],[("SuRF::lookupKey","include/surf.hpp"),("LoudsDense::lookupKey","include/louds_dense.hpp"),("LoudsSparse::lookupKey","include/louds_sparse.hpp"),("SuRFBuilder::build","include/surf_builder.hpp")],
  [("labels_/child_indicator_bits_/louds_bits_","per-level trie encoding filled by the builder","include/surf_builder.hpp")],["SuRF::lookupKey"])
p("P02","Range queries have no false negatives","If at least one stored key lies in the queried range, with each end point inclusive or exclusive as asked, the range query answers true. This holds for arbitrary end points, stored or not, including the empty string, prefixes and extensions of stored keys.",["inputs","configurations"],KS+", all pairs left <= right of byte strings, all four inclusive/exclusive combinations",T+" Range tests use end points near stored keys only.",
  [I("surf.hpp"),I("louds_dense.hpp"),I("louds_sparse.hpp"),I("suffix.hpp")],[("SuRF::lookupRange","include/surf.hpp"),("Iter::compare","include/louds_dense.hpp, include/louds_sparse.hpp"),("BitvectorSuffix::compare","include/suffix.hpp")],[],["SuRF::lookupRange"])
p("P03","A positive point query is justified by a stored key","The filter keeps, for each distinct key, its shortest prefix that no other key shares, or the whole key when it is a proper prefix of another key, plus the configured suffix bits. A point query answers true exactly when the queried key starts with a kept prefix (or equals a key kept whole) and its suffix bits equal the stored ones; for pure real suffixes an all-zero stored suffix counts as unknown and matches, and without suffixes there is nothing to compare. In particular it answers false for every key that no kept prefix matches.",["inputs","configurations"],KS+", every query byte string",T+" No test asserts a negative answer except for a handful of altered keys.",
  [I("surf.hpp"),I("louds_dense.hpp"),I("louds_sparse.hpp"),I("surf_builder.hpp"),I("suffix.hpp")],[("lookupKey","include/surf.hpp"),("insertKeyBytesToTrieUntilUnique","include/surf_builder.hpp"),("checkEquality","include/suffix.hpp")],[],["SuRF::lookupKey"])
p("P04","A positive range query is justified by a stored key","A range query answers true only if some stored key lies in the range or the prefix kept for some stored key is a prefix of one of the two end points (so the filter cannot tell on which side of the end point the key lies). Otherwise it answers false.",["inputs","configurations"],KS+", all pairs left <= right, all inclusive/exclusive combinations",T,
  [I("surf.hpp"),I("louds_dense.hpp"),I("louds_sparse.hpp"),I("suffix.hpp")],[("SuRF::lookupRange","include/surf.hpp"),("Iter::compare","include/surf.hpp")],[],["SuRF::lookupRange"])
p("P05","Full iteration visits every key once, in order, both ways","Moving to the first key and advancing until the iterator becomes invalid yields the kept prefixes of all distinct stored keys, each once, in ascending key order. Moving to the last key and stepping back yields the same sequence reversed.",["inputs","configurations"],KS,T+" The tests never iterate backwards over the whole filter with dense levels off, nor over keys with byte 0x00 or 0xff.",
  [I("surf.hpp"),I("louds_dense.hpp"),I("louds_sparse.hpp")],[("Iter::operator++/--","include/surf.hpp"),("moveToLeftMostKey/moveToRightMostKey","include/louds_dense.hpp, include/louds_sparse.hpp")],[],["SuRF::moveToFirst","SuRF::moveToLast","SuRF::Iter"])
p("P06","Seeking to the next greater key skips nothing","After seeking to the first key greater than (or, inclusive, not less than) q, the iterator is invalid only if no such key exists, and otherwise stands on a stored key that is not past the first such key. If the iterator does not raise its may-be-false-positive flag it stands exactly on that first key; if it raises the flag, the kept prefix it stands on is a prefix of q. Iterating on from there, forwards or backwards, continues the full key order without gaps.",["inputs","configurations"],KS+", every byte string q, both values of inclusive",T,
  [I("surf.hpp"),I("louds_dense.hpp"),I("louds_sparse.hpp")],[("moveToKeyGreaterThan","include/surf.hpp, include/louds_dense.hpp, include/louds_sparse.hpp"),("compareSuffixGreaterThan","include/louds_dense.hpp, include/louds_sparse.hpp")],[],["SuRF::moveToKeyGreaterThan"])
p("P07","Seeking to the next smaller key skips nothing","After seeking to the last key less than (or, inclusive, not greater than) q, the iterator is invalid only if no such key exists, and otherwise stands on a stored key that is not before the last such key. If it stands past that key, the kept prefix it stands on is a prefix of q and the may-be-false-positive flag is raised.",["inputs","configurations"],KS+", every byte string q, both values of inclusive",T,
  [I("surf.hpp")],[("SuRF::moveToKeyLessThan","include/surf.hpp"),("SuRF::moveToLast","include/surf.hpp")],[],["SuRF::moveToKeyLessThan"])
p("P08","Approximate counts err by at most two, and never over","For two valid iterators the approximate count is exactly the number of stored keys strictly between them (zero if they stand on the same key). For two keys left <= right it never exceeds the number of stored keys in [left, right] and is at most two below the number of stored keys in [left, right).",["inputs","configurations"],KS+", every pair of positions and every pair of byte strings left <= right",T+" The count tests use only start positions at the quarters of the two fixed data sets.",
  [I("surf.hpp"),I("louds_dense.hpp"),I("louds_sparse.hpp")],[("approxCount/countLeavesBefore","include/louds_dense.hpp, include/louds_sparse.hpp")],[],["SuRF::approxCount"])
p("P09","Serialization round-trips and its size is exact","Serializing a filter writes exactly the number of bytes the filter reports as its serialized size and nothing beyond it. A filter deserialized from those bytes, with only those bytes available, gives the same answer as the original to every point, range, seek, iteration and count query, and serializes to the same bytes.",["inputs","configurations"],KS+", every query",T+" The tests compare lookups of the two data sets only and never check the bytes.",
  [I("surf.hpp"),I("louds_dense.hpp"),I("louds_sparse.hpp"),I("rank.hpp"),I("select.hpp"),I("suffix.hpp"),I("label_vector.hpp"),I("config.hpp")],[("serialize/deSerialize/serializedSize","every component header")],[],["SuRF::serialize","SuRF::deSerialize","SuRF::serializedSize"])
p("P10","Rank counts the set bits up to a position","For every bit vector and every position inside it, rank returns the number of set bits from the start up to and including that position.",["inputs"],"every per-level list of bit vectors with every list of level lengths, every start and end level, every position, every power-of-two block size that is a multiple of 64","Tests check a few hundred positions of bit vectors derived from the two fixed data sets.",
  [I("rank.hpp"),I("bitvector.hpp"),I("popcount.h")],[("BitvectorRank::rank, initRankLut","include/rank.hpp"),("popcountLinear","include/popcount.h")],[],["BitvectorRank::rank"])
p("P11","Select finds the position of the k-th set bit","For every bit vector whose first bit is set and every k from 1 to its number of set bits, select returns the position of the k-th set bit (so rank of that position is k and the bit there is set), and the reported number of set bits is exact.",["inputs"],"every per-level list of bit vectors starting with a set bit, every k, every positive sampling interval","Tests check bit vectors derived from the two fixed data sets with one sampling interval.",
  [I("select.hpp"),I("popcount.h")],[("BitvectorSelect::select, initSelectLut","include/select.hpp"),("select64_popcount_search","include/popcount.h")],[],["BitvectorSelect::select","BitvectorSelect::numOnes"])
p("P12","Scanning for the next or previous set bit is exact","From any position of a bit vector, the distance to the next set bit leads exactly to the closest later set bit, or to the end of the vector if there is none. From any position with an earlier set bit, the distance to the previous set bit leads exactly to the closest earlier one, and without one the distance reaches past position 0.",["inputs"],"every bit vector, every position","Tests check one pattern per data set; word-boundary and last-word cases depend on the data.",
  [I("bitvector.hpp")],[("distanceToNextSetBit, distanceToPrevSetBit","include/bitvector.hpp")],[],["Bitvector::distanceToNextSetBit","Bitvector::distanceToPrevSetBit"])
p("P13","Label search within a node is exact","Searching a strictly ascending run of labels (optionally led by a terminator) for a label succeeds exactly when the label is in the run, and then yields its position; the linear, binary and vectorised searches agree. Searching for a greater label succeeds exactly when the run has one, and then yields the position of the smallest such label.",["inputs"],"every ascending run of 1 to 256 labels with or without a leading terminator, at every offset in the vector, every label","Tests search labels of the two data sets; long runs at the end of the vector, label 0xff and terminator-only runs do not occur.",
  [I("label_vector.hpp")],[("search, linearSearch, binarySearch, simdSearch, searchGreaterThan","include/label_vector.hpp")],[],["LabelVector::search","LabelVector::searchGreaterThan"])
p("P14","Stored suffixes are read back unchanged","The suffix bits stored for the i-th leaf are exactly the bits read back for the i-th leaf, for every suffix length from 1 to 64 and every position, including suffixes that straddle a machine-word boundary or a level boundary. No suffix disturbs another one.",["inputs","configurations"],"every sequence of suffix values per level, every suffix length 1..64, every level range","Tests use suffix lengths of 8 bits, which never straddle a word.",
  [I("suffix.hpp"),I("surf_builder.hpp"),I("bitvector.hpp")],[("SuRFBuilder::storeSuffix","include/surf_builder.hpp"),("BitvectorSuffix::read","include/suffix.hpp"),("concatenateBitvectors","include/bitvector.hpp")],[],["BitvectorSuffix::read","BitvectorSuffix::readReal"])
p("P15","A suffix is the right function of key, level and configuration","The real suffix of a key is the configured number of key bits that follow the kept prefix (zero if the key has fewer); the hash suffix is the configured number of low bits of the key's shifted hash, which depends on all bytes of the key and nothing else; the mixed suffix is the hash suffix followed by the real suffix. The suffix computed for a query by the same rule therefore equals the stored one for the same key.",["inputs","configurations"],"every key, level and length combination up to 64 bits","Tests use 8-bit suffixes of the two data sets.",
  [I("suffix.hpp"),I("hash.hpp")],[("constructSuffix and constructHash/Real/MixedSuffix","include/suffix.hpp"),("Hash, suffixHash","include/hash.hpp")],[],["BitvectorSuffix::constructSuffix"])
p("P16","Integer-to-key conversion preserves order and inverts","Converting a 64-bit integer to a key yields 8 bytes whose byte order equals the numeric order of the integers, and converting back yields the same integer.",["inputs"],"every pair of 64-bit integers","Only small, equally spaced integers are tested.",
  [I("config.hpp")],[("uint64ToString, stringToUint64","include/config.hpp")],[],["uint64ToString","stringToUint64"])
p("P17","No query or construction leaves the filter's memory or aborts","Building, querying, iterating, counting, serializing and deserializing never read or write outside the memory of the filter and its arguments, never shift by the width of a word or more, and never fail an internal assertion. This holds for every legal input, including empty and very long query keys.",["inputs","configurations"],KS+", every query byte string and every sequence of iterator steps on a valid iterator","Tests run without sanitizers on two data sets.",
  [I("bitvector.hpp"),I("rank.hpp"),I("select.hpp"),I("label_vector.hpp"),I("suffix.hpp"),I("surf_builder.hpp"),I("louds_dense.hpp"),I("louds_sparse.hpp"),I("surf.hpp")],[("index arithmetic and assertions","all component headers")],[],["all public operations"])
p("P18","Results do not depend on the encoding split or on duplicates","For the same keys and suffix configuration, every point query, range query, seek, iteration and count gives the same result whatever the size ratio and whether the dense encoding is enabled or not. Repeating keys in the input list changes no result.",["inputs","configurations"],KS+", every pair of configurations that differ in ratio or dense switch only, every query","The tests build with one ratio per class and never compare configurations.",
  [I("surf_builder.hpp"),I("louds_dense.hpp"),I("louds_sparse.hpp"),I("surf.hpp")],[("determineCutoffLevel, buildDense","include/surf_builder.hpp"),("passToSparse, lookupKey","include/surf.hpp")],[],["SuRF"])
p("P19","Queries do not change the filter or each other's answers","A query of any kind never changes what a later query answers: repeating a query after any sequence of other queries gives the same result, the serialized bytes stay the same, and iterators obtained earlier keep their position.",["histories","inputs"],KS+", every finite sequence of queries","Tests ask each query once, in one order.",
  [I("surf.hpp"),I("louds_dense.hpp"),I("louds_sparse.hpp")],[("const queries; Iter::clear before reuse of the internal iterators","include/surf.hpp")],[("iter_, iter2_","iterators reused by range and count queries","include/surf.hpp")],["SuRF::lookupRange","SuRF::approxCount"])
p("P20","Bit-count and in-word select kernels are exact","Counting the bits of a word, counting the first n bits of an array of words, and selecting the k-th set bit of a word or of an array agree with the naive definition for every word, every n and every valid k; the alternative implementations agree with each other.",["inputs"],"every 64-bit word, array, offset, length and k from 1 to the number of set bits","No test exercises the kernels directly.",
  [I("popcount.h")],[("suxpopcount, popcountLinear, select64_popcount_search, select64_naive, select64_broadword, select512, selectLinear","include/popcount.h")],[],["popcountLinear","select64"])
p("P21","An iterator reports the kept bytes and suffix of its key","At any position reached by seeking or stepping, the iterator's key is the kept prefix of exactly one stored key, its real suffix is that key's stored real suffix, and the key-with-suffix is the kept prefix followed by the real suffix bits, left-aligned and zero-padded to a byte, with the number of bits in the last partial byte reported. For keys without suffix information only the prefix is reported.",["inputs","configurations"],KS+", every valid iterator position",T,
  [I("surf.hpp"),I("louds_dense.hpp"),I("louds_sparse.hpp"),I("suffix.hpp")],[("getKey, getSuffix, getKeyWithSuffix","include/louds_dense.hpp, include/louds_sparse.hpp, include/surf.hpp")],[],["SuRF::Iter::getKey","SuRF::Iter::getSuffix","SuRF::Iter::getKeyWithSuffix"])
p("P22","Comparing an iterator with a key is consistent with key order","At any valid position, comparing the iterator with a key gives a negative, zero-or-uncertain, or positive result: negative only if the stored key is less than the compared key, positive only if it is greater, and the could-be-positive code (or zero) only if the kept prefix is a prefix of the compared key.",["inputs","configurations"],KS+", every valid position, every byte string",T+" The comparison has no test of its own.",
  [I("surf.hpp"),I("louds_dense.hpp"),I("louds_sparse.hpp"),I("suffix.hpp")],[("Iter::compare","include/surf.hpp, include/louds_dense.hpp, include/louds_sparse.hpp"),("BitvectorSuffix::compare","include/suffix.hpp")],[],["SuRF::Iter::compare"])
p("P23","Concatenating per-level bit vectors preserves every bit","The bit vector built from per-level bit vectors holds, for the selected levels in order, exactly each level's declared number of bits, unchanged and without gaps, for all lengths and alignments. The total length is the sum of the level lengths. (Storage bits of a level beyond its declared length are zero, as the builder leaves them.)",["inputs"],"every list of levels with every declared length not above the level's storage and zero storage bits beyond it, every start and end level","Tests use level sizes that arise from the two data sets.",
  [I("bitvector.hpp")],[("concatenateBitvectors, totalNumBits, readBit","include/bitvector.hpp")],[],["Bitvector::readBit","Bitvector::numBits"])
p("P24","The baseline Bloom filter has no false negatives","The Bloom filter of the benchmark suite answers may-match for every key it was created from, for string and integer keys and every bits-per-key setting.",["inputs","configurations"],"every key list, every bits-per-key value from 1","The benchmark code has no tests.",
  ["bench/bloom.hpp"],[("CreateFilter, KeyMayMatch","bench/bloom.hpp")],[],["BloomFilter::KeyMayMatch"])
p("P25","Concurrent read-only queries are safe","Threads that run const point queries and seeks on one filter at the same time, and step and read the iterators they own, without a writer, get the answers they would get alone; no state is written that two of them can reach.",["schedules"],KS+", every number of threads, every list of const queries per thread, every interleaving","Tests are single-threaded.",
  [I("surf.hpp"),I("louds_dense.hpp"),I("louds_sparse.hpp"),I("suffix.hpp"),I("rank.hpp"),I("select.hpp"),I("label_vector.hpp"),I("hash.hpp")],[("const methods without mutable or static state","include/surf.hpp and everything it calls")],[],["SuRF::lookupKey","SuRF::moveToKeyGreaterThan","SuRF::moveToKeyLessThan","SuRF::moveToFirst","SuRF::moveToLast"])
p("P26","The false-positive rate follows the suffix length","For keys not sharing a kept prefix's hash, a hash suffix of n bits lets a random query through with probability about 2^-n.",["inputs"],"random query distribution","The tests never measure it.",
  [I("suffix.hpp"),I("hash.hpp")],[("suffixHash","include/hash.hpp")],[],["SuRF::lookupKey"])
ids=[x['id'] for x in P]; assert len(set(ids))==len(ids)
for x in P: assert len(x['title'])<=80,(x['title'],len(x['title'])); 
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
