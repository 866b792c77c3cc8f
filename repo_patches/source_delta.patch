From ce1b50dd88c67e0c0b2367e4dbe71748a0acc908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 01/23] fix: BitvectorSuffix::read shifted by a negative amount
 when a suffix straddles two words

---
 include/suffix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index 01cfee4..5dc110a 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -197,7 +197,7 @@ word_t BitvectorSuffix::read(const position_t idx) const {
     position_t offset = bit_pos & (kWordSize - 1);
     word_t ret_word = (bits_[word_id] << offset) >> (kWordSize - suffix_len);
     if (offset + suffix_len > kWordSize)
-	ret_word += (bits_[word_id+1] >> (kWordSize - offset - suffix_len));
+	ret_word += (bits_[word_id+1] >> (2 * kWordSize - offset - suffix_len));
     return ret_word;
 }
 
-- 
2.43.0


From a0778dcf86eb7f35523f6867f819536ba0ebb0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 02/23] fix: concatenateBitvectors wrote one word past the end
 when the bits end on a word boundary

---
 include/bitvector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bitvector.hpp b/include/bitvector.hpp
index 7616ac9..0e60fc6 100644
--- a/include/bitvector.hpp
+++ b/include/bitvector.hpp
@@ -162,7 +162,9 @@ void Bitvector::concatenateBitvectors(const std::vector<std::vector<word_t> >& b
 		bit_shift += bits_remain;
 	    } else {
 		word_id++;
-		bits_[word_id] |= (last_word << (kWordSize - bit_shift));
+		// the next word need not exist if last_word ends on a word boundary
+		if (bit_shift + bits_remain > kWordSize)
+		    bits_[word_id] |= (last_word << (kWordSize - bit_shift));
 		bit_shift = bit_shift + bits_remain - kWordSize;
 	    }
 	}
-- 
2.43.0


From 541923317e649aa5210f6f2f0687a18fcd2a92b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 03/23] fix: distanceToNextSetBit ran past the end of the
 bitvector when no set bit follows

---
 include/bitvector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bitvector.hpp b/include/bitvector.hpp
index 0e60fc6..eefc066 100644
--- a/include/bitvector.hpp
+++ b/include/bitvector.hpp
@@ -80,6 +80,8 @@ position_t Bitvector::distanceToNextSetBit (const position_t pos) const {
 
     position_t word_id = (pos + 1) / kWordSize;
     position_t offset = (pos + 1) % kWordSize;
+    if (word_id >= numWords()) // pos is the last bit
+	return distance;
 
     //first word left-over bits
     word_t test_bits = bits_[word_id] << offset;
@@ -98,7 +100,8 @@ position_t Bitvector::distanceToNextSetBit (const position_t pos) const {
 	    return (distance + __builtin_clzll(test_bits));
 	distance += kWordSize;
     }
-    return distance;
+    // no more set bits: distance to the end of the bitvector
+    return (num_bits_ - pos);
 }
 
 position_t Bitvector::distanceToPrevSetBit (const position_t pos) const {
-- 
2.43.0


From 34f00a6149dd900fb0df0bb7e460e08a0f18d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 04/23] fix: LabelVector buffers were too small for 16-byte
 SIMD reads, and their size could overflow

---
 include/label_vector.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/label_vector.hpp b/include/label_vector.hpp
index 9582a46..8708a74 100644
--- a/include/label_vector.hpp
+++ b/include/label_vector.hpp
@@ -23,10 +23,10 @@ public:
 	for (level_t level = start_level; level < end_level; level++)
 	    num_bytes_ += labels_per_level[level].size();
 
-	//labels_ = new label_t[num_bytes_];
-	position_t alloc_bytes = num_bytes_ * (num_bytes_ / kWordSize + 1);
+	// padded because simdSearch reads 16 labels at a time
+	uint64_t alloc_bytes = (uint64_t)num_bytes_ + kSimdPadding;
 	labels_ = new label_t[alloc_bytes];
-	for (position_t i = 0; i < alloc_bytes; i++)
+	for (uint64_t i = 0; i < alloc_bytes; i++)
 	  labels_[i] = 0;
 
 	position_t pos = 0;
@@ -85,7 +85,8 @@ public:
 	memcpy(&(lv->num_bytes_), src, sizeof(lv->num_bytes_));
 	src += sizeof(lv->num_bytes_);
 	
-	lv->labels_ = new label_t[lv->num_bytes_];
+	lv->labels_ = new label_t[(uint64_t)lv->num_bytes_ + kSimdPadding];
+	memset(lv->labels_ + lv->num_bytes_, 0, kSimdPadding);
 	memcpy(lv->labels_, src, lv->num_bytes_);
 	src += lv->num_bytes_;
 	
@@ -100,6 +101,8 @@ public:
     }
 
 private:
+    static const position_t kSimdPadding = 16;
+
     position_t num_bytes_;
     label_t* labels_;
 };
-- 
2.43.0


From f608ec7c12ee05230a62782c475b7cc287c78888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 05/23] fix: a single key starting with byte 0xff was taken for
 a terminator in LOUDS-dense

---
 include/surf_builder.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/surf_builder.hpp b/include/surf_builder.hpp
index 280fb81..7519e9a 100644
--- a/include/surf_builder.hpp
+++ b/include/surf_builder.hpp
@@ -419,6 +419,9 @@ bool SuRFBuilder::isStartOfNode(const level_t level, const position_t pos) const
 }
 
 bool SuRFBuilder::isTerminator(const level_t level, const position_t pos) const {
+    // the root has no terminator: there are no empty keys
+    if (level == 0)
+	return false;
     label_t label = labels_[level][pos];
     return ((label == kTerminator) && !readBit(child_indicator_bits_[level], pos));
 }
-- 
2.43.0


From 410cc8adad89f1092ac75d0625584b32e3cfe531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 06/23] fix: storeSuffix shifted by the word size when there
 are no suffix bits

---
 include/surf_builder.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/surf_builder.hpp b/include/surf_builder.hpp
index 7519e9a..dd593ac 100644
--- a/include/surf_builder.hpp
+++ b/include/surf_builder.hpp
@@ -295,6 +295,10 @@ void SuRFBuilder::insertKeyByte(const char c, const level_t level, const bool is
 
 inline void SuRFBuilder::storeSuffix(const level_t level, const word_t suffix) {
     level_t suffix_len = getSuffixLen();
+    if (suffix_len == 0) { // no suffix bits to store
+	suffix_counts_[level-1]++;
+	return;
+    }
     position_t pos = suffix_counts_[level-1] * suffix_len;
     assert(pos <= (suffixes_[level-1].size() * kWordSize));
     if (pos == (suffixes_[level-1].size() * kWordSize))
-- 
2.43.0


From ead9bc9c53514622a2bbc34acd672f9376bae937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 07/23] fix: out-of-range shifts for suffixes of 0, 64, or
 (hash) more than 57 bits

---
 include/suffix.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index 5dc110a..abe58ec 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -35,9 +35,8 @@ public:
 
     static word_t constructHashSuffix(const std::string& key, const level_t len) {
 	word_t suffix = suffixHash(key);
-	suffix <<= (kWordSize - len - kHashShift);
-	suffix >>= (kWordSize - len);
-	return suffix;
+	suffix >>= kHashShift;
+	return extractRealSuffix(suffix, len); // the lowest len bits
     }
 
     static word_t constructRealSuffix(const std::string& key,
@@ -94,6 +93,8 @@ public:
     }
 
     static word_t extractRealSuffix(const word_t suffix, const level_t real_suffix_len) {
+        if (real_suffix_len >= kWordSize)
+            return suffix;
         word_t real_suffix_mask = 1;
         real_suffix_mask <<= real_suffix_len;
         real_suffix_mask--;
-- 
2.43.0


From ad34be9d8746f59aaf7e73db1a80a15a18505a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 08/23] fix: LOUDS-dense iterators could not move back to label
 0 of the root

---
 include/louds_dense.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 19c2b52..3e5ec8a 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -403,7 +403,8 @@ position_t LoudsDense::getNextPos(const position_t pos) const {
 
 position_t LoudsDense::getPrevPos(const position_t pos, bool* is_out_of_bound) const {
     position_t distance = label_bitmaps_->distanceToPrevSetBit(pos);
-    if (pos <= distance) {
+    // the first bit of the bitmap is a valid previous position
+    if (pos == 0 || pos < distance) {
 	*is_out_of_bound = true;
 	return 0;
     }
-- 
2.43.0


From aaee83af4ff6a9eae2179517af5347b1d342d081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 09/23] fix: LOUDS-dense seeks with a key that ends inside the
 trie returned incomplete iterators

---
 include/louds_dense.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 3e5ec8a..81db162 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -237,14 +237,18 @@ bool LoudsDense::moveToKeyGreaterThan(const std::string& key,
 	// if is_at_prefix_key_, pos is at the next valid position in the child node
 	pos = node_num * kNodeFanout;
 	if (level >= key.length()) { // if run out of searchKey bytes
-	    iter.append(getNextPos(pos - 1));
-	    if (prefixkey_indicator_bits_->readBit(node_num)) //if the prefix is also a key
+	    // first label in the node (there is no position before the first node)
+	    iter.append(label_bitmaps_->readBit(pos) ? pos : getNextPos(pos));
+	    if (prefixkey_indicator_bits_->readBit(node_num)) { //if the prefix is also a key
 		iter.is_at_prefix_key_ = true;
-	    else
+		// valid, search complete, moveLeft complete, moveRight complete
+		iter.setFlags(true, true, true, true);
+		if (!inclusive)
+		    iter++;
+	    } else {
 		iter.moveToLeftMostKey();
-	    // valid, search complete, moveLeft complete, moveRight complete
-	    iter.setFlags(true, true, true, true); 
-	    return true;
+	    }
+	    return false;
 	}
 
 	pos += (label_t)key[level];
-- 
2.43.0


From 381d3e7b1308e32146399e1321b9b8d1cd105850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 10/23] fix: LOUDS-sparse seeks could leave the node when it
 starts with a terminator

---
 include/louds_sparse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index adff889..7ef5d94 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -256,9 +256,10 @@ bool LoudsSparse::moveToKeyGreaterThan(const std::string& key,
     level_t level;
     for (level = start_level_; level < key.length(); level++) {
 	position_t node_size = nodeSize(pos);
+	position_t node_pos = pos; // search may advance pos even if it fails
 	// if no exact match
 	if (!labels_->search((label_t)key[level], pos, node_size)) {
-	    moveToLeftInNextSubtrie(pos, node_size, key[level], iter);
+	    moveToLeftInNextSubtrie(node_pos, node_size, key[level], iter);
 	    return false;
 	}
 
-- 
2.43.0


From dd44db135cf33d42981749b3fe56626cad2a5e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 11/23] fix: LOUDS-sparse seeks past the last label of a node
 with a terminator skipped a label of the next node

---
 include/louds_sparse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 7ef5d94..bed122f 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -450,9 +450,10 @@ bool LoudsSparse::isEndofNode(const position_t pos) const {
 
 void LoudsSparse::moveToLeftInNextSubtrie(position_t pos, const position_t node_size, 
 					  const label_t label, LoudsSparse::Iter& iter) const {
+    position_t last_pos = pos + node_size - 1;
     // if no label is greater than key[level] in this node
     if (!labels_->searchGreaterThan(label, pos, node_size)) {
-	iter.append(pos + node_size - 1);
+	iter.append(last_pos);
 	return iter++;
     } else {
 	iter.append(pos);
-- 
2.43.0


From 55dc2275aa37f1c444178d53821653a0ff046b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 12/23] fix: Iter::compare called a prefix key smaller than
 every longer key

---
 include/louds_dense.hpp  | 4 ++--
 include/louds_sparse.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 81db162..ed6f515 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -439,12 +439,12 @@ void LoudsDense::Iter::clear() {
 }
 
 int LoudsDense::Iter::compare(const std::string& key) const {
-    if (is_at_prefix_key_ && (key_len_ - 1) < key.length())
-	return -1;
     std::string iter_key = getKey();
     std::string key_dense = key.substr(0, iter_key.length());
     int compare = iter_key.compare(key_dense);
     if (compare != 0) return compare;
+    if (is_at_prefix_key_ && (key_len_ - 1) < key.length())
+	return -1;
     if (isComplete()) {
 	position_t suffix_pos = trie_->getSuffixPos(pos_in_trie_[key_len_ - 1], is_at_prefix_key_);
 	return trie_->suffixes_->compare(suffix_pos, key, key_len_);
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index bed122f..3c97965 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -483,14 +483,14 @@ void LoudsSparse::Iter::clear() {
 }
 
 int LoudsSparse::Iter::compare(const std::string& key) const {
-    if (is_at_terminator_ && (key_len_ - 1) < (key.length() - start_level_))
-	return -1;
     std::string iter_key = getKey();
     std::string key_sparse = key.substr(start_level_);
     std::string key_sparse_same_length = key_sparse.substr(0, iter_key.length());
     int compare = iter_key.compare(key_sparse_same_length);
     if (compare != 0) 
 	return compare;
+    if (is_at_terminator_ && (key_len_ - 1) < (key.length() - start_level_))
+	return -1;
     position_t suffix_pos = trie_->getSuffixPos(pos_in_trie_[key_len_ - 1]);
     return trie_->suffixes_->compare(suffix_pos, key_sparse, key_len_);
 }
-- 
2.43.0


From 8210ee304a103afebb858c8cba899fb8324160e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 13/23] fix: building a filter with suffixes but without
 LOUDS-dense levels read past the end

---
 include/louds_dense.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index ed6f515..589cae9 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -185,7 +185,8 @@ LoudsDense::LoudsDense(const SuRFBuilder* builder) {
 						  builder->getPrefixkeyIndicatorBits(),
 						  builder->getNodeCounts(), 0, height_);
 
-    if (builder->getSuffixType() == kNone) {
+    // an end level of 0 would mean all levels
+    if (builder->getSuffixType() == kNone || height_ == 0) {
 	suffixes_ = new BitvectorSuffix();
     } else {
 	level_t hash_suffix_len = builder->getHashSuffixLen();
-- 
2.43.0


From 66d7b817736c9de1d966a84269c0402b47bff547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 14/23] fix: iterators were invalid or aborted in filters
 without LOUDS-dense levels

---
 include/louds_dense.hpp | 12 ++++++++++--
 include/surf.hpp        |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 589cae9..28b482b 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -43,6 +43,8 @@ public:
 	std::string getKeyWithSuffix(unsigned* bitlen) const;
 	position_t getSendOutNodeNum() const { return send_out_node_num_; };
 
+	// without LOUDS-dense levels, every key continues in LOUDS-sparse
+	void setToEmptyPrefix() { setFlags(true, true, false, false); };
 	void setToFirstLabelInRoot();
 	void setToLastLabelInRoot();
 	void moveToLeftMostKey();
@@ -601,7 +603,10 @@ void LoudsDense::Iter::moveToRightMostKey() {
 }
 
 void LoudsDense::Iter::operator ++(int) {
-    assert(key_len_ > 0);
+    if (key_len_ == 0) { // there are no LOUDS-dense levels
+	is_valid_ = false;
+	return;
+    }
     if (is_at_prefix_key_) {
 	is_at_prefix_key_ = false;
 	return moveToLeftMostKey();
@@ -623,7 +628,10 @@ void LoudsDense::Iter::operator ++(int) {
 }
 
 void LoudsDense::Iter::operator --(int) {
-    assert(key_len_ > 0);
+    if (key_len_ == 0) { // there are no LOUDS-dense levels
+	is_valid_ = false;
+	return;
+    }
     if (is_at_prefix_key_) {
 	is_at_prefix_key_ = false;
 	key_len_--;
diff --git a/include/surf.hpp b/include/surf.hpp
index 0281cbe..2b0c5d0 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -198,6 +198,7 @@ SuRF::Iter SuRF::moveToFirst() const {
 	iter.passToSparse();
 	iter.sparse_iter_.moveToLeftMostKey();
     } else {
+	iter.dense_iter_.setToEmptyPrefix();
 	iter.sparse_iter_.setToFirstLabelInRoot();
 	iter.sparse_iter_.moveToLeftMostKey();
     }
@@ -214,6 +215,7 @@ SuRF::Iter SuRF::moveToLast() const {
 	iter.passToSparse();
 	iter.sparse_iter_.moveToRightMostKey();
     } else {
+	iter.dense_iter_.setToEmptyPrefix();
 	iter.sparse_iter_.setToLastLabelInRoot();
 	iter.sparse_iter_.moveToRightMostKey();
     }
-- 
2.43.0


From 8d2ab3a5a7f70dc81a7b73dd4882f992e36f6836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 15/23] fix: suffix comparison with a key too short for the
 real suffix gave false negatives in range queries

---
 include/suffix.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index abe58ec..7cac947 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -257,8 +257,17 @@ int BitvectorSuffix::compare(const position_t idx,
     if (type_ == kMixed)
         stored_suffix = extractRealSuffix(stored_suffix, real_suffix_len_);
 
-    if ((stored_suffix == 0) && (querying_suffix == 0))
+    // A cleared suffix of more than one byte may hide bytes of the stored key.
+    if ((stored_suffix == 0) && (querying_suffix == 0 || real_suffix_len_ > 8))
 	return kCouldBePositive;
+    // If the querying key is too short to provide real_suffix_len_ suffix bits,
+    // compare the bits it has: an equal (hence longer) stored key is greater.
+    size_t querying_len = (key.length() > level) ? (key.length() - level) * 8 : 0;
+    if (querying_len > 0 && querying_len < real_suffix_len_) {
+	querying_suffix = constructRealSuffix(key, level, querying_len);
+	stored_suffix >>= (real_suffix_len_ - querying_len);
+	return (stored_suffix < querying_suffix) ? -1 : 1;
+    }
     else if ((stored_suffix == 0) || (stored_suffix < querying_suffix))
 	return -1;
     else if (stored_suffix == querying_suffix) 
-- 
2.43.0


From 24b88377ee66ab7c1692c497008b770cda747ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 16/23] fix: moveToKeyLessThan ignored inclusive and could skip
 the previous key

---
 include/surf.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/surf.hpp b/include/surf.hpp
index 2b0c5d0..86c2bcc 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -182,8 +182,13 @@ SuRF::Iter SuRF::moveToKeyLessThan(const std::string& key, const bool inclusive)
     }
     if (!iter.getFpFlag()) {
 	iter--;
-	if (lookupKey(key))
-	    iter--;
+	// the key itself is stored completely
+	if (iter.isValid() && iter.getKey().compare(key) == 0) {
+	    if (inclusive)
+		iter.could_be_fp_ = true;
+	    else
+		iter--;
+	}
     }
     return iter;
 }
-- 
2.43.0


From b9deaf3b8dcf79bbc60be8ff3363af36ecb8ab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 17/23] fix: lookupKey returned true for every key in filters
 without LOUDS-dense levels

---
 include/surf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/surf.hpp b/include/surf.hpp
index 86c2bcc..49fe05c 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -144,7 +144,7 @@ bool SuRF::lookupKey(const std::string& key) const {
     position_t connect_node_num = 0;
     if (!louds_dense_->lookupKey(key, connect_node_num))
 	return false;
-    else if (connect_node_num != 0)
+    else if (connect_node_num != 0 || louds_dense_->getHeight() == 0)
 	return louds_sparse_->lookupKey(key, connect_node_num);
     return true;
 }
-- 
2.43.0


From eea65f76b04b1bf45f1480caedb3d85a2ee3a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 18/23] fix: LOUDS-sparse lookupKey took a label 0xff for a
 terminator

---
 include/louds_sparse.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 3c97965..a52e21c 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -243,7 +243,9 @@ bool LoudsSparse::lookupKey(const std::string& key, const position_t in_node_num
 	node_num = getChildNodeNum(pos);
 	pos = getFirstLabelPos(node_num);
     }
-    if ((labels_->read(pos) == kTerminator) && (!child_indicator_bits_->readBit(pos)))
+    if ((labels_->read(pos) == kTerminator)
+	&& (!child_indicator_bits_->readBit(pos))
+	&& !isEndofNode(pos))
 	return suffixes_->checkEquality(getSuffixPos(pos), key, level + 1);
     return false;
 }
-- 
2.43.0


From 37e75da0b3d6ff41fb2d243e8ad52da360c50271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 19/23] fix: approxCount read past the end of the bitvectors
 and miscounted keys

---
 include/louds_dense.hpp  | 120 +++++++++++-------------------------
 include/louds_sparse.hpp | 127 ++++++++-------------------------------
 2 files changed, 60 insertions(+), 187 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 28b482b..d424396 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -148,8 +148,9 @@ private:
     bool compareSuffixGreaterThan(const position_t pos, const std::string& key, 
 				  const level_t level, const bool inclusive, 
 				  LoudsDense::Iter& iter) const;
-    void extendPosList(std::vector<position_t>& pos_list,
-		       position_t& out_node_num) const;
+    // number of set bits before pos
+    position_t rankBefore(const BitvectorRank* bits, const position_t pos) const;
+    uint64_t countLeavesBefore(const LoudsDense::Iter* iter, position_t& out_node_num) const;
 
 private:
     static const position_t kNodeFanout = 256;
@@ -275,98 +276,47 @@ bool LoudsDense::moveToKeyGreaterThan(const std::string& key,
     return true;
 }
 
-void LoudsDense::extendPosList(std::vector<position_t>& pos_list,
-			       position_t& out_node_num) const {
+position_t LoudsDense::rankBefore(const BitvectorRank* bits, const position_t pos) const {
+    return (pos == 0) ? 0 : bits->rank(pos - 1);
+}
+
+// Adds up, for every level, the leaves at smaller positions than the keys that are
+// not less than the iter's key; the leaves of the levels above are included each time.
+uint64_t LoudsDense::countLeavesBefore(const LoudsDense::Iter* iter,
+				       position_t& out_node_num) const {
+    uint64_t count = 0;
     position_t node_num = 0;
-    position_t pos = pos_list[pos_list.size() - 1];
-    for (level_t i = pos_list.size(); i < height_; i++) {
-	node_num = getChildNodeNum(pos);
-	if (!child_indicator_bitmaps_->readBit(pos))
-	    node_num++;
-	pos = (node_num * kNodeFanout);
-	if (pos > level_cuts_[i]) {
-	    pos = kMaxPos;
-	    pos_list.push_back(pos);
-	    break;
+    for (level_t level = 0; level < height_; level++) {
+	position_t pos = node_num * kNodeFanout;
+	position_t num_prefix_nodes = node_num;
+	if (level < iter->key_len_) {
+	    pos = iter->pos_in_trie_[level];
+	    num_prefix_nodes = (pos / kNodeFanout) + 1;
+	    if (iter->is_at_prefix_key_ && level == iter->key_len_ - 1) {
+		pos = (pos / kNodeFanout) * kNodeFanout;
+		num_prefix_nodes--;
+	    }
 	}
-	pos_list.push_back(pos);
-    }
-    if (pos == kMaxPos) {
-	for (level_t i = pos_list.size(); i < height_; i++)
-	    pos_list.push_back(pos);
-	out_node_num = pos;
-    } else {
-	out_node_num = getChildNodeNum(pos);
-	if (!child_indicator_bitmaps_->readBit(pos))
-	    out_node_num++;
+	position_t num_children = rankBefore(child_indicator_bitmaps_, pos);
+	count += rankBefore(label_bitmaps_, pos) - num_children
+	    + rankBefore(prefixkey_indicator_bits_, num_prefix_nodes);
+	node_num = num_children + 1;
     }
+    out_node_num = (height_ == 0) ? 0 : node_num;
+    return count;
 }
 
 uint64_t LoudsDense::approxCount(const LoudsDense::Iter* iter_left,
 				 const LoudsDense::Iter* iter_right,
 				 position_t& out_node_num_left,
 				 position_t& out_node_num_right) const {
-    std::vector<position_t> left_pos_list, right_pos_list;
-    for (level_t i = 0; i < iter_left->key_len_; i++)
-	left_pos_list.push_back(iter_left->pos_in_trie_[i]);
-    level_t ori_left_len = left_pos_list.size();
-    extendPosList(left_pos_list, out_node_num_left);
-    
-    for (level_t i = 0; i < iter_right->key_len_; i++)
-	right_pos_list.push_back(iter_right->pos_in_trie_[i]);
-    level_t ori_right_len = right_pos_list.size();
-    extendPosList(right_pos_list, out_node_num_right);
-
-    uint64_t count = 0;
-    for (level_t i = 0; i < height_; i++) {
-	position_t left_pos = left_pos_list[i];
-	if (left_pos == kMaxPos) break;
-	if (i == (ori_left_len - 1) && iter_left->is_at_prefix_key_)
-	    left_pos = (left_pos / kNodeFanout) * kNodeFanout;
-	position_t right_pos = right_pos_list[i];
-	if (right_pos == kMaxPos)
-	    right_pos = level_cuts_[i];
-	if (i == (ori_right_len - 1) && iter_right->is_at_prefix_key_)
-	    right_pos = (right_pos / kNodeFanout) * kNodeFanout;
-	//assert(left_pos <= right_pos);
-	if (left_pos < right_pos) {
-	    if (i >= ori_left_len)
-		left_pos = getNextPos(left_pos);
-	    if (i >= ori_right_len && right_pos != level_cuts_[height_ - 1])
-		right_pos = getNextPos(right_pos);
-	    bool has_prefix_key_left
-		= prefixkey_indicator_bits_->readBit(left_pos / kNodeFanout);
-	    bool has_prefix_key_right
-		= prefixkey_indicator_bits_->readBit(right_pos / kNodeFanout);
-	    position_t rank_left_label = label_bitmaps_->rank(left_pos);
-	    position_t rank_right_label = label_bitmaps_->rank(right_pos);
-	    if (right_pos == level_cuts_[height_ - 1])
-		rank_right_label++;
-	    position_t rank_left_ind = child_indicator_bitmaps_->rank(left_pos);
-	    position_t rank_right_ind = child_indicator_bitmaps_->rank(right_pos);
-	    position_t rank_left_prefix
-		= prefixkey_indicator_bits_->rank(left_pos / kNodeFanout);
-	    position_t rank_right_prefix
-		= prefixkey_indicator_bits_->rank(right_pos / kNodeFanout);
-	    position_t num_leafs = (rank_right_label - rank_left_label)
-		- (rank_right_ind - rank_left_ind)
-		+ (rank_right_prefix - rank_left_prefix);
-	    // offcount in child_indicators
-	    if (child_indicator_bitmaps_->readBit(right_pos))
-		num_leafs++;
-	    if (child_indicator_bitmaps_->readBit(left_pos))
-		num_leafs--;
-	    // offcount in prefix keys
-	    if (i >= ori_right_len && has_prefix_key_right)
-		num_leafs--;
-	    if (i >= ori_left_len && has_prefix_key_left)
-		num_leafs++;
-	    if (iter_left->is_search_complete_ && (i == ori_left_len - 1))
-		num_leafs--;
-	    count += num_leafs;
-	}
-    }
-    return count;
+    uint64_t count_left = countLeavesBefore(iter_left, out_node_num_left);
+    uint64_t count_right = countLeavesBefore(iter_right, out_node_num_right);
+    if (count_right <= count_left) return 0;
+    // do not count the left key itself
+    if (iter_left->isComplete())
+	count_left++;
+    return count_right - count_left;
 }
 
 uint64_t LoudsDense::serializedSize() const {
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index a52e21c..65b8c70 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -149,13 +149,8 @@ private:
 				  const level_t level, const bool inclusive, 
 				  LoudsSparse::Iter& iter) const;
 
-    position_t appendToPosList(std::vector<position_t>& pos_list,
-			       const position_t node_num, const level_t level,
-			       const bool isLeft, bool& done) const;
-    void extendPosList(std::vector<position_t>& left_pos_list,
-		       std::vector<position_t>& right_pos_list,
-		       const position_t left_in_node_num,
-		       const position_t right_in_node_num) const;
+    uint64_t countLeavesBefore(const LoudsSparse::Iter* iter,
+			       const position_t in_node_num) const;
 
 private:
     static const position_t kRankBasicBlockSize = 512;
@@ -296,108 +291,36 @@ bool LoudsSparse::moveToKeyGreaterThan(const std::string& key,
     return true;
 }
 
-position_t LoudsSparse::appendToPosList(std::vector<position_t>& pos_list,
-					const position_t node_num,
-					const level_t level,
-					const bool isLeft, bool& done) const {
-    position_t pos = getFirstLabelPos(node_num);
-    if (pos > level_cuts_[start_level_ + level]) {
-	pos = kMaxPos;
-	if (isLeft) {
-	    pos_list.push_back(pos);
-	} else {
-	    for (level_t j = 0; j < (height_ - level) - 1; j++)
-		pos_list.push_back(pos);
-	}
-	done = true;
-    }
-    pos_list.push_back(pos);
-    return pos;
-}
-
-void LoudsSparse::extendPosList(std::vector<position_t>& left_pos_list,
-				std::vector<position_t>& right_pos_list,
-				const position_t left_in_node_num,
-				const position_t right_in_node_num) const {
-    position_t left_node_num = 0, right_node_num = 0, left_pos = 0, right_pos = 0;
-    bool left_done = false, right_done = false;
-    level_t start_depth = left_pos_list.size();
-    if (start_depth > right_pos_list.size())
-	start_depth = right_pos_list.size();
-    if (start_depth == 0) {
-	if (left_pos_list.size() == 0)
-	    left_pos = appendToPosList(left_pos_list, left_in_node_num,
-				       0, true, left_done);
-	if (right_pos_list.size() == 0)
-	    right_pos = appendToPosList(right_pos_list, right_in_node_num,
-					0, false, right_done);
-	start_depth++;
-    }
-
-    left_pos = left_pos_list[left_pos_list.size() - 1];
-    right_pos = right_pos_list[right_pos_list.size() - 1];
-    for (level_t i = start_depth; i < (height_ - start_level_); i++) {
-	if (left_pos == right_pos) break;
-	if (!left_done && left_pos_list.size() <= i) {
-	    left_node_num = getChildNodeNum(left_pos);
-	    if (!child_indicator_bits_->readBit(left_pos))
-		left_node_num++;
-	    left_pos = appendToPosList(left_pos_list, left_node_num,
-				       i, true, left_done);
-	}
-	if (!right_done && right_pos_list.size() <= i) {
-	    right_node_num = getChildNodeNum(right_pos);
-	    if (!child_indicator_bits_->readBit(right_pos))
-		right_node_num++;
-	    right_pos = appendToPosList(right_pos_list, right_node_num,
-					i, false, right_done);
-	}
+// Adds up, for every level, the leaves at smaller positions than the keys that are
+// not less than the iter's key; the leaves of the levels above are included each time.
+uint64_t LoudsSparse::countLeavesBefore(const LoudsSparse::Iter* iter,
+					const position_t in_node_num) const {
+    uint64_t count = 0;
+    position_t node_num = in_node_num;
+    for (level_t level = 0; level < height_ - start_level_; level++) {
+	position_t pos = louds_bits_->numBits();
+	if (iter->isValid() && level < iter->key_len_)
+	    pos = iter->pos_in_trie_[level];
+	else if (node_num - node_count_dense_ < louds_bits_->numOnes())
+	    pos = getFirstLabelPos(node_num);
+	position_t num_children = (pos == 0) ? 0 : child_indicator_bits_->rank(pos - 1);
+	count += pos - num_children;
+	node_num = child_count_dense_ + num_children + 1;
     }
+    return count;
 }
 
 uint64_t LoudsSparse::approxCount(const LoudsSparse::Iter* iter_left,
 				  const LoudsSparse::Iter* iter_right,
 				  const position_t in_node_num_left,
 				  const position_t in_node_num_right) const {
-    if (in_node_num_left == kMaxPos) return 0;
-    std::vector<position_t> left_pos_list, right_pos_list;
-    for (level_t i = 0; i < iter_left->key_len_; i++)
-	left_pos_list.push_back(iter_left->pos_in_trie_[i]);
-    level_t ori_left_len = left_pos_list.size();
-    if (in_node_num_right == kMaxPos) {
-	for (level_t i = 0; i < (height_ - start_level_); i++)
-	    right_pos_list.push_back(kMaxPos);
-    } else {
-	for (level_t i = 0; i < iter_right->key_len_; i++)
-	    right_pos_list.push_back(iter_right->pos_in_trie_[i]);
-    }
-    extendPosList(left_pos_list, right_pos_list, in_node_num_left, in_node_num_right);
-
-    uint64_t count = 0;
-    level_t search_depth = left_pos_list.size();
-    if (search_depth > right_pos_list.size())
-	search_depth = right_pos_list.size();
-    for (level_t i = 0; i < search_depth; i++) {
-	position_t left_pos = left_pos_list[i];
-	if (left_pos == kMaxPos) break;
-	position_t right_pos = right_pos_list[i];
-	if (right_pos == kMaxPos)
-	    right_pos = level_cuts_[start_level_ + i] + 1;
-	//assert(left_pos <= right_pos);
-	if (left_pos < right_pos) {
-	    position_t rank_left = child_indicator_bits_->rank(left_pos);
-	    position_t rank_right = child_indicator_bits_->rank(right_pos);
-	    position_t num_leafs = (right_pos - left_pos) - (rank_right - rank_left);
-	    if (child_indicator_bits_->readBit(right_pos))
-		num_leafs++;
-	    if (child_indicator_bits_->readBit(left_pos))
-		num_leafs--;
-	    if (i == ori_left_len - 1)
-		num_leafs--;
-	    count += num_leafs;
-	}
-    }
-    return count;
+    uint64_t count_left = countLeavesBefore(iter_left, in_node_num_left);
+    uint64_t count_right = countLeavesBefore(iter_right, in_node_num_right);
+    if (count_right <= count_left) return 0;
+    // do not count the left key itself
+    if (iter_left->isValid())
+	count_left++;
+    return count_right - count_left;
 }
 
 uint64_t LoudsSparse::serializedSize() const {
-- 
2.43.0


From f342aeef3aaf8402415f401a7d7bdd89976337d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 20/23] fix: serialize left the alignment gaps of its output
 uninitialized

---
 include/surf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/surf.hpp b/include/surf.hpp
index 49fe05c..94496d6 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -98,7 +98,7 @@ public:
 
     char* serialize() const {
 	uint64_t size = serializedSize();
-	char* data = new char[size];
+	char* data = new char[size](); // alignment gaps are not written below
 	char* cur_data = data;
 	louds_dense_->serialize(cur_data);
 	louds_sparse_->serialize(cur_data);
-- 
2.43.0


From 5ddceafd03a49465fc0f880bdacde56c67b3f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:21 +0000
Subject: [PATCH 21/23] fix: constructMixedSuffix shifted by the word size for
 64 real suffix bits

---
 include/suffix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index 7cac947..284d3fc 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -68,7 +68,8 @@ public:
         word_t hash_suffix = constructHashSuffix(key, hash_len);
         word_t real_suffix = constructRealSuffix(key, real_level, real_len);
         word_t suffix = hash_suffix;
-        suffix <<= real_len;
+        if (real_len < kWordSize) // otherwise there are no hash bits
+            suffix <<= real_len;
         suffix |= real_suffix;
         return suffix;
     }
-- 
2.43.0


From 0da6da89873aed71aea7d1f5c04c6e862c3481e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 22/23] fix: checkEquality accepts every key when the suffix
 length is 0

---
 include/suffix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index 284d3fc..66fea9d 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -209,7 +209,7 @@ word_t BitvectorSuffix::readReal(const position_t idx) const {
 
 bool BitvectorSuffix::checkEquality(const position_t idx, 
 				    const std::string& key, const level_t level) const {
-    if (type_ == kNone) 
+    if (type_ == kNone || getSuffixLen() == 0)
 	return true;
     if (idx * getSuffixLen() >= num_bits_) 
 	return false;
-- 
2.43.0


From 0325e24c383243c57254acd7450ddced6fd57a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 23/23] fix: Iter::compare passed on std::string::compare
 values equal to kCouldBePositive

---
 include/louds_dense.hpp  | 2 +-
 include/louds_sparse.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index d424396..50de3b8 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -395,7 +395,7 @@ int LoudsDense::Iter::compare(const std::string& key) const {
     std::string iter_key = getKey();
     std::string key_dense = key.substr(0, iter_key.length());
     int compare = iter_key.compare(key_dense);
-    if (compare != 0) return compare;
+    if (compare != 0) return (compare < 0) ? -1 : 1; // never kCouldBePositive
     if (is_at_prefix_key_ && (key_len_ - 1) < key.length())
 	return -1;
     if (isComplete()) {
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 65b8c70..40c9972 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -412,8 +412,8 @@ int LoudsSparse::Iter::compare(const std::string& key) const {
     std::string key_sparse = key.substr(start_level_);
     std::string key_sparse_same_length = key_sparse.substr(0, iter_key.length());
     int compare = iter_key.compare(key_sparse_same_length);
-    if (compare != 0) 
-	return compare;
+    if (compare != 0)
+	return (compare < 0) ? -1 : 1; // never kCouldBePositive
     if (is_at_terminator_ && (key_len_ - 1) < (key.length() - start_level_))
 	return -1;
     position_t suffix_pos = trie_->getSuffixPos(pos_in_trie_[key_len_ - 1]);
-- 
2.43.0

