=== mod LabelVector
impl LabelVector {
    pub open spec fn at(&self, i: int) -> u8 { self.labels_@[i] }
    pub open spec fn wf(&self) -> bool {
        &&& self.num_bytes_ <= 0x7fff_ffff
        &&& self.labels_@.len() == self.num_bytes_ + 16
    }
    /// first position after an optional leading terminator
    pub open spec fn run_start(&self, p: int, n: int) -> int { if n > 1 && self.at(p) == 255 { p + 1 } else { p } }
    /// n labels from p on: strictly ascending after the optional terminator
    pub open spec fn run(&self, p: int, n: int) -> bool {
        &&& 0 <= p && 1 <= n && p + n <= self.num_bytes_
        &&& self.asc(self.run_start(p, n), p + n)
    }
    pub open spec fn asc(&self, a: int, b: int) -> bool {
        forall|i: int, j: int| a <= i < j < b ==> #[trigger] self.at(i) < #[trigger] self.at(j)
    }
    pub open spec fn found(&self, t: u8, a: int, b: int, r: bool, q: int) -> bool {
        if r { a <= q < b && self.at(q) == t } else { forall|i: int| a <= i < b ==> #[trigger] self.at(i) != t }
    }
    pub open spec fn found_gt(&self, t: u8, a: int, b: int, r: bool, q: int) -> bool {
        if r { a <= q < b && self.at(q) > t && forall|i: int| a <= i < q ==> #[trigger] self.at(i) <= t }
        else { forall|i: int| a <= i < b ==> #[trigger] self.at(i) <= t }
    }
}
impl LabelVector {
    /// size of its image in memory, the image at p, equal contents
    pub open spec fn raw(&self) -> int { 4 + self.num_bytes_ }
    #[verifier::opaque] pub open spec fn isz(&self) -> int { up8(self.raw()) }
    #[verifier::opaque] pub open spec fn img(&self, m: Seq<u8>, p: int) -> bool {
        &&& at32(m, p, self.num_bytes_)
        &&& at8s(m, p + 4, self.labels_@, self.num_bytes_ as int)
        &&& blank(m, p + self.raw(), p + self.isz())
    }
    #[verifier::opaque] pub open spec fn same(&self, o: &LabelVector) -> bool {
        self.num_bytes_ == o.num_bytes_ && self.labels_@.len() == o.labels_@.len() && forall|i: int| 0 <= i < self.num_bytes_ ==> #[trigger] self.labels_@[i] == o.labels_@[i]
    }
    pub broadcast proof fn lemma_img_else(&self, m: Seq<u8>, w: Seq<u8>, q: int, n: int, p: int)
        requires #[trigger] same_outside(w, m, q, n), p + self.isz() <= q || q + n <= p, #[trigger] self.img(m, p), 0 <= p, 0 <= n,
        ensures self.img(w, p),
    {
        broadcast use lemma_up8;
        reveal(LabelVector::isz); reveal(LabelVector::img); reveal(LabelVector::same);
        broadcast use elsewhere;
    }
    pub proof fn lemma_img_one(&self, o: &LabelVector, m: Seq<u8>, w: Seq<u8>, p: int)
        requires self.same(o), self.img(m, p), o.img(w, p),
        ensures agree(m, w, p, p + self.isz()), self.isz() == o.isz(),
    {
        broadcast use lemma_up8;
        reveal(LabelVector::isz); reveal(LabelVector::img); reveal(LabelVector::same);
        broadcast use one;
        lemma_agree_join(m, w, p, p + 4, p + self.raw());
        lemma_agree_join(m, w, p, p + self.raw(), p + self.isz());
    }
    pub broadcast proof fn lemma_pos(&self)
        ensures #[trigger] self.isz() >= 0,
    {
        broadcast use lemma_up8;
        reveal(LabelVector::isz);
    }
    pub proof fn lemma_isz(&self)
        requires self.wf(),
        ensures 0 <= self.isz(), al8(self.isz()), self.isz() <= self.num_bytes_ + 20,
    {
        broadcast use lemma_up8;
        reveal(LabelVector::isz);
        
    }
    pub proof fn lemma_same(&self, o: &LabelVector)
        requires self.same(o), o.wf(),
        ensures self.wf(), self.num_bytes_ == o.num_bytes_, forall|i: int| 0 <= i < self.num_bytes_ ==> #[trigger] self.at(i) == o.at(i),
    {
        reveal(LabelVector::same);
    }
}

=== fn LabelVector::new_0
--- spec
ensures r.num_bytes_ == 0,

=== fn LabelVector::new_3
--- spec
requires
    labels_per_level@.len() <= 0x7fff_ffff,
    ({ let e = if end_level == 0 { labels_per_level@.len() as int } else { end_level as int };
       start_level <= e <= labels_per_level@.len() && llen(labels_per_level@, start_level as int, e) < 0x7fff_ffff }),
ensures r.wf(),
    ({ let e = if end_level == 0 { labels_per_level@.len() as int } else { end_level as int };
       &&& r.num_bytes_ == llen(labels_per_level@, start_level as int, e) + 1
       &&& forall|i: int| 0 <= i < r.num_bytes_ - 1 ==> #[trigger] r.at(i) == catlab(labels_per_level@, start_level as int, e, i) }),
--- loop 1
invariant start_level <= level <= end_level <= labels_per_level@.len(),
    llen(labels_per_level@, start_level as int, end_level as int) < 0x7fff_ffff,
    this.num_bytes_ == llen(labels_per_level@, start_level as int, level as int) + 1,
decreases end_level - level,
--- loop 1 start
proof { lemma_llen_mono(labels_per_level@, start_level as int, level + 1, end_level as int); }
--- loop 2
invariant this.labels_@.len() == alloc_bytes, alloc_bytes == this.num_bytes_ + 16, i <= alloc_bytes,
    this.num_bytes_ <= 0x7fff_ffff, this.num_bytes_ == llen(labels_per_level@, start_level as int, end_level as int) + 1,
decreases alloc_bytes - i,
--- loop 3
invariant start_level <= level <= end_level <= labels_per_level@.len(),
    llen(labels_per_level@, start_level as int, end_level as int) < 0x7fff_ffff,
    this.num_bytes_ == llen(labels_per_level@, start_level as int, end_level as int) + 1,
    this.labels_@.len() == this.num_bytes_ + 16,
    pos == llen(labels_per_level@, start_level as int, level as int),
    forall|i: int| 0 <= i < pos ==> #[trigger] this.labels_@[i] == catlab(labels_per_level@, start_level as int, level as int, i),
decreases end_level - level,
--- loop 3 start
proof { lemma_llen_mono(labels_per_level@, start_level as int, level + 1, end_level as int); }
let ghost p0 = pos as int;
--- loop 4
invariant start_level <= level < end_level <= labels_per_level@.len(),
    llen(labels_per_level@, start_level as int, end_level as int) < 0x7fff_ffff,
    this.num_bytes_ == llen(labels_per_level@, start_level as int, end_level as int) + 1,
    this.labels_@.len() == this.num_bytes_ + 16,
    p0 == llen(labels_per_level@, start_level as int, level as int), 0 <= p0,
    p0 + labels_per_level@[level as int]@.len() <= llen(labels_per_level@, start_level as int, end_level as int),
    idx <= labels_per_level@[level as int]@.len(), pos == p0 + idx,
    forall|i: int| 0 <= i < pos ==> #[trigger] this.labels_@[i] ==
        if i < p0 { catlab(labels_per_level@, start_level as int, level as int, i) } else { labels_per_level@[level as int]@[i - p0] },
decreases labels_per_level@[level as int]@.len() - idx,

=== fn LabelVector::getNumBytes
--- spec
ensures r == self.num_bytes_,

=== fn LabelVector::read
--- spec
requires self.wf(), pos < self.num_bytes_,
ensures r == self.at(pos as int),

=== fn LabelVector::op_index
--- spec
requires self.wf(), pos < self.num_bytes_,
ensures r == self.at(pos as int),

=== fn LabelVector::search
--- spec
requires self.wf(), self.run(*old(pos) as int, search_len as int),
ensures self.found(target, self.run_start(*old(pos) as int, search_len as int), *old(pos) + search_len, r, *final(pos) as int),
    !r ==> *old(pos) <= *final(pos) <= *old(pos) + 1,

=== fn LabelVector::searchGreaterThan
--- spec
requires self.wf(), self.run(*old(pos) as int, search_len as int),
ensures self.found_gt(target, self.run_start(*old(pos) as int, search_len as int), *old(pos) + search_len, r, *final(pos) as int),

=== fn LabelVector::binarySearch
--- spec
requires self.wf(), *old(pos) + search_len <= self.num_bytes_, self.asc(*old(pos) as int, *old(pos) + search_len),
ensures self.found(target, *old(pos) as int, *old(pos) + search_len, r, *final(pos) as int), !r ==> *final(pos) == *old(pos),
--- body-start
broadcast use word_arith;
--- loop 1
invariant self.wf(), *pos == *old(pos), *pos + search_len <= self.num_bytes_, self.asc(*pos as int, *pos + search_len),
    *pos <= l, l <= r, r <= *pos + search_len,
    forall|i: int| *pos <= i < l ==> #[trigger] self.at(i) < target,
    forall|i: int| r <= i < *pos + search_len ==> #[trigger] self.at(i) > target,
decreases r - l,
--- loop 1 start
broadcast use word_arith;
proof { let mid = (l + r) / 2; assert(self.at(mid) == self.labels_@[mid]); }

=== fn LabelVector::simdSearch
--- spec
requires self.wf(), *old(pos) + search_len <= self.num_bytes_, search_len >= 1,
ensures self.found(target, *old(pos) as int, *old(pos) + search_len, r, *final(pos) as int), !r ==> *final(pos) == *old(pos),
--- body-start
broadcast use simd_bits;
--- loop 1
invariant self.wf(), *pos == *old(pos), *pos + search_len <= self.num_bytes_,
    num_labels_searched + num_labels_left == search_len,
    forall|i: int| *pos <= i < *pos + num_labels_searched ==> #[trigger] self.at(i) != target,
decreases num_labels_left,
--- loop 1 start
broadcast use simd_bits;
--- before if 1
proof {
    assert forall|i: int| 0 <= i < 32 implies #[trigger] mbit(check_bits as int, i) == (i < 16 && cmp@[i] >= 128) by { if i >= 16 { m_high(check_bits, i); } }
    lemma_cmp16(check_bits, cmp@, self.labels_@, *pos + num_labels_searched, target, 16);
}
--- if 2 then
proof { lemma_low_ones(num_labels_left); }
--- before if 3
proof {
    lemma_cmp16(check_bits, cmp@, self.labels_@, *pos + num_labels_searched, target, num_labels_left as int);
}

=== fn LabelVector::linearSearch
--- spec
requires self.wf(), *old(pos) + search_len <= self.num_bytes_,
ensures self.found(target, *old(pos) as int, *old(pos) + search_len, r, *final(pos) as int), !r ==> *final(pos) == *old(pos),
--- loop 1
invariant self.wf(), *pos == *old(pos), *pos + search_len <= self.num_bytes_, i <= search_len,
    forall|k: int| *pos <= k < *pos + i ==> #[trigger] self.at(k) != target,
decreases search_len - i,

=== fn LabelVector::binarySearchGreaterThan
--- spec
requires self.wf(), *old(pos) + search_len <= self.num_bytes_, search_len >= 1, self.asc(*old(pos) as int, *old(pos) + search_len),
ensures self.found_gt(target, *old(pos) as int, *old(pos) + search_len, r, *final(pos) as int),
--- body-start
broadcast use word_arith;
--- loop 1
invariant self.wf(), *pos == *old(pos), *pos + search_len <= self.num_bytes_, search_len >= 1, self.asc(*pos as int, *pos + search_len),
    *pos <= l, l <= r, r <= *pos + search_len,
    forall|i: int| *pos <= i < l ==> #[trigger] self.at(i) < target,
    forall|i: int| r <= i < *pos + search_len ==> #[trigger] self.at(i) > target,
decreases r - l,
--- loop 1 start
broadcast use word_arith;
proof { let mid = (l + r) / 2; assert(self.at(mid) == self.labels_@[mid]); assert(mid + 1 < *pos + search_len ==> self.at(mid + 1) > self.at(mid)); }

=== fn LabelVector::linearSearchGreaterThan
--- spec
requires self.wf(), *old(pos) + search_len <= self.num_bytes_,
ensures self.found_gt(target, *old(pos) as int, *old(pos) + search_len, r, *final(pos) as int),
--- loop 1
invariant self.wf(), *pos == *old(pos), *pos + search_len <= self.num_bytes_, i <= search_len,
    forall|k: int| *pos <= k < *pos + i ==> #[trigger] self.at(k) <= target,
decreases search_len - i,

=== fn LabelVector::serializedSize
--- spec
requires self.wf(),
ensures r == self.isz(),
--- body-start
proof { reveal(LabelVector::isz); }

=== fn LabelVector::serialize
--- spec
requires self.wf(), al8(*old(dst) as int), *old(dst) + self.isz() <= 0xffff_ffff_0000, blank(old(dst_mem)@, *old(dst) as int, *old(dst) + self.isz()),
ensures *final(dst) == *old(dst) + self.isz(), self.img(final(dst_mem)@, *old(dst) as int), same_outside(final(dst_mem)@, old(dst_mem)@, *old(dst) as int, self.isz()),
--- body-start
proof { broadcast use lemma_up8; lemma_up8_add(*dst as int, self.raw()); }
proof { reveal(LabelVector::isz); reveal(LabelVector::img); }
broadcast use elsewhere;
proof { lemma_blank_sub(dst_mem@, *dst as int, *dst + self.isz(), *dst + self.raw(), *dst + self.isz()); }
--- body-end
proof { assert(same_outside(dst_mem@, old(dst_mem)@, *old(dst) as int, self.isz())) by { reveal(same_outside); } }

=== fn LabelVector::deSerialize
--- ghost
gv: LabelVector
--- spec
requires gv.wf(), al8(*old(src) as int), *old(src) + gv.isz() <= 0xffff_ffff_0000, gv.img(src_mem@, *old(src) as int),
ensures *final(src) == *old(src) + gv.isz(), r.same(&gv),
--- body-start
proof { broadcast use lemma_up8; lemma_up8_add(*src as int, gv.raw()); }
broadcast use stored_in;
proof { reveal(at8s); }
proof { reveal(LabelVector::isz); reveal(LabelVector::img); reveal(LabelVector::same); }

=== fn LabelVector::size
--- spec
