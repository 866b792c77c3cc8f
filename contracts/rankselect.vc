=== mod BitvectorRank
impl BitvectorRank {
    pub open spec fn at(&self, i: int) -> bool { self.base.at(i) }
    pub open spec fn n(&self) -> int { self.base.num_bits_ as int }
    /// set bits among the first i
    pub open spec fn cnt(&self, i: int) -> int { cnt(self.base.bits(), i) }
    pub open spec fn wf(&self) -> bool {
        &&& self.base.wf()
        &&& rank_block(self.basic_block_size_)
        &&& self.rank_lut_@.len() == self.base.num_bits_ / self.basic_block_size_ + 1
        &&& forall|k: int| 0 <= k < self.rank_lut_@.len() ==> #[trigger] self.rank_lut_@[k] == cnt(self.base.bits(), k * self.basic_block_size_)
    }
}
impl BitvectorRank {
    /// size of its image in memory, the image at p, equal contents
    pub open spec fn raw(&self) -> int { (8 + 8 * self.base.bits_@.len() + 4 * self.rank_lut_@.len()) as int }
    #[verifier::opaque] pub open spec fn isz(&self) -> int { up8(self.raw()) }
    #[verifier::opaque] pub open spec fn img(&self, m: Seq<u8>, p: int) -> bool {
        &&& at32(m, p, self.base.num_bits_) && at32(m, p + 4, self.basic_block_size_)
        &&& at64s(m, p + 8, self.base.bits_@)
        &&& at32s(m, p + 8 + 8 * self.base.bits_@.len(), self.rank_lut_@)
        &&& blank(m, p + self.raw(), p + self.isz())
    }
    #[verifier::opaque] pub open spec fn same(&self, o: &BitvectorRank) -> bool {
        self.base.num_bits_ == o.base.num_bits_ && self.base.bits_@ =~= o.base.bits_@ && self.basic_block_size_ == o.basic_block_size_ && self.rank_lut_@ =~= o.rank_lut_@
    }
    pub broadcast proof fn lemma_img_else(&self, m: Seq<u8>, w: Seq<u8>, q: int, n: int, p: int)
        requires #[trigger] same_outside(w, m, q, n), p + self.isz() <= q || q + n <= p, #[trigger] self.img(m, p), 0 <= p, 0 <= n,
        ensures self.img(w, p),
    {
        broadcast use lemma_up8;
        reveal(BitvectorRank::isz); reveal(BitvectorRank::img); reveal(BitvectorRank::same);
        broadcast use elsewhere;
    }
    pub proof fn lemma_img_one(&self, o: &BitvectorRank, m: Seq<u8>, w: Seq<u8>, p: int)
        requires self.same(o), self.img(m, p), o.img(w, p),
        ensures agree(m, w, p, p + self.isz()), self.isz() == o.isz(),
    {
        broadcast use lemma_up8;
        reveal(BitvectorRank::isz); reveal(BitvectorRank::img); reveal(BitvectorRank::same);
        broadcast use one;
        let x = self.base.bits_@.len();
        lemma_agree_join(m, w, p, p + 4, p + 8);
        lemma_agree_join(m, w, p, p + 8, p + 8 + 8 * x);
        lemma_agree_join(m, w, p, p + 8 + 8 * x, p + self.raw());
        lemma_agree_join(m, w, p, p + self.raw(), p + self.isz());
    }
    pub broadcast proof fn lemma_pos(&self)
        ensures #[trigger] self.isz() >= 0,
    {
        broadcast use lemma_up8;
        reveal(BitvectorRank::isz);
    }
    pub proof fn lemma_isz(&self)
        requires self.wf(),
        ensures 0 <= self.isz(), al8(self.isz()), 16 * self.isz() <= 3 * self.base.num_bits_ + 800,
    {
        broadcast use lemma_up8;
        reveal(BitvectorRank::isz);
        lemma_rank_block(self.basic_block_size_, self.base.num_bits_);
    }
    pub proof fn lemma_same(&self, o: &BitvectorRank)
        requires self.same(o), o.wf(),
        ensures self.wf(), self.base.bits() == o.base.bits(), self.base.num_bits_ == o.base.num_bits_, forall|i: int| #![trigger self.base.at(i)] #![trigger self.at(i)] self.at(i) == o.at(i) && self.base.at(i) == o.base.at(i),
    {
        reveal(BitvectorRank::same);
    }
}

=== fn BitvectorRank::new_0
--- spec
ensures r.base.wf(), r.base.num_bits_ == 0,

=== fn BitvectorRank::new_5
--- spec
requires
    rank_block(basic_block_size),
    levels_ok(bitvector_per_level@, num_bits_per_level@, start_level as int, if end_level == 0 { bitvector_per_level@.len() as int } else { end_level as int }),
    bitvector_per_level@.len() <= 0x7fff_ffff,
ensures r.wf(),
    ({
        let e = if end_level == 0 { bitvector_per_level@.len() as int } else { end_level as int };
        &&& r.n() == usum(num_bits_per_level@, start_level as int, e)
        &&& forall|i: int| 0 <= i < r.n() ==> #[trigger] r.at(i) == catbit(bitvector_per_level@, num_bits_per_level@, start_level as int, e, i)
    }),

=== fn BitvectorRank::rank
--- spec
requires self.wf(), pos < self.n(),
ensures r == self.cnt(pos + 1), 0 <= r <= pos + 1,
--- body-start
broadcast use word_arith;
proof {
    lemma_rank_block(self.basic_block_size_, pos);
    lemma_cnt_bounds(self.base.bits(), pos + 1);
    lemma_cnt_bounds(self.base.bits(), (pos as int / self.basic_block_size_ as int) * self.basic_block_size_);
}

=== fn BitvectorRank::rankLutSize
--- spec
requires self.base.num_bits_ <= 0xff00_0000, rank_block(self.basic_block_size_),
ensures r == 4 * (self.base.num_bits_ / self.basic_block_size_ + 1),
--- body-start
proof { lemma_rank_block(self.basic_block_size_, self.base.num_bits_); }

=== fn BitvectorRank::initRankLut
--- spec
requires old(self).base.wf(), rank_block(old(self).basic_block_size_),
ensures final(self).base == old(self).base, final(self).basic_block_size_ == old(self).basic_block_size_, final(self).wf(),
--- body-start
broadcast use word_arith;
let ghost b = self.basic_block_size_ as int;
proof { lemma_rank_block(self.basic_block_size_, self.base.num_bits_); }
--- loop 1
invariant
    self.base == old(self).base, self.basic_block_size_ == old(self).basic_block_size_, b == self.basic_block_size_,
    self.base.wf(), rank_block(self.basic_block_size_), word_per_basic_block == b / 64,
    num_blocks == self.base.num_bits_ as int / b + 1, self.rank_lut_@.len() == num_blocks, i < num_blocks,
    self.base.num_bits_ as int / b <= self.base.num_bits_,
    cumu_rank == cnt(self.base.bits(), i * b),
    forall|k: int| 0 <= k < i ==> #[trigger] self.rank_lut_@[k] == cnt(self.base.bits(), k * b),
decreases num_blocks - i,
--- loop 1 start
proof {
    lemma_rank_block_step(self.basic_block_size_, self.base.num_bits_, i as int);
    lemma_cnt_mono(self.base.bits(), i * b, (i + 1) * b);
    lemma_cnt_bounds(self.base.bits(), (i + 1) * b);
}

=== mod BitvectorSelect
impl BitvectorSelect {
    pub open spec fn at(&self, i: int) -> bool { self.base.at(i) }
    pub open spec fn n(&self) -> int { self.base.num_bits_ as int }
    pub open spec fn cnt(&self, i: int) -> int { cnt(self.base.bits(), i) }
    pub open spec fn wf(&self) -> bool {
        &&& self.base.wf()
        &&& 1 <= self.sample_interval_ <= 0x10000
        &&& self.num_ones_ == cnt(self.base.bits(), self.base.num_bits_ as int)
        &&& self.select_lut_@.len() == self.num_ones_ / self.sample_interval_ + 1
        &&& self.select_lut_@[0] == 0
        &&& self.lut_ok(self.select_lut_@)
    }
    pub open spec fn lut_ok(&self, lut: Seq<u32>) -> bool {
        forall|k: int| 1 <= k < lut.len() ==> nth_one(self.base.bits(), #[trigger] lut[k] as int, k * self.sample_interval_, self.base.num_bits_ as int)
    }
}
/// p < n is the position of the k-th set bit
pub open spec fn nth_one(s: Seq<bool>, p: int, k: int, n: int) -> bool {
    0 <= p < n && s[p] && cnt(s, p + 1) == k
}
impl BitvectorSelect {
    /// small enough for its size to fit
    pub open spec fn fits(&self) -> bool { self.base.num_bits_ <= 0x1fff_0000 }
    /// size of its image in memory, the image at p, equal contents
    pub open spec fn raw(&self) -> int { (12 + 8 * self.base.bits_@.len() + 4 * self.select_lut_@.len()) as int }
    #[verifier::opaque] pub open spec fn isz(&self) -> int { up8(self.raw()) }
    #[verifier::opaque] pub open spec fn img(&self, m: Seq<u8>, p: int) -> bool {
        &&& at32(m, p, self.base.num_bits_) && at32(m, p + 4, self.sample_interval_) && at32(m, p + 8, self.num_ones_)
        &&& at64s(m, p + 12, self.base.bits_@)
        &&& at32s(m, p + 12 + 8 * self.base.bits_@.len(), self.select_lut_@)
        &&& blank(m, p + self.raw(), p + self.isz())
    }
    #[verifier::opaque] pub open spec fn same(&self, o: &BitvectorSelect) -> bool {
        self.base.num_bits_ == o.base.num_bits_ && self.base.bits_@ =~= o.base.bits_@ && self.sample_interval_ == o.sample_interval_ && self.num_ones_ == o.num_ones_ && self.select_lut_@ =~= o.select_lut_@
    }
    pub broadcast proof fn lemma_img_else(&self, m: Seq<u8>, w: Seq<u8>, q: int, n: int, p: int)
        requires #[trigger] same_outside(w, m, q, n), p + self.isz() <= q || q + n <= p, #[trigger] self.img(m, p), 0 <= p, 0 <= n,
        ensures self.img(w, p),
    {
        broadcast use lemma_up8;
        reveal(BitvectorSelect::isz); reveal(BitvectorSelect::img); reveal(BitvectorSelect::same);
        broadcast use elsewhere;
    }
    pub proof fn lemma_img_one(&self, o: &BitvectorSelect, m: Seq<u8>, w: Seq<u8>, p: int)
        requires self.same(o), self.img(m, p), o.img(w, p),
        ensures agree(m, w, p, p + self.isz()), self.isz() == o.isz(),
    {
        broadcast use lemma_up8;
        reveal(BitvectorSelect::isz); reveal(BitvectorSelect::img); reveal(BitvectorSelect::same);
        broadcast use one;
        let x = self.base.bits_@.len();
        lemma_agree_join(m, w, p, p + 4, p + 8);
        lemma_agree_join(m, w, p, p + 8, p + 12);
        lemma_agree_join(m, w, p, p + 12, p + 12 + 8 * x);
        lemma_agree_join(m, w, p, p + 12 + 8 * x, p + self.raw());
        lemma_agree_join(m, w, p, p + self.raw(), p + self.isz());
    }
    pub broadcast proof fn lemma_pos(&self)
        ensures #[trigger] self.isz() >= 0,
    {
        broadcast use lemma_up8;
        reveal(BitvectorSelect::isz);
    }
    pub proof fn lemma_isz(&self)
        requires self.wf(), self.fits(),
        ensures 0 <= self.isz(), al8(self.isz()), self.isz() <= 5 * self.base.num_bits_ + 100,
    {
        broadcast use lemma_up8;
        reveal(BitvectorSelect::isz);
        lemma_cnt_bounds(self.base.bits(), self.base.num_bits_ as int); lemma_div_le(self.num_ones_ as int, self.sample_interval_ as int);
    }
    pub proof fn lemma_same(&self, o: &BitvectorSelect)
        requires self.same(o), o.wf(),
        ensures self.wf(), self.base.bits() == o.base.bits(), self.base.num_bits_ == o.base.num_bits_, forall|i: int| #![trigger self.base.at(i)] #![trigger self.at(i)] self.at(i) == o.at(i) && self.base.at(i) == o.base.at(i),
    {
        reveal(BitvectorSelect::same);
    }
}

=== fn BitvectorSelect::new_0
--- spec
ensures r.base.wf(), r.base.num_bits_ == 0,

=== fn BitvectorSelect::new_5
--- spec
requires
    1 <= sample_interval <= 0x10000,
    levels_ok(bitvector_per_level@, num_bits_per_level@, start_level as int, if end_level == 0 { bitvector_per_level@.len() as int } else { end_level as int }),
    bitvector_per_level@.len() <= 0x7fff_ffff,
ensures r.wf(),
    ({
        let e = if end_level == 0 { bitvector_per_level@.len() as int } else { end_level as int };
        &&& r.n() == usum(num_bits_per_level@, start_level as int, e)
        &&& forall|i: int| 0 <= i < r.n() ==> #[trigger] r.at(i) == catbit(bitvector_per_level@, num_bits_per_level@, start_level as int, e, i)
    }),

=== fn BitvectorSelect::numOnes
--- spec
ensures r == self.num_ones_,

=== fn BitvectorSelect::selectLutSize
--- spec
requires self.num_ones_ <= 0x3fff_0000, 1 <= self.sample_interval_,
ensures r == 4 * (self.num_ones_ / self.sample_interval_ + 1),
--- body-start
proof { lemma_div_le(self.num_ones_ as int, self.sample_interval_ as int); }

=== fn BitvectorSelect::select
--- spec
requires self.wf(), 1 <= rank <= self.num_ones_, self.at(0),
ensures r < self.n(), self.at(r as int), self.cnt(r + 1) == rank,
--- body-start
broadcast use {word_arith, word_bits};
proof {
    lemma_cnt_bounds(self.base.bits(), self.n());
    lemma_lut_index(rank as int, self.num_ones_ as int, self.sample_interval_ as int);
    assert(cnt(self.base.bits(), 1) == 1) by { assert(cnt(self.base.bits(), 0) == 0); }
}
--- before loop 1
let ghost mut off = offset as int;
proof {
    let p = pos as int;
    assert(nth_one(self.base.bits(), p, rank - rank_left, self.n()));
    assert(64 * word_id + off == p + 1);
    if p + 1 >= self.n() { lemma_cnt_mono(self.base.bits(), self.n(), p + 1); }
    lemma_masked(self.base.bits_@[word_id as int], offset as u64);
    lemma_wcount_bounds(word, 64);
    lemma_cnt_word(self.base.bits_@, word_id as int, off);
    lemma_cnt_word(self.base.bits_@, word_id as int, 64);
}
--- loop 1
invariant
    self.wf(), 1 <= rank <= self.num_ones_,
    self.num_ones_ == cnt(self.base.bits(), self.n()),
    word_id < self.base.bits_@.len(), 0 <= off < 64,
    forall|i: int| 0 <= i < 64 ==> #[trigger] bit(word, i) == (i >= off && bit(self.base.bits_@[word_id as int], i)),
    forall|i: int| off <= i <= 64 ==> #[trigger] wcount(word, i) == wcount(self.base.bits_@[word_id as int], i) - wcount(self.base.bits_@[word_id as int], off),
    ones_count_in_word == wcount(word, 64), ones_count_in_word <= 64,
    1 <= rank_left <= rank,
    cnt(self.base.bits(), 64 * word_id + off) + rank_left == rank,
decreases self.base.bits_@.len() - word_id,
--- loop 1 start
proof {
    lemma_cnt_word(self.base.bits_@, word_id as int, off);
    lemma_cnt_word(self.base.bits_@, word_id as int, 64);
    if 64 * word_id + 64 >= self.n() { lemma_cnt_mono(self.base.bits(), self.n(), 64 * word_id + 64); }
    off = 0;
}
--- loop 1 end
proof {
    lemma_wcount_bounds(word, 64);
}
--- after loop 1
proof {
    let w = self.base.bits_@[word_id as int];
    assert forall|j: int| 0 <= j < 64 && #[trigger] bit(word, j) && wcount(word, j + 1) == rank_left implies
        wbit(self.base.bits_@, 64 * word_id + j) && cnt(self.base.bits(), 64 * word_id + j + 1) == rank && 64 * word_id + j < self.n() by {
        lemma_wbit(self.base.bits_@, word_id as int, j);
        lemma_cnt_word(self.base.bits_@, word_id as int, j + 1);
        lemma_cnt_word(self.base.bits_@, word_id as int, off);
        if 64 * word_id + j >= self.n() { assert(!wbit(self.base.bits_@, 64 * word_id + j)); }
    }
}

=== fn BitvectorSelect::initSelectLut
--- spec
requires old(self).base.wf(), 1 <= old(self).sample_interval_ <= 0x10000,
ensures final(self).base == old(self).base, final(self).sample_interval_ == old(self).sample_interval_, final(self).wf(),
--- body-start
broadcast use {word_arith, word_bits};
let ghost s = self.base.bits();
let ghost v = self.sample_interval_ as int;
let ghost n = self.n();
let ghost ws = self.base.bits_@;
--- loop 1
invariant
    self.base == old(self).base, self.sample_interval_ == old(self).sample_interval_, self.base.wf(),
    s == self.base.bits(), v == self.sample_interval_, n == self.n(), ws == self.base.bits_@, 1 <= v <= 0x10000,
    num_words == ws.len(), i <= num_words,
    cumu_ones_upto_word == cnt(s, 64 * i), cumu_ones_upto_word <= 64 * i,
    select_lut_vector@.len() >= 1, select_lut_vector@.len() <= cumu_ones_upto_word + 1,
    sampling_ones == v * select_lut_vector@.len(), cumu_ones_upto_word < sampling_ones <= cumu_ones_upto_word + v,
    select_lut_vector@[0] == 0, self.lut_ok(select_lut_vector@),
decreases num_words - i,
--- loop 1 start
proof {
    lemma_cnt_word(ws, i as int, 64);
    lemma_wcount_bounds(ws[i as int], 64);
}
--- loop 2
invariant
    self.base == old(self).base, self.sample_interval_ == old(self).sample_interval_, self.base.wf(),
    s == self.base.bits(), v == self.sample_interval_, n == self.n(), ws == self.base.bits_@, 1 <= v <= 0x10000,
    num_words == ws.len(), i < num_words,
    cumu_ones_upto_word == cnt(s, 64 * i), cumu_ones_upto_word <= 64 * i,
    num_ones_in_word == wcount(ws[i as int], 64), num_ones_in_word <= 64,
    cnt(s, 64 * i + 64) == cumu_ones_upto_word + num_ones_in_word,
    select_lut_vector@.len() >= 1, select_lut_vector@.len() <= cumu_ones_upto_word + num_ones_in_word + 1,
    sampling_ones == v * select_lut_vector@.len(), cumu_ones_upto_word < sampling_ones <= cumu_ones_upto_word + num_ones_in_word + v,
    select_lut_vector@[0] == 0, self.lut_ok(select_lut_vector@),
decreases cumu_ones_upto_word + num_ones_in_word + v - sampling_ones,
--- loop 2 start
let ghost lut0 = select_lut_vector@;
proof {
    lemma_mul_inc(v, lut0.len() as int);
    assert(sampling_ones >= lut0.len()) by (nonlinear_arith) requires sampling_ones == v * lut0.len(), v >= 1;
    assert forall|j: int| 0 <= j < 64 && bit(ws[i as int], j) && wcount(ws[i as int], j + 1) == sampling_ones - cumu_ones_upto_word implies
        #[trigger] nth_one(s, 64 * i + j, sampling_ones as int, n) by {
        lemma_wbit(ws, i as int, j);
        lemma_cnt_word(ws, i as int, j + 1);
        if 64 * i + j >= n { assert(!wbit(ws, 64 * i + j)); }
    }
}
--- loop 2 end
proof {
    assert(select_lut_vector@ == lut0.push(select_lut_vector@.last()));
    let kk = lut0.len() as int;
    assert(kk * v == v * kk) by (nonlinear_arith);
    assert(nth_one(s, select_lut_vector@[kk] as int, kk * v, n));
    assert forall|k: int| 1 <= k < select_lut_vector@.len() implies nth_one(s, #[trigger] select_lut_vector@[k] as int, k * v, n) by {
        if k < kk { assert(select_lut_vector@[k] == lut0[k]); }
    }
}
--- after loop 1
proof {
    lemma_cnt_none(s, n, 64 * ws.len() as int);
    lemma_lut_len(cumu_ones_upto_word as int, v, select_lut_vector@.len() as int);
}
--- loop 3
invariant
    self.base == old(self).base, self.sample_interval_ == old(self).sample_interval_, self.num_ones_ == cumu_ones_upto_word,
    num_samples == select_lut_vector@.len(), self.select_lut_@.len() == num_samples, i <= num_samples,
    forall|k: int| 0 <= k < i ==> #[trigger] self.select_lut_@[k] == select_lut_vector@[k],
decreases num_samples - i,
--- after loop 3
proof { assert(self.select_lut_@ =~= select_lut_vector@); }

=== fn BitvectorRank::serializedSize
--- spec
requires self.wf(),
ensures r == self.isz(),
--- body-start
proof { reveal(BitvectorRank::isz); lemma_rank_block(self.basic_block_size_, self.base.num_bits_); }

=== fn BitvectorRank::serialize
--- spec
requires self.wf(), al8(*old(dst) as int), *old(dst) + self.isz() <= 0xffff_ffff_0000, blank(old(dst_mem)@, *old(dst) as int, *old(dst) + self.isz()),
ensures *final(dst) == *old(dst) + self.isz(), self.img(final(dst_mem)@, *old(dst) as int), same_outside(final(dst_mem)@, old(dst_mem)@, *old(dst) as int, self.isz()),
--- body-start
proof { broadcast use lemma_up8; lemma_up8_add(*dst as int, self.raw()); }
proof { reveal(BitvectorRank::isz); reveal(BitvectorRank::img); }
broadcast use elsewhere;
proof { lemma_blank_sub(dst_mem@, *dst as int, *dst + self.isz(), *dst + self.raw(), *dst + self.isz()); }
--- body-end
proof { assert(same_outside(dst_mem@, old(dst_mem)@, *old(dst) as int, self.isz())) by { reveal(same_outside); } }

=== fn BitvectorRank::deSerialize
--- ghost
gr: BitvectorRank
--- spec
requires gr.wf(), al8(*old(src) as int), *old(src) + gr.isz() <= 0xffff_ffff_0000, gr.img(src_mem@, *old(src) as int),
ensures *final(src) == *old(src) + gr.isz(), r.same(&gr),
--- body-start
proof { broadcast use lemma_up8; lemma_up8_add(*src as int, gr.raw()); }
broadcast use stored_in;
proof { reveal(BitvectorRank::isz); reveal(BitvectorRank::img); reveal(BitvectorRank::same); }

=== fn BitvectorSelect::serializedSize
--- spec
requires self.wf(), self.fits(),
ensures r == self.isz(),
--- body-start
proof { reveal(BitvectorSelect::isz); }
proof { lemma_cnt_bounds(self.base.bits(), self.base.num_bits_ as int); lemma_div_le(self.num_ones_ as int, self.sample_interval_ as int); }

=== fn BitvectorSelect::serialize
--- spec
requires self.wf(), self.fits(), al8(*old(dst) as int), *old(dst) + self.isz() <= 0xffff_ffff_0000, blank(old(dst_mem)@, *old(dst) as int, *old(dst) + self.isz()),
ensures *final(dst) == *old(dst) + self.isz(), self.img(final(dst_mem)@, *old(dst) as int), same_outside(final(dst_mem)@, old(dst_mem)@, *old(dst) as int, self.isz()),
--- body-start
proof { broadcast use lemma_up8; lemma_up8_add(*dst as int, self.raw()); }
proof { reveal(BitvectorSelect::isz); reveal(BitvectorSelect::img); }
broadcast use elsewhere;
proof { lemma_cnt_bounds(self.base.bits(), self.base.num_bits_ as int); lemma_div_le(self.num_ones_ as int, self.sample_interval_ as int); }
proof { lemma_blank_sub(dst_mem@, *dst as int, *dst + self.isz(), *dst + self.raw(), *dst + self.isz()); }
--- body-end
proof { assert(same_outside(dst_mem@, old(dst_mem)@, *old(dst) as int, self.isz())) by { reveal(same_outside); } }

=== fn BitvectorSelect::deSerialize
--- ghost
gl: BitvectorSelect
--- spec
requires gl.wf(), gl.fits(), al8(*old(src) as int), *old(src) + gl.isz() <= 0xffff_ffff_0000, gl.img(src_mem@, *old(src) as int),
ensures *final(src) == *old(src) + gl.isz(), r.same(&gl),
--- body-start
proof { broadcast use lemma_up8; lemma_up8_add(*src as int, gl.raw()); }
broadcast use stored_in;
proof { reveal(BitvectorSelect::isz); reveal(BitvectorSelect::img); reveal(BitvectorSelect::same); }
proof { lemma_cnt_bounds(gl.base.bits(), gl.base.num_bits_ as int); lemma_div_le(gl.num_ones_ as int, gl.sample_interval_ as int); }

=== fn BitvectorRank::size
--- spec
requires self.base.num_bits_ <= 0xff00_0000, rank_block(self.basic_block_size_),

=== fn BitvectorRank::prefetch
--- spec

=== fn BitvectorSelect::size
--- spec
requires self.wf(), self.fits(),
--- body-start
proof { lemma_cnt_bounds(self.base.bits(), self.base.num_bits_ as int); }
