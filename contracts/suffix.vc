=== mod BitvectorSuffix
impl BitvectorSuffix {
    pub open spec fn slen(&self) -> int { self.hash_suffix_len_ + self.real_suffix_len_ }
    pub open spec fn wf(&self) -> bool {
        &&& self.base.wf()
        &&& self.type_ <= 3
        &&& self.slen() <= 64
        &&& (self.type_ == 0 || self.slen() == 0 ==> self.base.num_bits_ == 0)
    }
    /// is there a suffix number i
    pub open spec fn has(&self, i: int) -> bool { self.type_ != 0 && i * self.slen() < self.base.num_bits_ }
    /// suffix number i, as stored
    pub open spec fn stored(&self, i: int) -> u64 {
        if self.has(i) { field(self.base.bits(), i * self.slen(), self.slen()) } else { 0 }
    }
    /// the stored bits are a whole number of suffixes
    pub open spec fn whole(&self) -> bool { self.slen() > 0 ==> self.base.num_bits_ as int % self.slen() == 0 }
}
impl BitvectorSuffix {
    /// size of its image in memory, the image at p, equal contents
    pub open spec fn raw(&self) -> int { (16 + 8 * self.base.bits_@.len()) as int }
    #[verifier::opaque] pub open spec fn isz(&self) -> int { up8(self.raw()) }
    #[verifier::opaque] pub open spec fn img(&self, m: Seq<u8>, p: int) -> bool {
        &&& at32(m, p, self.base.num_bits_) && at32(m, p + 4, self.type_) && at32(m, p + 8, self.hash_suffix_len_) && at32(m, p + 12, self.real_suffix_len_)
        &&& at64s(m, p + 16, self.base.bits_@)
        &&& blank(m, p + self.raw(), p + self.isz())
    }
    #[verifier::opaque] pub open spec fn same(&self, o: &BitvectorSuffix) -> bool {
        self.base.num_bits_ == o.base.num_bits_ && self.base.bits_@ =~= o.base.bits_@ && self.type_ == o.type_ && self.hash_suffix_len_ == o.hash_suffix_len_ && self.real_suffix_len_ == o.real_suffix_len_
    }
    pub broadcast proof fn lemma_img_else(&self, m: Seq<u8>, w: Seq<u8>, q: int, n: int, p: int)
        requires #[trigger] same_outside(w, m, q, n), p + self.isz() <= q || q + n <= p, #[trigger] self.img(m, p), 0 <= p, 0 <= n,
        ensures self.img(w, p),
    {
        broadcast use lemma_up8;
        reveal(BitvectorSuffix::isz); reveal(BitvectorSuffix::img); reveal(BitvectorSuffix::same);
        broadcast use elsewhere;
    }
    pub proof fn lemma_img_one(&self, o: &BitvectorSuffix, m: Seq<u8>, w: Seq<u8>, p: int)
        requires self.same(o), self.img(m, p), o.img(w, p),
        ensures agree(m, w, p, p + self.isz()), self.isz() == o.isz(),
    {
        broadcast use lemma_up8;
        reveal(BitvectorSuffix::isz); reveal(BitvectorSuffix::img); reveal(BitvectorSuffix::same);
        broadcast use one;
        lemma_agree_join(m, w, p, p + 4, p + 8);
        lemma_agree_join(m, w, p, p + 8, p + 12);
        lemma_agree_join(m, w, p, p + 12, p + 16);
        lemma_agree_join(m, w, p, p + 16, p + self.raw());
        lemma_agree_join(m, w, p, p + self.raw(), p + self.isz());
    }
    pub broadcast proof fn lemma_pos(&self)
        ensures #[trigger] self.isz() >= 0,
    {
        broadcast use lemma_up8;
        reveal(BitvectorSuffix::isz);
    }
    pub proof fn lemma_isz(&self)
        requires self.wf(),
        ensures 0 <= self.isz(), al8(self.isz()), 8 * self.isz() <= self.base.num_bits_ + 800,
    {
        broadcast use lemma_up8;
        reveal(BitvectorSuffix::isz);
        
    }
    pub proof fn lemma_same(&self, o: &BitvectorSuffix)
        requires self.same(o), o.wf(),
        ensures self.wf(), self.base.bits() == o.base.bits(), self.base.num_bits_ == o.base.num_bits_, self.slen() == o.slen(), self.whole() == o.whole(), forall|i: int| #[trigger] self.stored(i) == o.stored(i), self.type_ == o.type_, self.hash_suffix_len_ == o.hash_suffix_len_, self.real_suffix_len_ == o.real_suffix_len_,
    {
        reveal(BitvectorSuffix::same);
    }
}

=== fn BitvectorSuffix::new_0
--- spec
ensures r.wf(), r.type_ == 0, r.slen() == 0, r.base.num_bits_ == 0,

=== fn BitvectorSuffix::new_7
--- spec
requires
    levels_ok(bitvector_per_level@, num_bits_per_level@, start_level as int, if end_level == 0 { bitvector_per_level@.len() as int } else { end_level as int }),
    bitvector_per_level@.len() <= 0x7fff_ffff,
    hash_suffix_len + real_suffix_len <= 64, type_ <= 3,
    (type_ == 0 || hash_suffix_len + real_suffix_len == 0 ==> usum(num_bits_per_level@, start_level as int, if end_level == 0 { bitvector_per_level@.len() as int } else { end_level as int }) == 0),
ensures r.wf(), r.type_ == type_, r.hash_suffix_len_ == hash_suffix_len, r.real_suffix_len_ == real_suffix_len,
    ({
        let e = if end_level == 0 { bitvector_per_level@.len() as int } else { end_level as int };
        &&& r.base.num_bits_ == usum(num_bits_per_level@, start_level as int, e)
        &&& forall|i: int| 0 <= i < r.base.num_bits_ ==> #[trigger] r.base.at(i) == catbit(bitvector_per_level@, num_bits_per_level@, start_level as int, e, i)
    }),

=== fn BitvectorSuffix::constructHashSuffix
--- spec
requires key.b@.len() <= 0x7fff_ffff,
ensures r == hash_suffix(key.b@, len as int),

=== fn BitvectorSuffix::extractRealSuffix
--- spec
ensures r == low_bits(suffix, real_suffix_len as int),
--- body-start
proof { if real_suffix_len < 64 { lemma_low_mask(suffix, real_suffix_len as u64); } }

=== fn BitvectorSuffix::extractHashSuffix
--- spec
requires real_suffix_len < 64,
ensures r == suffix >> (real_suffix_len as u64),

=== fn BitvectorSuffix::constructRealSuffix
--- spec
requires key.b@.len() <= 0x7fff_ffff, len <= 64,
ensures r == real_suffix(key.b@, level as int, len as int),
--- body-start
broadcast use word_bits, b_byte, lemma_field_b;
proof {
    let nb = len as int / 8;
    let off = len as int % 8;
    assert(is_field(0, kseq(key.b@), 8 * level, 0));
    assert(0u64 << 8 == 0) by (bit_vector);
    if level <= key.b@.len() && (key.b@.len() - level) * 8 >= len {
        if len >= 8 { lemma_field_byte(0, key.b@, level as int, 0); }
        assert forall|v: u64| #[trigger] is_field(v, kseq(key.b@), 8 * level, 8 * nb) && off > 0 implies
            is_field(((v << (off as u64)) + ((key.b@[level + nb] as u64) >> ((8 - off) as u64))) as u64, kseq(key.b@), 8 * level, len as int)
            && (v << (off as u64)) + ((key.b@[level + nb] as u64) >> ((8 - off) as u64)) <= 0xffff_ffff_ffff_ffff
            by { lemma_field_bits(v, key.b@, level as int, nb, off); }
    }
}
--- loop 1
invariant key.b@.len() <= 0x7fff_ffff, len <= 64, level <= key.b@.len(), (key.b@.len() - level) * 8 >= len,
    num_complete_bytes == len / 8, 1 <= i <= num_complete_bytes,
    is_field(suffix, kseq(key.b@), 8 * level, 8 * i),
decreases num_complete_bytes - i,
--- loop 1 start
proof { lemma_field_byte(suffix, key.b@, level as int, i as int); }

=== fn BitvectorSuffix::constructMixedSuffix
--- spec
requires key.b@.len() <= 0x7fff_ffff, real_len <= 64,
ensures r == mixed_suffix(key.b@, hash_len as int, real_level as int, real_len as int),

=== fn BitvectorSuffix::constructSuffix
--- spec
requires key.b@.len() <= 0x7fff_ffff, hash_len + real_len <= 64,
ensures r == suffix_of(type_ as int, key.b@, hash_len as int, real_level as int, real_len as int),

=== fn BitvectorSuffix::getType
--- spec
ensures r == self.type_,

=== fn BitvectorSuffix::getSuffixLen
--- spec
requires self.slen() <= 64,
ensures r == self.slen(),

=== fn BitvectorSuffix::getHashSuffixLen
--- spec
ensures r == self.hash_suffix_len_,

=== fn BitvectorSuffix::getRealSuffixLen
--- spec
ensures r == self.real_suffix_len_,

=== fn BitvectorSuffix::size
--- spec
ensures true,

=== fn BitvectorSuffix::read
--- spec
requires self.wf(), self.whole(), idx < 0x400_0000,
ensures r == self.stored(idx as int),
--- body-start
broadcast use word_arith, word_bits;
proof {
    let s = self.slen();
    let p = idx * s;
    assert(0 <= p <= 64 * idx) by (nonlinear_arith) requires 0 <= s <= 64, p == idx * s;
    if self.has(idx as int) {
        lemma_whole(self.base.num_bits_ as int, idx as int, s);
        assert((idx + 1) * s == p + s) by (nonlinear_arith) requires p == idx * s;
        lemma_read_field(self.base.bits_@, p, s);
    }
}

=== fn BitvectorSuffix::readReal
--- spec
requires self.wf(), self.whole(), idx < 0x400_0000,
ensures r == low_bits(self.stored(idx as int), self.real_suffix_len_ as int),

=== fn BitvectorSuffix::checkEquality
--- spec
requires self.wf(), self.whole(), idx < 0x400_0000, key.b@.len() <= 0x7fff_ffff,
ensures r == (self.type_ == 0 || self.slen() == 0 || (self.has(idx as int) && suffix_matches(self.type_ as int, self.stored(idx as int), key.b@,
    self.hash_suffix_len_ as int, level as int, self.real_suffix_len_ as int))),
--- body-start
proof { let s = self.slen(); assert(0 <= idx * s <= 64 * idx) by (nonlinear_arith) requires 0 <= s <= 64; }

=== fn BitvectorSuffix::compare
--- spec
requires self.wf(), self.whole(), idx < 0x400_0000, key.b@.len() <= 0x7fff_ffff,
ensures
    r == if !self.has(idx as int) || self.type_ == 1 { 2018 } else {
        real_cmp(if self.type_ == 3 { low_bits(self.stored(idx as int), self.real_suffix_len_ as int) } else { self.stored(idx as int) },
            key.b@, level as int, self.real_suffix_len_ as int) },
--- body-start
proof { let s = self.slen(); assert(0 <= idx * s <= 64 * idx) by (nonlinear_arith) requires 0 <= s <= 64; }

=== fn BitvectorSuffix::serializedSize
--- spec
requires self.wf(),
ensures r == self.isz(),
--- body-start
proof { reveal(BitvectorSuffix::isz); }

=== fn BitvectorSuffix::serialize
--- spec
requires self.wf(), al8(*old(dst) as int), *old(dst) + self.isz() <= 0xffff_ffff_0000, blank(old(dst_mem)@, *old(dst) as int, *old(dst) + self.isz()),
ensures *final(dst) == *old(dst) + self.isz(), self.img(final(dst_mem)@, *old(dst) as int), same_outside(final(dst_mem)@, old(dst_mem)@, *old(dst) as int, self.isz()),
--- body-start
proof { broadcast use lemma_up8; lemma_up8_add(*dst as int, self.raw()); }
proof { reveal(BitvectorSuffix::isz); reveal(BitvectorSuffix::img); }
broadcast use elsewhere;
proof { lemma_blank_sub(dst_mem@, *dst as int, *dst + self.isz(), *dst + self.raw(), *dst + self.isz()); }
--- body-end
proof { assert(at64s(dst_mem@, *old(dst) + 16, self.base.bits_@)) by { if self.type_ == 0 { reveal(at64s); } } assert(same_outside(dst_mem@, old(dst_mem)@, *old(dst) as int, self.isz())) by { reveal(same_outside); } }

=== fn BitvectorSuffix::deSerialize
--- ghost
gx: BitvectorSuffix
--- spec
requires gx.wf(), al8(*old(src) as int), *old(src) + gx.isz() <= 0xffff_ffff_0000, gx.img(src_mem@, *old(src) as int),
ensures *final(src) == *old(src) + gx.isz(), r.same(&gx),
--- body-start
proof { broadcast use lemma_up8; lemma_up8_add(*src as int, gx.raw()); }
broadcast use stored_in;
proof { reveal(BitvectorSuffix::isz); reveal(BitvectorSuffix::img); reveal(BitvectorSuffix::same); }
