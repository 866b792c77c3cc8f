=== mod Bitvector
impl Bitvector {
    pub open spec fn wf(&self) -> bool {
        &&& self.num_bits_ <= 0xff00_0000
        &&& self.bits_@.len() == (self.num_bits_ + 63) / 64
        &&& forall|i: int| self.num_bits_ <= i < 64 * self.bits_@.len() ==> !#[trigger] wbit(self.bits_@, i)
    }
    pub open spec fn n(&self) -> int { self.num_bits_ as int }
    pub open spec fn at(&self, i: int) -> bool { wbit(self.bits_@, i) }
    pub open spec fn bits(&self) -> Seq<bool> { wseq(self.bits_@) }
}

=== fn Bitvector::new_0
--- spec
ensures r.wf(), r.num_bits_ == 0,

=== fn Bitvector::numBits
--- spec
ensures r == self.num_bits_,

=== fn Bitvector::numWords
--- spec
ensures r == (self.num_bits_ + 63) / 64,
--- body-start
broadcast use word_arith;

=== fn Bitvector::bitsSize
--- spec
ensures r == 8 * ((self.num_bits_ + 63) / 64),

=== fn Bitvector::size
--- spec
ensures true,

=== fn Bitvector::new_4
--- spec
requires
    levels_ok(bitvector_per_level@, num_bits_per_level@, start_level as int, if end_level == 0 { bitvector_per_level@.len() as int } else { end_level as int }),
    bitvector_per_level@.len() <= 0x7fff_ffff,
ensures r.wf(),
    ({
        let e = if end_level == 0 { bitvector_per_level@.len() as int } else { end_level as int };
        &&& r.num_bits_ == usum(num_bits_per_level@, start_level as int, e)
        &&& forall|i: int| 0 <= i < r.num_bits_ ==> #[trigger] r.at(i) == catbit(bitvector_per_level@, num_bits_per_level@, start_level as int, e, i)
    }),
--- before call concatenateBitvectors 1
proof {
    broadcast use b_zero;
    assert forall|i: int| 0 <= i < 64 * this.bits_@.len() implies !#[trigger] wbit(this.bits_@, i) by {
        assert(this.bits_@[i / 64] == 0);
    }
}

=== fn Bitvector::totalNumBits
--- spec
requires
    start_level <= end_level <= num_bits_per_level@.len(),
    usum(num_bits_per_level@, start_level as int, end_level as int) <= 0xff00_0000,
ensures r == usum(num_bits_per_level@, start_level as int, end_level as int),
--- loop 1
invariant start_level <= level <= end_level <= num_bits_per_level@.len(),
    usum(num_bits_per_level@, start_level as int, end_level as int) <= 0xff00_0000,
    num_bits == usum(num_bits_per_level@, start_level as int, level as int),
decreases end_level - level,
--- loop 1 start
proof { lemma_usum_mono(num_bits_per_level@, start_level as int, level + 1, end_level as int); }

=== fn Bitvector::concatenateBitvectors
--- spec
requires
    levels_ok(bitvector_per_level@, num_bits_per_level@, start_level as int, end_level as int),
    old(self).bits_@.len() == (usum(num_bits_per_level@, start_level as int, end_level as int) + 63) / 64,
    forall|i: int| 0 <= i < 64 * old(self).bits_@.len() ==> !#[trigger] wbit(old(self).bits_@, i),
ensures
    final(self).num_bits_ == old(self).num_bits_,
    final(self).bits_@.len() == old(self).bits_@.len(),
    forall|i: int| 0 <= i < 64 * final(self).bits_@.len() ==> #[trigger] wbit(final(self).bits_@, i) ==
        (i < usum(num_bits_per_level@, start_level as int, end_level as int)
         && catbit(bitvector_per_level@, num_bits_per_level@, start_level as int, end_level as int, i)),
--- body-start
broadcast use {word_arith, word_bits};
let ghost bv = bitvector_per_level@;
let ghost nb = num_bits_per_level@;
let ghost s = start_level as int;
let ghost e = end_level as int;
let ghost n0 = self.bits_@.len();
--- loop 1
invariant
    bv == bitvector_per_level@, nb == num_bits_per_level@, s == start_level, e == end_level,
    levels_ok(bv, nb, s, e), n0 == (usum(nb, s, e) + 63) / 64,
    s <= level <= e, self.bits_@.len() == n0, self.num_bits_ == old(self).num_bits_,
    bit_shift < 64, 64 * word_id + bit_shift == usum(nb, s, level as int),
    forall|i: int| 0 <= i < 64 * n0 ==> #[trigger] wbit(self.bits_@, i) ==
        (i < usum(nb, s, level as int) && catbit(bv, nb, s, level as int, i)),
decreases e - level,
--- loop 1 start
broadcast use {word_arith, word_bits};
let ghost p0 = usum(nb, s, level as int);
let ghost lw = bv[level as int]@;
let ghost n = nb[level as int] as int;
let ghost b0 = self.bits_@;
let ghost p3 = p0 + 64 * (n / 64);
proof {
    lemma_usum_mono(nb, s, level + 1, e);
    assert(level_ok(bv[level as int]@, n));
}
--- loop 2
invariant
    bv == bitvector_per_level@, nb == num_bits_per_level@, s == start_level, e == end_level,
    s <= level < e, levels_ok(bv, nb, s, e),
    lw == bv[level as int]@, n == nb[level as int], n <= 64 * lw.len(),
    n0 == (usum(nb, s, e) + 63) / 64, p0 + n <= usum(nb, s, e), usum(nb, s, e) <= 0xff00_0000,
    self.bits_@.len() == n0, self.num_bits_ == old(self).num_bits_,
    num_complete_words == n / 64, word <= num_complete_words, bit_shift < 64,
    0 <= p0, 64 * word_id + bit_shift == p0 + 64 * word,
    forall|i: int| 0 <= i < 64 * n0 ==> #[trigger] wbit(self.bits_@, i) ==
        (if i < p0 { wbit(b0, i) } else { i < p0 + 64 * word && wbit(lw, i - p0) }),
decreases num_complete_words - word,
--- loop 2 start
broadcast use {word_arith, word_bits};
let ghost w1 = self.bits_@;
let ghost p = p0 + 64 * word;
let ghost wid = word_id as int;
proof {
    assert(p / 64 == wid && p % 64 == bit_shift);
    assert forall|i: int| p <= i < 64 * n0 implies !#[trigger] wbit(w1, i) by {}
    lemma_blit1(w1, p, lw[word as int]);
}
let ghost w2 = w1.update(wid, w1[wid] | (lw[word as int] >> (bit_shift as u64)));
proof {
    if bit_shift > 0 { lemma_blit2(w2, p, lw[word as int]); }
}
--- loop 2 end
proof {
    assert forall|i: int| 0 <= i < 64 * n0 implies #[trigger] wbit(self.bits_@, i) ==
        (if i < p0 { wbit(b0, i) } else { i < p + 64 && wbit(lw, i - p0) }) by {
        if p <= i < p + 64 {
            lemma_wbit(lw, word as int, i - p);
            
        }
    }
}
--- after loop 2
let ghost w3 = self.bits_@;
let ghost x3 = if n % 64 > 0 { lw[n / 64] } else { 0 };
proof {
    if n % 64 > 0 {
        assert(p3 / 64 == word_id && p3 % 64 == bit_shift);
        lemma_blit1(w3, p3, x3);
        let w4 = w3.update(word_id as int, w3[word_id as int] | (x3 >> (bit_shift as u64)));
        if bit_shift + n % 64 > 64 { lemma_blit2(w4, p3, x3); }
        assert forall|j: int| n % 64 <= j < 64 implies !#[trigger] bit(x3, j) by {
            lemma_wbit(lw, n / 64, j);
        }
        assert forall|i: int| p3 <= i < p0 + n implies #[trigger] bit(x3, i - p3) == wbit(lw, i - p0) by {
            lemma_wbit(lw, n / 64, i - p3);
        }
    }
}
--- loop 1 end
proof {
    if n % 64 == 0 { assert(p3 == p0 + n); }
    assert(usum(nb, s, level + 1) == p0 + n);
    assert forall|i: int| 0 <= i < 64 * n0 implies #[trigger] wbit(self.bits_@, i) ==
        (i < p0 + n && catbit(bv, nb, s, level + 1, i)) by {
        assert(catbit(bv, nb, s, level + 1, i) == if i < p0 { catbit(bv, nb, s, level as int, i) } else { wbit(lw, i - p0) });
        if i < p0 { }
        else if i < p3 { }
        else if i < p0 + n { }
    }
}

=== fn Bitvector::readBit
--- spec
requires self.wf(), pos < self.num_bits_,
ensures r == self.at(pos as int),
--- body-start
broadcast use word_arith;

=== fn Bitvector::distanceToNextSetBit
--- spec
requires self.wf(), pos < self.num_bits_,
ensures 1 <= r <= self.num_bits_ - pos,
    forall|i: int| pos < i < pos + r ==> !#[trigger] self.at(i),
    pos + r < self.num_bits_ ==> self.at(pos + r),
--- body-start
broadcast use {word_arith, word_bits};
proof { lemma_word_at(self.bits_@, (pos + 1) / 64); }
--- loop 1
invariant self.wf(), pos < self.num_bits_, word_id < (self.num_bits_ + 63) / 64,
    distance == 64 * (word_id + 1) - pos, 64 * (word_id + 1) > pos,
    forall|i: int| pos < i < 64 * (word_id + 1) ==> !#[trigger] self.at(i),
decreases self.num_bits_ - 64 * word_id,
--- loop 1 start
proof { lemma_word_at(self.bits_@, word_id + 1); }

=== fn Bitvector::distanceToPrevSetBit
--- spec
requires self.wf(), pos <= self.num_bits_,
ensures pos == 0 ==> r == 0,
    pos > 0 ==> 1 <= r <= pos + 1,
    forall|i: int| pos - r < i < pos && 0 <= i ==> !#[trigger] self.at(i),
    pos > 0 && r <= pos ==> self.at(pos - r),
--- body-start
broadcast use {word_arith, word_bits};
proof { lemma_word_at(self.bits_@, (pos - 1) / 64); }
--- loop 1
invariant self.wf(), 0 < pos <= self.num_bits_, 64 * word_id < pos,
    distance == pos - 64 * word_id + 1,
    forall|i: int| 64 * word_id <= i < pos ==> !#[trigger] self.at(i),
decreases word_id,
--- loop 1 start
proof { lemma_word_at(self.bits_@, word_id - 1); }
