=== fn popcountLinear
--- spec
requires nbits <= 0xffff_ffff, x <= 0xffff_ffff, nbits > 0 ==> x + (nbits + 63) / 64 <= bits@.len(),
ensures r == cnt(wseq(bits@), 64 * x as int + nbits) - cnt(wseq(bits@), 64 * x as int),
    0 <= r <= nbits,
--- body-start
broadcast use word_arith;
proof { lemma_cnt_mono(wseq(bits@), 64 * x as int, 64 * x as int + nbits as int); }
--- loop 1
invariant nbits > 0, nbits <= 0xffff_ffff, x <= 0xffff_ffff, x + (nbits + 63) / 64 <= bits@.len(),
    lastword == (nbits - 1) / 64, i <= lastword,
    p == cnt(wseq(bits@), 64 * (x + i)) - cnt(wseq(bits@), 64 * x as int), p <= 64 * i,
decreases lastword - i,
--- loop 1 start
proof {
    lemma_cnt_word(bits@, x + i, 64);
    lemma_wcount_bounds(bits@[x + i], 64);
}
--- after loop 1
proof {
    let m = ((nbits - 1) % 64) as int;
    lemma_cnt_word(bits@, x + lastword, m + 1);
    lemma_wcount_bounds(bits@[x + lastword], m + 1);
    lemma_wcount_shr(bits@[x + lastword], (63 - m) as u64);
    assert(64 * (x + lastword) + m + 1 == 64 * x + nbits);
}

=== fn select64_popcount_search
--- spec
requires 1 <= k <= wcount(x, 64),
ensures 0 <= r < 64, bit(x, r as int), wcount(x, r + 1) == k,
--- body-start
broadcast use word_bits;
proof { lemma_wcount_bounds(x, 64); }
let ghost x0 = x;
let ghost k0 = k;
proof { lemma_sh32(); }
--- loop 1
invariant
    1 <= k0 <= wcount(x0, 64), wcount(x0, 64) <= 64,
    testbits == 32 || testbits == 16 || testbits == 8 || testbits == 4 || testbits == 2 || testbits == 1 || testbits == 0,
    sel_window(x0, k0 as int, x, k as int, loc + 1, if testbits == 0 { 1 } else { 2 * testbits }),
decreases testbits,
--- loop 1 start
let ghost x1 = x;
let ghost k1 = k;
let ghost s = loc + 1;
proof {
    lemma_sh32();
    lemma_wcount_shr(x, testbits as u64);
    lemma_low_mask(x, testbits as u64);
    lemma_sel_step(x0, k0 as int, x, k as int, s, testbits as int);
}

=== fn select64
--- spec
requires 1 <= k <= wcount(x, 64),
ensures 0 <= r < 64, bit(x, r as int), wcount(x, r + 1) == k,

=== fn suxpopcount
--- spec
ensures r == wcount(x, 64),
--- body-start
proof { lemma_swar(x); lemma_swar_steps(x); }

=== fn select64_naive
--- spec
requires 1 <= k <= wcount(x, 64),
ensures 0 <= r < 64, bit(x, r as int), wcount(x, r + 1) == k,
--- attr
#[verifier::loop_isolation(false)]
--- body-start
let ghost k0 = k;
proof { lemma_wcount_bounds(x, 64); }
--- loop 1
invariant -1 <= i < 64, count == 62 - i, 1 <= k, k == k0 - wcount(x, count + 1), 1 <= k0 <= wcount(x, 64), wcount(x, 64) <= 64,
decreases i + 1,
--- loop 1 start
proof {
    lemma_wcount_bounds(x, count + 1);
    let j = (63 - i) as u64;
    let s = i as u64;
    assert(j == sub(63, s) && s < 64 ==> ((x & (0x8000_0000_0000_0000u64 >> j)) != 0) == ((x & (1u64 << s)) != 0)) by (bit_vector);
    assert(wcount(x, count + 2) == wcount(x, count + 1) + if bit(x, count + 1) { 1int } else { 0int });
    assert(bit(x, count + 1) == ((x & (1u64 << s)) != 0));
    lemma_wcount_mono(x, count + 2, 64);
}

=== fn select512
--- spec
requires 0 <= x, x + 8 <= bits@.len(), x <= 0x7fff_0000, 1 <= k <= 512,
ensures
    k <= cnt(wseq(bits@), 64 * (x + 8)) - cnt(wseq(bits@), 64 * x) ==> 0 <= r < 512 && wseq(bits@)[64 * x + r]
        && cnt(wseq(bits@), 64 * x + r + 1) - cnt(wseq(bits@), 64 * x) == k,
    k > cnt(wseq(bits@), 64 * (x + 8)) - cnt(wseq(bits@), 64 * x) ==> r == -1,
--- body-start
let ghost k0 = k;
let ghost sq = wseq(bits@);
let ghost base = cnt(sq, 64 * x as int);
proof { lemma_cnt_word1(bits@, x as int); }
--- loop 1
invariant 0 <= x, x + 8 <= bits@.len(), x <= 0x7fff_0000, 0 <= i <= 7, 1 <= k <= 512, pop == wcount(bits@[x + i], 64),
    sq == wseq(bits@), base == cnt(sq, 64 * x as int),
    k == k0 - (cnt(sq, 64 * (x + i)) - base),
decreases 7 - i,
--- loop 1 start
proof { lemma_cnt_word1(bits@, x + i); }
--- after loop 1
proof {
    lemma_cnt_word1(bits@, x + i);
    lemma_cnt_sel(bits@, x + i, k as int);
    lemma_cnt_mono(sq, 64 * (x + i + 1), 64 * (x + 8));
}

=== fn selectLinear
--- spec
requires x < length <= 0x3ff_ffff, x + length <= bits@.len(), 1 <= k <= 64 * (length - x),
ensures
    k <= cnt(wseq(bits@), 64 * (x + length)) - cnt(wseq(bits@), 64 * x) ==> 0 <= r < 64 * length && wseq(bits@)[64 * x + r]
        && cnt(wseq(bits@), 64 * x + r + 1) - cnt(wseq(bits@), 64 * x as int) == k,
    k > cnt(wseq(bits@), 64 * (x + length)) - cnt(wseq(bits@), 64 * x as int) ==> r == 0xffff_ffff_ffff_ffff,
--- body-start
let ghost k0 = k;
let ghost sq = wseq(bits@);
let ghost base = cnt(sq, 64 * x as int);
proof { lemma_cnt_word1(bits@, x as int); }
--- loop 1
invariant x + length <= bits@.len(), length <= 0x3ff_ffff, x < length, 0 <= i <= length - 1, 1 <= k <= 64 * length, pop == wcount(bits@[x + i], 64),
    sq == wseq(bits@), base == cnt(sq, 64 * x as int), 0 <= pop <= 64,
    k == k0 - (cnt(sq, 64 * (x + i)) - base),
decreases length - i,
--- loop 1 start
proof { lemma_cnt_word1(bits@, x + i); lemma_cnt_word1(bits@, x + i + 1); }
--- after loop 1
proof {
    lemma_cnt_word1(bits@, x + i);
    lemma_cnt_sel(bits@, x + i, k as int);
    lemma_cnt_mono(sq, 64 * (x + i + 1), 64 * (x + length));
}

=== fn select64_broadword
--- spec
requires 0 <= k < wcount(x, 64),
ensures 0 <= r < 64, bit(x, 63 - r), below_count(x, r as int) == k,
--- body-start
let ghost gb = (x >> bw_place(x, k as u64)) & 0xff;
let ghost gq = (k - bw_prev(x, k as u64)) as u64;
proof { lemma_wcount_bounds(x, 64); lemma_swar_steps(x); lemma_broadword(x, k as u64); lemma_bw_steps(x, k as u64); lemma_bw_byte(gb, gq); }
--- before return 1
proof {
    assert(byte_sums == bw_s(x));
    assert(residual_step_8 == mul(k as u64, ones()));
    assert(place == bw_place(x, k as u64));
    assert(byte_rank == gq);
    assert(spread_bits == spread8(gb));
    assert(bit_sums == mul(nonzero8(spread8(gb)), ones()));
    assert(byte_rank_step_8 == mul(gq, ones()));
}
