=== fn align
--- spec
requires *old(ptr) <= 0xffff_ffff_ffff,
ensures *final(ptr) == up8(*old(ptr) as int),
--- body-start
proof { reveal(up8); let x = (*ptr + 7) as u64; assert(x & 0xffff_ffff_ffff_fff8u64 == x / 8 * 8) by (bit_vector); }

=== fn sizeAlign_u32
--- spec
requires *old(size) <= 0xffff_fff0,
ensures *final(size) == up8(*old(size) as int),
--- body-start
proof { reveal(up8); let x = (*size + 7) as u32; assert(x & 0xffff_fff8u32 == x / 8 * 8) by (bit_vector); }

=== fn sizeAlign_u64
--- spec
requires *old(size) <= 0xffff_ffff_ffff,
ensures *final(size) == up8(*old(size) as int),
--- body-start
proof { reveal(up8); let x = (*size + 7) as u64; assert(x & 0xffff_ffff_ffff_fff8u64 == x / 8 * 8) by (bit_vector); }

=== fn uint64ToString
--- spec
ensures r.b@ =~= be_bytes(word),
    forall|w: u64| (#[trigger] lexlt(r.b@, be_bytes(w))) == (word < w),
--- body-start
broadcast use lemma_bswap_bytes;
proof { assert forall|w: u64| (#[trigger] lexlt(be_bytes(word), be_bytes(w))) == (word < w) by { lemma_be_order(word, w); } }

=== fn stringToUint64
--- spec
requires str_word.b@.len() >= 8,
ensures forall|w: u64| str_word.b@.subrange(0, 8) =~= #[trigger] be_bytes(w) ==> r == w,
--- body-start
proof {
    broadcast use lemma_bswap_bytes;
    assert forall|w: u64| str_word.b@.subrange(0, 8) =~= #[trigger] be_bytes(w) implies bswap(le64(str_word.b@, 0)) == w by {
        assert forall|i: int| 0 <= i < 8 implies #[trigger] str_word.b@[i] == byte_of(bswap(w), i) by {
            assert(str_word.b@.subrange(0, 8)[i] == be_bytes(w)[i]);
        }
        lemma_le64_bytes(str_word.b@, bswap(w));
        lemma_bswap2(w);
    }
}
