=== fn bench_rotl32
--- spec
requires 1 <= r_ <= 31,

=== fn bench_fmix32
--- spec
ensures true,

=== fn bench_MurmurHash3_x86_128
--- spec
requires key == 0, len >= 0, key_mem@.len() == len, out + 4 <= old(out_mem)@.len(), out_mem@.len() <= 0xffff,
ensures final(out_mem)@.len() == old(out_mem)@.len(),
--- body-start
proof { assert(0 <= len ==> 0 <= (len & 15i32) <= len && (len & 15i32) <= 15 && (len - (len & 15i32)) == (len & !15i32)) by (bit_vector);
    assert(0 <= len ==> (len & 15i32) as u32 == (len as u32) % 16u32) by (bit_vector); }
proof { l_small_shifts(); }
--- loop 1
invariant 0 <= nblocks, blocks == 16 * nblocks, 16 * nblocks <= len, key_mem@.len() == len, -nblocks <= i <= 0,
decreases -i,

=== fn bench_BloomHash_Str_u32
--- spec
requires key.b@.len() <= 0x7fff_ffff, out == 0, old(out_mem)@.len() == 4,
ensures final(out_mem)@.len() == 4,
--- deterministic
final(out_mem)@ == bhash(key.b@),

=== fn bench_BloomHash_u64_u32
--- spec
requires out == 0, old(out_mem)@.len() == 4,
ensures final(out_mem)@.len() == 4,
--- deterministic
final(out_mem)@ == ihash(key),

=== fn BloomFilter::new_1
--- spec
requires 1 <= bits_per_key,
ensures r.ok(),

=== mod BloomFilter
impl BloomFilter {
    pub open spec fn ok(&self) -> bool { 1 <= self.k_ <= 30 && 1 <= self.bits_per_key_ <= 0x7fff_ffff }
}


=== fn BloomFilter::KeyMayMatch_Str_Str
--- spec
requires key.b@.len() <= 0x7fff_ffff, bloom_filter.b@.len() <= 0x1fff_ffff_ffff_ffff,
ensures r == may_match(bloom_filter.b@, bhash(key.b@)),
--- body-start
let ghost f = bloom_filter.b@; let ghost hh = bhash(key.b@);
proof { reveal(probed); l_small_shifts(); }
--- loop 1
invariant k <= 30, k == probes(f), f == bloom_filter.b@, len == f.len(), 2 <= len <= 0x1fff_ffff_ffff_ffff, bits == (len - 1) * 8, array == 0, hh == bhash(key.b@), hh.len() == 4,
    delta == hh[1], j <= k, h as int == (hh[0] + j * hh[1]) % 0x1_0000_0000,
    forall|i: int| 0 <= i < j ==> lit_at(f, #[trigger] probe(hh, i, bits as int)),
decreases k - j,
--- loop 1 start
let ghost p = probe(hh, j as int, bits as int);
proof {
    reveal(probed);
    l_small_shifts();
    l_char_bit(f[p / 8], (p % 8) as u32);
    l_next_probe(hh[0] as int, j as int, hh[1] as int);
}
--- before if 3
proof {
    assert(bits > 0 && bitpos as int == p && 0 <= p < bits) by { assert(0 <= h as int % bits as int <= h) by (nonlinear_arith) requires bits > 0, h >= 0; }
    assert(p / 8 == bitpos / 8 && p % 8 == bitpos % 8 && p / 8 < len);
    assert((1i32 as u64) << ((bitpos % 8u32) as u64) <= 128);
}
--- after loop 1
proof { reveal(probed); }

=== fn BloomFilter::KeyMayMatch_u64_Str
--- spec
requires bloom_filter.b@.len() <= 0x1fff_ffff_ffff_ffff,
ensures r == may_match(bloom_filter.b@, ihash(key)),
--- body-start
let ghost f = bloom_filter.b@; let ghost hh = ihash(key);
proof { reveal(probed); l_small_shifts(); }
--- loop 1
invariant k <= 30, k == probes(f), f == bloom_filter.b@, len == f.len(), 2 <= len <= 0x1fff_ffff_ffff_ffff, bits == (len - 1) * 8, array == 0, hh == ihash(key), hh.len() == 4,
    delta == hh[1], j <= k, h as int == (hh[0] + j * hh[1]) % 0x1_0000_0000,
    forall|i: int| 0 <= i < j ==> lit_at(f, #[trigger] probe(hh, i, bits as int)),
decreases k - j,
--- loop 1 start
let ghost p = probe(hh, j as int, bits as int);
proof {
    reveal(probed);
    l_small_shifts();
    l_char_bit(f[p / 8], (p % 8) as u32);
    l_next_probe(hh[0] as int, j as int, hh[1] as int);
}
--- before if 3
proof {
    assert(bits > 0 && bitpos as int == p && 0 <= p < bits) by { assert(0 <= h as int % bits as int <= h) by (nonlinear_arith) requires bits > 0, h >= 0; }
    assert(p / 8 == bitpos / 8 && p % 8 == bitpos % 8 && p / 8 < len);
    assert((1i32 as u64) << ((bitpos % 8u32) as u64) <= 128);
}
--- after loop 1
proof { reveal(probed); }

=== fn BloomFilter::CreateFilter_Str_i32_Str
--- spec
requires self.ok(), n == keys@.len(), old(dst).b@.len() <= 0xffff_ffff_ffff, forall|i: int| 0 <= i < keys@.len() ==> #[trigger] keys@[i].b@.len() <= 0x7fff_ffff,
ensures old(dst).b@.len() + 9 <= final(dst).b@.len() <= 0x1fff_ffff_ffff_ffff, final(dst).b@.subrange(0, old(dst).b@.len() as int) == old(dst).b@,
    forall|i: int| 0 <= i < keys@.len() ==> may_match(final(dst).b@.subrange(old(dst).b@.len() as int, final(dst).b@.len() as int), #[trigger] bhash(keys@[i].b@)),
--- body-start
let ghost dst0 = dst.b@; let ghost k = self.k_ as int;
proof {
    l_small_shifts();
    assert(0 <= n as int * self.bits_per_key_ as int <= 0x7fff_ffff * 0x7fff_ffff) by (nonlinear_arith)
        requires 0 <= n <= 0x7fff_ffff, 0 <= self.bits_per_key_ <= 0x7fff_ffff;
}
--- before loop 1
let ghost keys0 = keys@;
let ghost w = bits as int; let ghost len = init_size + bytes + 1;
--- loop 1
invariant 0 <= i <= n, n == keys@.len(), keys@ == keys0, k == self.k_, 1 <= k <= 30, w == bits, bits == 8 * bytes, 8 <= bytes < 0x1000_0000_0000_0000, array == init_size, len == init_size + bytes + 1, init_size == dst0.len(),
    init_size <= 0xffff_ffff_ffff, forall|q: int| 0 <= q < keys0.len() ==> #[trigger] keys0[q].b@.len() <= 0x7fff_ffff, dst.b@.len() == len, dst.b@.subrange(0, init_size as int) == dst0, dst.b@.last() == k,
    forall|q: int| 0 <= q < i ==> probed(dst.b@.subrange(init_size as int, len as int), #[trigger] bhash(keys0[q].b@), w, k),
decreases n - i,
--- loop 1 start
let ghost hh = bhash(keys0[i as int].b@);
let ghost mut f = dst.b@.subrange(init_size as int, len as int);
--- before loop 2
proof { reveal(probed); }
--- loop 2
invariant 0 <= i < n, n == keys@.len(), keys@ == keys0, k == self.k_, 1 <= k <= 30, w == bits, bits == 8 * bytes, 8 <= bytes < 0x1000_0000_0000_0000, array == init_size, len == init_size + bytes + 1, init_size == dst0.len(),
    init_size <= 0xffff_ffff_ffff, dst.b@.len() == len, dst.b@.subrange(0, init_size as int) == dst0, dst.b@.last() == k,
    f == dst.b@.subrange(init_size as int, len as int),
    hh == bhash(keys0[i as int].b@), hh.len() == 4, delta == hh[1], j <= k, h as int == (hh[0] + j * hh[1]) % 0x1_0000_0000,
    forall|q: int| 0 <= q < i ==> probed(f, #[trigger] bhash(keys0[q].b@), w, k),
    probed(f, hh, w, j as int),
decreases k - j,
--- loop 2 start
let ghost p = probe(hh, j as int, w);
proof {
    l_small_shifts();
    l_probe_in(hh, j as int, w);
    l_next_probe(hh[0] as int, j as int, hh[1] as int);
    l_char_bit(f[p / 8], (p % 8) as u32);
    assert((1i32 as u64) << ((p % 8) as u64) <= 128);
}
let ghost b0 = dst.b@;
--- after assign bitpos 1
proof {
    assert(bits > 0 && bitpos as int == p && 0 <= p < bits) by { assert(0 <= h as int % bits as int <= h) by (nonlinear_arith) requires bits > 0, h >= 0; }
    assert(p / 8 == bitpos / 8 && p % 8 == bitpos % 8 && p / 8 < bytes);
    assert(f[p / 8] == b0[init_size + p / 8]);
}
--- loop 2 end
proof {
    let f1 = dst.b@.subrange(init_size as int, len as int);
    assert(p / 8 < bytes);
    assert(dst.b@ =~= b0.update(init_size + p / 8, f[p / 8] | (1u8 << ((p % 8) as u8))));
    assert(f1 =~= light(f, p));
    l_light(f, p);
    assert forall|q: int| 0 <= q < i implies probed(f1, #[trigger] bhash(keys0[q].b@), w, k) by { l_light_probed(f, p, bhash(keys0[q].b@), w, k); }
    l_light_probed(f, p, hh, w, j as int);
    assert(probed(f1, hh, w, j + 1)) by { reveal(probed); }
    assert(dst.b@.subrange(0, init_size as int) =~= dst0);
    f = f1;
}
--- after loop 1
proof { let f = dst.b@.subrange(init_size as int, len as int); assert(f.last() == dst.b@.last()); assert(probes(f) == k); assert((f.len() - 1) * 8 == w); }

=== fn BloomFilter::CreateFilter_u64_i32_Str
--- spec
requires self.ok(), n == keys@.len(), old(dst).b@.len() <= 0xffff_ffff_ffff, 
ensures old(dst).b@.len() + 9 <= final(dst).b@.len() <= 0x1fff_ffff_ffff_ffff, final(dst).b@.subrange(0, old(dst).b@.len() as int) == old(dst).b@,
    forall|i: int| 0 <= i < keys@.len() ==> may_match(final(dst).b@.subrange(old(dst).b@.len() as int, final(dst).b@.len() as int), #[trigger] ihash(keys@[i])),
--- body-start
let ghost dst0 = dst.b@; let ghost k = self.k_ as int;
proof {
    l_small_shifts();
    assert(0 <= n as int * self.bits_per_key_ as int <= 0x7fff_ffff * 0x7fff_ffff) by (nonlinear_arith)
        requires 0 <= n <= 0x7fff_ffff, 0 <= self.bits_per_key_ <= 0x7fff_ffff;
}
--- before loop 1
let ghost keys0 = keys@;
let ghost w = bits as int; let ghost len = init_size + bytes + 1;
--- loop 1
invariant 0 <= i <= n, n == keys@.len(), keys@ == keys0, k == self.k_, 1 <= k <= 30, w == bits, bits == 8 * bytes, 8 <= bytes < 0x1000_0000_0000_0000, array == init_size, len == init_size + bytes + 1, init_size == dst0.len(),
    init_size <= 0xffff_ffff_ffff,  dst.b@.len() == len, dst.b@.subrange(0, init_size as int) == dst0, dst.b@.last() == k,
    forall|q: int| 0 <= q < i ==> probed(dst.b@.subrange(init_size as int, len as int), #[trigger] ihash(keys0[q]), w, k),
decreases n - i,
--- loop 1 start
let ghost hh = ihash(keys0[i as int]);
let ghost mut f = dst.b@.subrange(init_size as int, len as int);
--- before loop 2
proof { reveal(probed); }
--- loop 2
invariant 0 <= i < n, n == keys@.len(), keys@ == keys0, k == self.k_, 1 <= k <= 30, w == bits, bits == 8 * bytes, 8 <= bytes < 0x1000_0000_0000_0000, array == init_size, len == init_size + bytes + 1, init_size == dst0.len(),
    init_size <= 0xffff_ffff_ffff, dst.b@.len() == len, dst.b@.subrange(0, init_size as int) == dst0, dst.b@.last() == k,
    f == dst.b@.subrange(init_size as int, len as int),
    hh == ihash(keys0[i as int]), hh.len() == 4, delta == hh[1], j <= k, h as int == (hh[0] + j * hh[1]) % 0x1_0000_0000,
    forall|q: int| 0 <= q < i ==> probed(f, #[trigger] ihash(keys0[q]), w, k),
    probed(f, hh, w, j as int),
decreases k - j,
--- loop 2 start
let ghost p = probe(hh, j as int, w);
proof {
    l_small_shifts();
    l_probe_in(hh, j as int, w);
    l_next_probe(hh[0] as int, j as int, hh[1] as int);
    l_char_bit(f[p / 8], (p % 8) as u32);
    assert((1i32 as u64) << ((p % 8) as u64) <= 128);
}
let ghost b0 = dst.b@;
--- after assign bitpos 1
proof {
    assert(bits > 0 && bitpos as int == p && 0 <= p < bits) by { assert(0 <= h as int % bits as int <= h) by (nonlinear_arith) requires bits > 0, h >= 0; }
    assert(p / 8 == bitpos / 8 && p % 8 == bitpos % 8 && p / 8 < bytes);
    assert(f[p / 8] == b0[init_size + p / 8]);
}
--- loop 2 end
proof {
    let f1 = dst.b@.subrange(init_size as int, len as int);
    assert(p / 8 < bytes);
    assert(dst.b@ =~= b0.update(init_size + p / 8, f[p / 8] | (1u8 << ((p % 8) as u8))));
    assert(f1 =~= light(f, p));
    l_light(f, p);
    assert forall|q: int| 0 <= q < i implies probed(f1, #[trigger] ihash(keys0[q]), w, k) by { l_light_probed(f, p, ihash(keys0[q]), w, k); }
    l_light_probed(f, p, hh, w, j as int);
    assert(probed(f1, hh, w, j + 1)) by { reveal(probed); }
    assert(dst.b@.subrange(0, init_size as int) =~= dst0);
    f = f1;
}
--- after loop 1
proof { let f = dst.b@.subrange(init_size as int, len as int); assert(f.last() == dst.b@.last()); assert(probes(f) == k); assert((f.len() - 1) * 8 == w); }
