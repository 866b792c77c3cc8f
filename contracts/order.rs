// Order of byte strings and of bit fields.
verus! {
pub proof fn lemma_lcp(a: Seq<u8>, b: Seq<u8>)
    ensures 0 <= lcp(a, b) <= a.len(), lcp(a, b) <= b.len(),
        forall|j: int| 0 <= j < lcp(a, b) ==> #[trigger] a[j] == b[j],
        lcp(a, b) < a.len() && lcp(a, b) < b.len() ==> a[lcp(a, b)] != b[lcp(a, b)],
{
    lemma_lcpf(a, b, 0);
}
/// a common prefix of length m that stops for a reason is the longest
pub proof fn lemma_lcp_is(a: Seq<u8>, b: Seq<u8>, m: int)
    requires 0 <= m <= a.len(), m <= b.len(), forall|j: int| 0 <= j < m ==> #[trigger] a[j] == b[j],
        m == a.len() || m == b.len() || a[m] != b[m],
    ensures lcp(a, b) == m,
{
    lemma_lcp(a, b);
    let l = lcp(a, b);
    if l < m { assert(a[l] == b[l]); }
    if m < l { assert(a[m] == b[m]); }
}
pub proof fn lemma_lcp_sym(a: Seq<u8>, b: Seq<u8>)
    ensures lcp(a, b) == lcp(b, a),
{
    lemma_lcp(a, b);
    assert forall|j: int| 0 <= j < lcp(a, b) implies #[trigger] b[j] == a[j] by { assert(a[j] == b[j]); }
    lemma_lcp_is(b, a, lcp(a, b));
}
pub proof fn lemma_lex_total(a: Seq<u8>, b: Seq<u8>)
    ensures lexlt(a, b) || lexlt(b, a) || a == b, !(lexlt(a, b) && lexlt(b, a)), lexlt(a, b) ==> a != b,
{
    lemma_lcp(a, b);
    lemma_lcp_sym(a, b);
    if lcp(a, b) == a.len() && lcp(a, b) == b.len() { assert(a =~= b); }
}
pub proof fn lemma_lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lexlt(a, b), lexlt(b, c),
    ensures lexlt(a, c), lcp(a, c) == minl(lcp(a, b), lcp(b, c)),
{
    lemma_lcp(a, b);
    lemma_lcp(b, c);
    let x = lcp(a, b);
    let y = lcp(b, c);
    let m = minl(x, y);
    assert forall|j: int| 0 <= j < m implies #[trigger] a[j] == c[j] by { assert(a[j] == b[j]); assert(b[j] == c[j]); }
    if x < y { assert(b[x] == c[x]); } else if y < x { assert(a[y] == b[y]); }
    lemma_lcp_is(a, c, m);
}
/// the first bit in which two words differ
pub proof fn lemma_lt_bit(x: u64, y: u64) -> (c: int)
    requires x < y,
    ensures 0 <= c < 64, !bit(x, c), bit(y, c), forall|i: int| 0 <= i < c ==> #[trigger] bit(x, i) == bit(y, i),
{
    lemma_lt_bit_rec(x, y, 0)
}
proof fn lemma_lt_bit_rec(x: u64, y: u64, n: int) -> (c: int)
    requires x < y, 0 <= n <= 64, forall|i: int| 0 <= i < n ==> #[trigger] bit(x, i) == bit(y, i),
        n < 64 ==> x >> ((64 - n) as u64) == y >> ((64 - n) as u64) || n == 0, n == 64 ==> x == y,
    ensures 0 <= c < 64, !bit(x, c), bit(y, c), forall|i: int| 0 <= i < c ==> #[trigger] bit(x, i) == bit(y, i),
    decreases 64 - n,
{
    if n == 64 { return 0; }
    let k = n as u64;
    let s = (64 - n) as u64;
    let t = (63 - n) as u64;
    if bit(x, n) == bit(y, n) {
        if n == 0 {
            assert(((x & 0x8000_0000_0000_0000u64 >> 0) != 0) == ((y & 0x8000_0000_0000_0000u64 >> 0) != 0) ==> x >> 63 == y >> 63) by (bit_vector);
        } else if n == 63 {
            assert(((x & 0x8000_0000_0000_0000u64 >> 63) != 0) == ((y & 0x8000_0000_0000_0000u64 >> 63) != 0) && x >> 1 == y >> 1 ==> x == y) by (bit_vector);
        } else {
            assert(0 < k < 63 && s == 64 - k && t == 63 - k && x >> s == y >> s && ((x & 0x8000_0000_0000_0000u64 >> k) != 0) == ((y & 0x8000_0000_0000_0000u64 >> k) != 0)
                ==> x >> t == y >> t) by (bit_vector);
        }
        return lemma_lt_bit_rec(x, y, n + 1);
    }
    if bit(x, n) {
        if n == 0 {
            assert((x & 0x8000_0000_0000_0000u64 >> 0) != 0 && (y & 0x8000_0000_0000_0000u64 >> 0) == 0 ==> x > y) by (bit_vector);
        } else {
            assert(0 < k < 64 && s == 64 - k && x >> s == y >> s && (x & 0x8000_0000_0000_0000u64 >> k) != 0 && (y & 0x8000_0000_0000_0000u64 >> k) == 0
                ==> x > y) by (bit_vector);
        }
    }
    n
}
/// bytes with equal bits are equal; the first differing bit orders them
pub proof fn lemma_byte_bits(a: u8, b: u8, n: int)
    requires 0 <= n <= 8, forall|i: int| 0 <= i < n ==> #[trigger] bbit(a, i) == bbit(b, i),
    ensures n == 8 ==> a == b, n < 8 && !bbit(a, n) && bbit(b, n) ==> a < b,
{
    broadcast use b_byte;
    let x = a as u64;
    let y = b as u64;
    if n == 8 {
        assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(x, i) == bit(y, i) by { if i >= 56 { assert(bbit(a, i - 56) == bbit(b, i - 56)); } }
        lemma_word_ext(x, y);
    } else if !bbit(a, n) && bbit(b, n) {
        if y <= x {
            if x == y { assert(false); }
            let c = lemma_lt_bit(y, x);
            if c < 56 + n { assert(c >= 56); assert(bbit(a, c - 56) == bbit(b, c - 56)); }
            if c > 56 + n { assert(bit(y, 56 + n) == bit(x, 56 + n)); }
        }
    }
}
/// two strings with a common prefix whose following n bits differ
pub proof fn lemma_field_order(a: Seq<u8>, b: Seq<u8>, level: int, n: int)
    requires 0 <= level, 0 <= n <= 64, 8 * level + n <= 8 * a.len(), 8 * level + n <= 8 * b.len(),
        forall|j: int| 0 <= j < level ==> #[trigger] a[j] == b[j],
        field(kseq(a), 8 * level, n) < field(kseq(b), 8 * level, n),
    ensures lexlt(a, b),
{
    let x = field(kseq(a), 8 * level, n);
    let y = field(kseq(b), 8 * level, n);
    lemma_field_ok(kseq(a), 8 * level, n);
    lemma_field_ok(kseq(b), 8 * level, n);
    let c = lemma_lt_bit(x, y);
    assert(bit(y, c));
    let q = 8 * level + c - (64 - n);
    let m = q / 8;
    assert forall|i: int| 8 * level <= i < q implies kseq(a)[i] == kseq(b)[i] by {
        let j = i - 8 * level + (64 - n);
        assert(bit(x, j) == bit(y, j));
    }
    assert forall|j: int| 0 <= j < m implies #[trigger] a[j] == b[j] by {
        if j >= level {
            assert forall|i: int| 0 <= i < 8 implies #[trigger] bbit(a[j], i) == bbit(b[j], i) by {
                let e = 8 * j + i;
                assert(e / 8 == j && e % 8 == i);
                assert(kseq(a)[e] == kseq(b)[e]);
            }
            lemma_byte_bits(a[j], b[j], 8);
        }
    }
    let o = q % 8;
    assert forall|i: int| 0 <= i < o implies #[trigger] bbit(a[m], i) == bbit(b[m], i) by {
        let e = 8 * m + i;
        assert(e / 8 == m && e % 8 == i);
        assert(kseq(a)[e] == kseq(b)[e]);
    }
    assert(kseq(a)[q] == bbit(a[m], o) && kseq(b)[q] == bbit(b[m], o));
    lemma_byte_bits(a[m], b[m], o);
    lemma_lcp_is(a, b, m);
}
/// equal bits of whole bytes are equal bytes
pub proof fn lemma_field_eq_bytes(a: Seq<u8>, b: Seq<u8>, level: int, n: int)
    requires 0 <= level, 0 <= n <= 8, level + n <= a.len(), level + n <= b.len(),
        forall|j: int| 0 <= j < level ==> #[trigger] a[j] == b[j],
        field(kseq(a), 8 * level, 8 * n) == field(kseq(b), 8 * level, 8 * n),
    ensures forall|j: int| 0 <= j < level + n ==> #[trigger] a[j] == b[j],
{
    lemma_field_ok(kseq(a), 8 * level, 8 * n);
    lemma_field_ok(kseq(b), 8 * level, 8 * n);
    let x = field(kseq(a), 8 * level, 8 * n);
    assert forall|j: int| 0 <= j < level + n implies #[trigger] a[j] == b[j] by {
        if j >= level {
            assert forall|i: int| 0 <= i < 8 implies #[trigger] bbit(a[j], i) == bbit(b[j], i) by {
                let e = 8 * j + i;
                assert(e / 8 == j && e % 8 == i);
                assert(bit(x, e - 8 * level + (64 - 8 * n)) == kseq(a)[e]);
                assert(bit(x, e - 8 * level + (64 - 8 * n)) == kseq(b)[e]);
            }
            lemma_byte_bits(a[j], b[j], 8);
        }
    }
}
/// the first m bits of a field
pub proof fn lemma_field_head(s: Seq<bool>, p: int, n: int, m: int)
    requires 0 <= m <= n <= 64,
    ensures n - m < 64 ==> field(s, p, n) >> ((n - m) as u64) == field(s, p, m),
{
    broadcast use word_bits;
    if n - m < 64 {
        lemma_field_ok(s, p, n);
        lemma_field_ok(s, p, m);
        let x = field(s, p, n);
        assert(is_field(x >> ((n - m) as u64), s, p, m)) by {
            assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(x >> ((n - m) as u64), i) == (i >= 64 - m && s[p + i - (64 - m)]) by {
                assert(bit(x >> ((n - m) as u64), i) == (i >= n - m && bit(x, i - (n - m))));
            }
        }
        lemma_field(x >> ((n - m) as u64), s, p, m);
    }
}
/// a real suffix is no longer than it says
pub proof fn lemma_low_real(k: Seq<u8>, level: int, rlen: int)
    requires 0 <= rlen <= 64,
    ensures low_bits(real_suffix(k, level, rlen), rlen) == real_suffix(k, level, rlen), low_bits(0, rlen) == 0, rlen == 0 ==> real_suffix(k, level, rlen) == 0,
{
    broadcast use word_bits, b_and;
    let r = real_suffix(k, level, rlen);
    assert(low_bits(0, rlen) == 0) by {
        if rlen < 64 { let m = ((1u64 << (rlen as u64)) - 1) as u64; assert(0u64 & m == 0) by (bit_vector); }
    }
    assert forall|i: int| 0 <= i < 64 - rlen implies !#[trigger] bit(r, i) by { lemma_field_ok(kseq(k), 8 * level, rlen); }
    if rlen < 64 {
        lemma_low_mask(r, rlen as u64);
        let y = low_bits(r, rlen);
        assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(y, i) == bit(r, i) by { }
        lemma_word_ext(y, r);
    }
    if rlen == 0 { assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(r, i) == bit(0, i) by { } lemma_word_ext(r, 0); }
}
/// the real part of a mixed suffix
pub proof fn lemma_mixed_real(k: Seq<u8>, hlen: int, level: int, rlen: int)
    requires 0 <= rlen <= 64, 0 <= hlen, hlen + rlen <= 64,
    ensures low_bits(mixed_suffix(k, hlen, level, rlen), rlen) == real_suffix(k, level, rlen),
{
    broadcast use word_bits, b_and;
    let h = hash_suffix(k, hlen);
    let r = real_suffix(k, level, rlen);
    assert(low_bits((key_hash(k) as u64) >> 7, 0) == 0) by {
        let v = (key_hash(k) as u64) >> 7;
        assert(v & (((1u64 << 0) - 1) as u64) == 0) by (bit_vector);
    }
    assert forall|i: int| 0 <= i < 64 - rlen implies !#[trigger] bit(r, i) by {
        lemma_field_ok(kseq(k), 8 * level, rlen);
    }
    if rlen == 64 {
        assert(h == 0);
        assert(0 | r == r) by (bit_vector);
    } else {
        let x = (h << (rlen as u64)) | r;
        lemma_low_mask(x, rlen as u64);
        let y = low_bits(x, rlen);
        assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(y, i) == bit(r, i) by {
            assert(bit(x, i) == (bit(h << (rlen as u64), i) || bit(r, i)));
            assert(bit(h << (rlen as u64), i) == (i + rlen < 64 && bit(h, i + rlen)));
        }
        lemma_word_ext(y, r);
    }
}
/// what the comparison of a stored real suffix with a query says about the keys
pub open spec fn real_cmp(st: u64, q: Seq<u8>, level: int, rlen: int) -> int {
    let qs = real_suffix(q, level, rlen);
    let ql = if q.len() > level { (q.len() - level) * 8 } else { 0 };
    if st == 0 && (qs == 0 || rlen > 8) { 2018 }
    else if 0 < ql < rlen { if (st >> ((rlen - ql) as u64)) < real_suffix(q, level, ql) { -1 } else { 1 } }
    else if st == 0 || st < qs { -1 }
    else if st == qs { 2018 }
    else { 1 }
}
/// it never contradicts the order of the keys
pub proof fn lemma_real_cmp(k: Seq<u8>, q: Seq<u8>, level: int, rlen: int)
    requires 0 <= level <= k.len(), level <= q.len(), 0 <= rlen <= 64, forall|j: int| 0 <= j < level ==> #[trigger] k[j] == q[j],
    ensures ({
        let r = real_cmp(real_suffix(k, level, rlen), q, level, rlen);
        &&& r == -1 ==> lexlt(k, q)
        &&& r == 1 ==> lexlt(q, k)
    }),
{
    let st = real_suffix(k, level, rlen);
    let qs = real_suffix(q, level, rlen);
    let ql = (q.len() - level) * 8;
    let kf = field(kseq(k), 8 * level, rlen);
    let qf = field(kseq(q), 8 * level, rlen);
    if st == 0 && (qs == 0 || rlen > 8) {
    } else if 0 < ql < rlen {
        // st is not 0, so k has all the bits
        assert(qs == 0);
        assert((k.len() - level) * 8 >= rlen);
        lemma_field_head(kseq(k), 8 * level, rlen, ql);
        let a = field(kseq(k), 8 * level, ql);
        let b = field(kseq(q), 8 * level, ql);
        assert(ql == 8 * (q.len() - level));
        if a < b { lemma_field_order(k, q, level, ql); }
        else if b < a { lemma_field_order(q, k, level, ql); }
        else {
            lemma_field_eq_bytes(k, q, level, q.len() - level);
            assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] == k[j] by { assert(k[j] == q[j]); }
            lemma_lcp_is(q, k, q.len() as int);
        }
    } else if st == 0 {
        assert(qs != 0);
        assert(rlen <= 8 && ql >= rlen);
        if (k.len() - level) * 8 >= rlen {
            lemma_field_order(k, q, level, rlen);
        } else {
            assert(k.len() == level);
            if q.len() == level {
                lemma_field_ok(kseq(q), 8 * level, 0);
                broadcast use b_zero;
                lemma_word_ext(qf, 0);
            }
            lemma_lcp_is(k, q, level);
        }
    } else if st < qs {
        assert((k.len() - level) * 8 >= rlen);
        lemma_field_order(k, q, level, rlen);
    } else if st > qs {
        assert((k.len() - level) * 8 >= rlen);
        if ql >= rlen {
            lemma_field_order(q, k, level, rlen);
        } else {
            assert(ql == 0);
            assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] == k[j] by { assert(k[j] == q[j]); }
            assert(rlen > 0);
            lemma_lcp_is(q, k, level);
        }
    }
}
}
