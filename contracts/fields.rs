// Fields: a run of at most 64 bits of a bit string, read as a right-aligned word; suffixes.
verus! {

pub open spec fn is_field(v: u64, s: Seq<bool>, p: int, n: int) -> bool {
    forall|i: int| 0 <= i < 64 ==> #[trigger] bit(v, i) == (i >= 64 - n && s[p + i - (64 - n)])
}
/// the n bits of s from p on
pub open spec fn field(s: Seq<bool>, p: int, n: int) -> u64 { choose|v: u64| is_field(v, s, p, n) }

pub broadcast proof fn b_and(x: u64, y: u64, i: int)
    requires 0 <= i < 64,
    ensures #[trigger] bit(x & y, i) == (bit(x, i) && bit(y, i)),
{
    let k = i as u64;
    assert((((x & y) & (0x8000_0000_0000_0000u64 >> k)) != 0) == ((x & (0x8000_0000_0000_0000u64 >> k)) != 0 && (y & (0x8000_0000_0000_0000u64 >> k)) != 0)) by (bit_vector)
        requires k < 64;
}
pub proof fn lemma_word_ext(x: u64, y: u64)
    requires forall|i: int| 0 <= i < 64 ==> #[trigger] bit(x, i) == bit(y, i),
    ensures x == y,
{
    assert forall|i: int| 0 <= i < 64 implies !#[trigger] bit(x ^ y, i) by {
        let k = i as u64;
        assert(bit(x, i) == bit(y, i));
        assert(k < 64 && ((x & (0x8000_0000_0000_0000u64 >> k)) != 0) == ((y & (0x8000_0000_0000_0000u64 >> k)) != 0)
            ==> ((x ^ y) & (0x8000_0000_0000_0000u64 >> k)) == 0) by (bit_vector);
    }
    lemma_nonzero(x ^ y);
    assert(x ^ y == 0 ==> x == y) by (bit_vector);
}
pub proof fn lemma_field(v: u64, s: Seq<bool>, p: int, n: int)
    requires is_field(v, s, p, n),
    ensures field(s, p, n) == v,
{
    let w = field(s, p, n);
    assert(is_field(w, s, p, n));
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(v, i) == bit(w, i) by {}
    lemma_word_ext(v, w);
}
pub broadcast proof fn lemma_field_b(v: u64, s: Seq<bool>, p: int, n: int)
    requires #[trigger] is_field(v, s, p, n),
    ensures field(s, p, n) == v,
{
    lemma_field(v, s, p, n);
}
/// every field exists
pub proof fn lemma_field_ok(s: Seq<bool>, p: int, n: int)
    requires 0 <= n <= 64,
    ensures is_field(field(s, p, n), s, p, n),
    decreases n,
{
    broadcast use word_bits;
    if n == 0 {
        assert(is_field(0, s, p, 0));
    } else {
        lemma_field_ok(s, p, n - 1);
        let w = field(s, p, n - 1);
        let one = if s[p + n - 1] { 1u64 } else { 0u64 };
        let v = (w << 1) | one;
        assert(1u64 == 0x8000_0000_0000_0000u64 >> 63) by (bit_vector);
        assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(v, i) == (i >= 64 - n && s[p + i - (64 - n)]) by {
            assert(bit(v, i) == (bit(w << 1, i) || bit(one, i)));
            assert(bit(one, i) == (s[p + n - 1] && i == 63));
            if i < 63 { assert(bit(w << 1, i) == bit(w, i + 1)); }
        }
        assert(is_field(v, s, p, n));
    }
}
/// adding words without a common bit is or-ing them
pub proof fn lemma_add_or(x: u64, y: u64)
    requires forall|i: int| 0 <= i < 64 ==> !(#[trigger] bit(x, i) && bit(y, i)),
    ensures x + y == (x | y),
{
    broadcast use b_and;
    assert forall|i: int| 0 <= i < 64 implies !#[trigger] bit(x & y, i) by {}
    lemma_nonzero(x & y);
    assert(x & y == 0 ==> add(x, y) == x | y) by (bit_vector);
    assert(x & y == 0 ==> x <= 0xffff_ffff_ffff_ffffu64 - y) by (bit_vector);
}
/// the bits of a byte
pub open spec fn bbit(b: u8, i: int) -> bool { bit(b as u64, 56 + i) }
/// a byte string as a bit string
pub open spec fn kseq(k: Seq<u8>) -> Seq<bool> { Seq::new((8 * k.len()) as nat, |i: int| bbit(k[i / 8], i % 8)) }
pub broadcast proof fn b_byte(b: u8, i: int)
    requires 0 <= i < 56,
    ensures !#[trigger] bit(b as u64, i),
{
    let k = i as u64;
    assert(k < 56 ==> ((b as u64) & (0x8000_0000_0000_0000u64 >> k)) == 0) by (bit_vector);
}
pub proof fn lemma_kseq(k: Seq<u8>, p: int)
    ensures 0 <= p < k.len() ==> (forall|i: int| 56 <= i < 64 ==> #[trigger] bit(k[p] as u64, i) == kseq(k)[8 * p + i - 56]),
{
    if 0 <= p < k.len() {
        assert forall|i: int| 56 <= i < 64 implies #[trigger] bit(k[p] as u64, i) == kseq(k)[8 * p + i - 56] by {
            let j = 8 * p + i - 56;
            assert(j / 8 == p && j % 8 == i - 56);
        }
    }
}
/// appending the next byte to a field of whole bytes
pub proof fn lemma_field_byte(v: u64, k: Seq<u8>, level: int, n: int)
    requires is_field(v, kseq(k), 8 * level, 8 * n), 0 <= level, 0 <= n < 8, level + n < k.len(),
    ensures is_field(((v << 8) + k[level + n] as u64) as u64, kseq(k), 8 * level, 8 * (n + 1)), (v << 8) + k[level + n] as u64 <= 0xffff_ffff_ffff_ffff,
{
    broadcast use word_bits, b_byte;
    let b = k[level + n] as u64;
    lemma_kseq(k, level + n);
    assert forall|i: int| 0 <= i < 64 implies !(#[trigger] bit(v << 8, i) && bit(b, i)) by {}
    lemma_add_or(v << 8, b);
    let w = (v << 8) | b;
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(w, i) == (i >= 64 - 8 * (n + 1) && kseq(k)[8 * level + i - (64 - 8 * (n + 1))]) by {
        assert(bit(w, i) == (bit(v << 8, i) || bit(b, i)));
        if i < 56 { assert(bit(v << 8, i) == bit(v, i + 8)); } 
    }
}
/// appending the o leading bits of the next byte
pub proof fn lemma_field_bits(v: u64, k: Seq<u8>, level: int, n: int, o: int)
    requires is_field(v, kseq(k), 8 * level, 8 * n), 0 <= level, 0 <= n < 8, level + n < k.len(), 0 < o < 8,
    ensures is_field(((v << (o as u64)) + ((k[level + n] as u64) >> ((8 - o) as u64))) as u64, kseq(k), 8 * level, 8 * n + o),
        (v << (o as u64)) + ((k[level + n] as u64) >> ((8 - o) as u64)) <= 0xffff_ffff_ffff_ffff,
{
    broadcast use word_bits, b_byte;
    let b = k[level + n] as u64;
    let c = b >> ((8 - o) as u64);
    let u = v << (o as u64);
    lemma_kseq(k, level + n);
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(c, i) == (i >= 64 - o && bit(b, i - (8 - o))) by {
        assert(bit(c, i) == (i >= 8 - o && bit(b, i - (8 - o))));
    }
    assert forall|i: int| 0 <= i < 64 implies !(#[trigger] bit(u, i) && bit(c, i)) by {}
    lemma_add_or(u, c);
    let w = u | c;
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(w, i) == (i >= 64 - (8 * n + o) && kseq(k)[8 * level + i - (64 - (8 * n + o))]) by {
        assert(bit(w, i) == (bit(u, i) || bit(c, i)));
        assert(bit(u, i) == (i + o < 64 && bit(v, i + o)));
    }
}

// ---- suffixes
pub open spec fn real_suffix(k: Seq<u8>, level: int, len: int) -> u64 {
    if k.len() < level || (k.len() - level) * 8 < len { 0 } else { field(kseq(k), 8 * level, len) }
}
pub open spec fn low_bits(x: u64, n: int) -> u64 { if n >= 64 { x } else { x & (((1u64 << (n as u64)) - 1) as u64) } }
pub open spec fn hash_suffix(k: Seq<u8>, len: int) -> u64 { low_bits((key_hash(k) as u64) >> 7, len) }
pub open spec fn mixed_suffix(k: Seq<u8>, hlen: int, level: int, rlen: int) -> u64 {
    (if rlen < 64 { hash_suffix(k, hlen) << (rlen as u64) } else { hash_suffix(k, hlen) }) | real_suffix(k, level, rlen)
}
/// the suffix of key k below a kept prefix of `level` bytes
pub open spec fn suffix_of(ty: int, k: Seq<u8>, hlen: int, level: int, rlen: int) -> u64 {
    if ty == 1 { hash_suffix(k, hlen) } else if ty == 2 { real_suffix(k, level, rlen) }
    else if ty == 3 { mixed_suffix(k, hlen, level, rlen) } else { 0 }
}

// ---- the hash (LevelDB's)
pub open spec fn wadd(a: u32, b: u32) -> u32 { if a + b >= P32() { (a + b - P32()) as u32 } else { (a + b) as u32 } }
pub open spec fn wmul(a: u32, b: u32) -> u32 { ((a as int * b as int) % P32()) as u32 }
pub open spec fn wmul64(a: u64, b: u64) -> u64 { ((a as int * b as int) % P64()) as u64 }
pub open spec fn hash_words(s: Seq<u8>, p: int, n: int, k: int, seed: u32) -> u32
    decreases k,
{
    if k <= 0 { ((seed as u64) ^ wmul64(n as u64, 0xc6a4a793)) as u32 }
    else {
        let h = wmul(wadd(hash_words(s, p, n, k - 1, seed), le32(s, p + 4 * (k - 1))), 0xc6a4a793);
        h ^ (h >> 16)
    }
}
pub open spec fn hash_tail(s: Seq<u8>, p: int, r: int, h: u32) -> u32 {
    let h2 = if r >= 3 { wadd(h, ((s[p + 2] as u64) << 16) as u32) } else { h };
    let h1 = if r >= 2 { wadd(h2, ((s[p + 1] as u64) << 8) as u32) } else { h2 };
    if r >= 1 { let h0 = wmul(wadd(h1, s[p] as u32), 0xc6a4a793); h0 ^ (h0 >> 24) } else { h1 }
}
pub open spec fn spec_hash(s: Seq<u8>, p: int, n: int, seed: u32) -> u32 {
    hash_tail(s, p + 4 * (n / 4), n % 4, hash_words(s, p, n, n / 4, seed))
}
pub open spec fn key_hash(k: Seq<u8>) -> u32 { spec_hash(k, 0, k.len() as int, 0xbc9f1d34) }
pub broadcast proof fn b_byte_shl(b: u64, n: u64)
    requires b <= 255, n <= 16,
    ensures #[trigger] (b << n) <= 0xff_0000,
{
    assert(b <= 255 && n <= 16 ==> (b << n) <= 0xff_0000) by (bit_vector);
}

// ---- integers as keys
pub broadcast proof fn lemma_bswap_bytes(w: u64, i: int)
    requires 0 <= i < 8,
    ensures #[trigger] byte_of(bswap(w), i)
        == byte_of(w, 7 - i),
{
    let a = (8 * i) as u64;
    let b = (8 * (7 - i)) as u64;
    assert(a == 0 && b == 56 || a == 8 && b == 48 || a == 16 && b == 40 || a == 24 && b == 32 || a == 32 && b == 24
        || a == 40 && b == 16 || a == 48 && b == 8 || a == 56 && b == 0);
    assert((a == 0 && b == 56 || a == 8 && b == 48 || a == 16 && b == 40 || a == 24 && b == 32 || a == 32 && b == 24
        || a == 40 && b == 16 || a == 48 && b == 8 || a == 56 && b == 0) ==>
        (((((w >> 56) & 0xff) | ((w >> 40) & 0xff00) | ((w >> 24) & 0xff_0000) | ((w >> 8) & 0xff00_0000)
        | ((w << 8) & 0xff_0000_0000) | ((w << 24) & 0xff00_0000_0000) | ((w << 40) & 0xff_0000_0000_0000) | ((w << 56) & 0xff00_0000_0000_0000)) >> a) as u8)
        == ((w >> b) as u8)) by (bit_vector);
}
/// the big-endian bytes of w
pub open spec fn be_bytes(w: u64) -> Seq<u8> { Seq::new(8, |i: int| byte_of(w, 7 - i)) }
/// the order of keys is the order of integers
pub proof fn lemma_be_order(x: u64, y: u64)
    ensures lexlt(be_bytes(x), be_bytes(y)) == (x < y), be_bytes(x) == be_bytes(y) ==> x == y,
{
    let a = be_bytes(x);
    let b = be_bytes(y);
    lemma_lcpf(a, b, 0);
    let l = lcp(a, b);
    reveal_with_fuel(lcpf, 9);
    assert forall|i: int| 0 <= i < l implies #[trigger] byte_of(x, 7 - i) == byte_of(y, 7 - i) by { assert(a[i] == b[i]); }
    if l < 8 {
        assert(a[l] != b[l]);
        let s = (8 * (7 - l)) as u64;
        assert(l == 0 ==> s == 56); assert(l == 1 ==> s == 48); assert(l == 2 ==> s == 40); assert(l == 3 ==> s == 32);
        assert(l == 4 ==> s == 24); assert(l == 5 ==> s == 16); assert(l == 6 ==> s == 8); assert(l == 7 ==> s == 0);
        assert(l > 0 ==> (x >> 56) as u8 == (y >> 56) as u8) by { if l > 0 { assert(byte_of(x, 7 - 0) == byte_of(y, 7 - 0)); } }
        assert(l > 1 ==> (x >> 48) as u8 == (y >> 48) as u8) by { if l > 1 { assert(byte_of(x, 7 - 1) == byte_of(y, 7 - 1)); } }
        assert(l > 2 ==> (x >> 40) as u8 == (y >> 40) as u8) by { if l > 2 { assert(byte_of(x, 7 - 2) == byte_of(y, 7 - 2)); } }
        assert(l > 3 ==> (x >> 32) as u8 == (y >> 32) as u8) by { if l > 3 { assert(byte_of(x, 7 - 3) == byte_of(y, 7 - 3)); } }
        assert(l > 4 ==> (x >> 24) as u8 == (y >> 24) as u8) by { if l > 4 { assert(byte_of(x, 7 - 4) == byte_of(y, 7 - 4)); } }
        assert(l > 5 ==> (x >> 16) as u8 == (y >> 16) as u8) by { if l > 5 { assert(byte_of(x, 7 - 5) == byte_of(y, 7 - 5)); } }
        assert(l > 6 ==> (x >> 8) as u8 == (y >> 8) as u8) by { if l > 6 { assert(byte_of(x, 7 - 6) == byte_of(y, 7 - 6)); } }
        assert((((x >> s) as u8) < ((y >> s) as u8)) == (x < y)) by (bit_vector)
            requires s == 56 || s == 48 || s == 40 || s == 32 || s == 24 || s == 16 || s == 8 || s == 0,
                (x >> s) as u8 != (y >> s) as u8,
                s < 56 ==> (x >> 56) as u8 == (y >> 56) as u8,
                s < 48 ==> (x >> 48) as u8 == (y >> 48) as u8,
                s < 40 ==> (x >> 40) as u8 == (y >> 40) as u8,
                s < 32 ==> (x >> 32) as u8 == (y >> 32) as u8,
                s < 24 ==> (x >> 24) as u8 == (y >> 24) as u8,
                s < 16 ==> (x >> 16) as u8 == (y >> 16) as u8,
                s < 8 ==> (x >> 8) as u8 == (y >> 8) as u8;
        assert(a[l] == byte_of(x, 7 - l) && b[l] == byte_of(y, 7 - l));
        if a == b { assert(a[l] == b[l]); }
    } else {
        assert(byte_of(x, 7 - 0) == byte_of(y, 7 - 0) && byte_of(x, 7 - 1) == byte_of(y, 7 - 1) && byte_of(x, 7 - 2) == byte_of(y, 7 - 2)
            && byte_of(x, 7 - 3) == byte_of(y, 7 - 3) && byte_of(x, 7 - 4) == byte_of(y, 7 - 4) && byte_of(x, 7 - 5) == byte_of(y, 7 - 5)
            && byte_of(x, 7 - 6) == byte_of(y, 7 - 6) && byte_of(x, 7 - 7) == byte_of(y, 7 - 7));
        assert(x == y) by (bit_vector) requires
            (x >> 0) as u8 == (y >> 0) as u8, (x >> 8) as u8 == (y >> 8) as u8, (x >> 16) as u8 == (y >> 16) as u8,
            (x >> 24) as u8 == (y >> 24) as u8, (x >> 32) as u8 == (y >> 32) as u8, (x >> 40) as u8 == (y >> 40) as u8,
            (x >> 48) as u8 == (y >> 48) as u8, (x >> 56) as u8 == (y >> 56) as u8;
    }
}
/// what lcpf means
pub proof fn lemma_lcpf(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= a.len(), i <= b.len(),
    ensures i <= lcpf(a, b, i) <= a.len(), lcpf(a, b, i) <= b.len(),
        forall|j: int| i <= j < lcpf(a, b, i) ==> #[trigger] a[j] == b[j],
        lcpf(a, b, i) < a.len() && lcpf(a, b, i) < b.len() ==> a[lcpf(a, b, i)] != b[lcpf(a, b, i)],
    decreases a.len() - i,
{
    if i < a.len() && i < b.len() && a[i] == b[i] { lemma_lcpf(a, b, i + 1); }
}
pub proof fn lemma_bswap2(w: u64)
    ensures bswap(bswap(w)) == w,
{
    let v = bswap(w);
    assert(v == (((w >> 56) & 0xff) | ((w >> 40) & 0xff00) | ((w >> 24) & 0xff_0000) | ((w >> 8) & 0xff00_0000)
        | ((w << 8) & 0xff_0000_0000) | ((w << 24) & 0xff00_0000_0000) | ((w << 40) & 0xff_0000_0000_0000) | ((w << 56) & 0xff00_0000_0000_0000)) ==> (((v >> 56) & 0xff) | ((v >> 40) & 0xff00) | ((v >> 24) & 0xff_0000) | ((v >> 8) & 0xff00_0000)
        | ((v << 8) & 0xff_0000_0000) | ((v << 24) & 0xff00_0000_0000) | ((v << 40) & 0xff_0000_0000_0000) | ((v << 56) & 0xff00_0000_0000_0000)) == w) by (bit_vector);
}
/// reading back the bytes of a word
pub proof fn lemma_le64_bytes(s: Seq<u8>, w: u64)
    requires s.len() >= 8, forall|i: int| 0 <= i < 8 ==> #[trigger] s[i] == byte_of(w, i),
    ensures le64(s, 0) == w,
{
    assert(s[0] == byte_of(w, 0) && s[1] == byte_of(w, 1) && s[2] == byte_of(w, 2) && s[3] == byte_of(w, 3)
        && s[4] == byte_of(w, 4) && s[5] == byte_of(w, 5) && s[6] == byte_of(w, 6) && s[7] == byte_of(w, 7));
    assert((((w >> 0) as u8) as u64) | ((((w >> 8) as u8) as u64) << 8) | ((((w >> 16) as u8) as u64) << 16) | ((((w >> 24) as u8) as u64) << 24)
        | ((((w >> 32) as u8) as u64) << 32) | ((((w >> 40) as u8) as u64) << 40) | ((((w >> 48) as u8) as u64) << 48) | ((((w >> 56) as u8) as u64) << 56) == w) by (bit_vector);
}
}
verus! {
/// does the stored suffix agree with the one the query key would have
pub open spec fn suffix_matches(ty: int, stored: u64, k: Seq<u8>, hlen: int, level: int, rlen: int) -> bool {
    if ty == 2 && stored == 0 { true }
    else if ty == 2 && (k.len() < level || (k.len() - level) * 8 < rlen) { false }
    else { stored == suffix_of(ty, k, hlen, level, rlen) }
}
/// suffix i fits
pub proof fn lemma_whole(n: int, i: int, s: int)
    requires n >= 0, i >= 0, 0 < s, n % s == 0, i * s < n,
    ensures (i + 1) * s <= n,
{
    let q = n / s;
    assert(n == q * s) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, s); assert(s * q == q * s) by (nonlinear_arith); }
    assert(i < q) by (nonlinear_arith) requires i * s < q * s, s > 0;
    assert((i + 1) * s <= q * s) by (nonlinear_arith) requires i + 1 <= q, s > 0;
}
/// the two shifts that read a field
pub proof fn lemma_read_field(ws: Seq<u64>, p: int, n: int)
    requires 0 <= p, 0 < n <= 64, p + n <= 64 * ws.len(),
    ensures ({
        let o = p % 64;
        let k = p / 64;
        let a = (ws[k] << (o as u64)) >> ((64 - n) as u64);
        &&& k < ws.len()
        &&& o + n <= 64 ==> field(wseq(ws), p, n) == a
        &&& o + n > 64 ==> {
            &&& k + 1 < ws.len()
            &&& a + (ws[k + 1] >> ((128 - o - n) as u64)) == field(wseq(ws), p, n)
        }
    }),
{
    broadcast use word_bits;
    let o = p % 64;
    let k = p / 64;
    let w = ws[k] << (o as u64);
    let a = w >> ((64 - n) as u64);
    assert(p == 64 * k + o);
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(a, i) == (i >= 64 - n && i - (64 - n) + o < 64 && wseq(ws)[p + i - (64 - n)]) by {
        assert(bit(a, i) == (i >= 64 - n && bit(w, i - (64 - n))));
        if i >= 64 - n {
            let j = i - (64 - n);
            assert(bit(w, j) == (j + o < 64 && bit(ws[k], j + o)));
            if j + o < 64 { lemma_wbit(ws, k, j + o); }
        }
    }
    if o + n <= 64 {
        assert(is_field(a, wseq(ws), p, n));
        lemma_field(a, wseq(ws), p, n);
    } else {
        let c = ws[k + 1] >> ((128 - o - n) as u64);
        assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(c, i) == (i >= 128 - o - n && wseq(ws)[p + i - (64 - n)]) by {
            assert(bit(c, i) == (i >= 128 - o - n && bit(ws[k + 1], i - (128 - o - n))));
            if i >= 128 - o - n { lemma_wbit(ws, k + 1, i - (128 - o - n)); assert(64 * (k + 1) + i - (128 - o - n) == p + i - (64 - n)); }
        }
        lemma_add_or(a, c);
        assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(a | c, i) == (i >= 64 - n && wseq(ws)[p + i - (64 - n)]) by {
            assert(bit(a | c, i) == (bit(a, i) || bit(c, i)));
        }
        assert(is_field(a | c, wseq(ws), p, n));
        lemma_field(a | c, wseq(ws), p, n);
    }
}
}
