// Bit-level vocabulary: a word array read as one long bit string, counting and selecting set bits.
verus! {

pub open spec fn wbit(ws: Seq<u64>, i: int) -> bool { bit(ws[i / 64], i % 64) }
pub open spec fn wseq(ws: Seq<u64>) -> Seq<bool> { Seq::new((64 * ws.len()) as nat, |i: int| wbit(ws, i)) }
/// number of set bits among the first n
pub open spec fn cnt(s: Seq<bool>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { cnt(s, n - 1) + if s[n - 1] { 1int } else { 0int } }
}

// ---- single words
pub broadcast proof fn b_zero(i: int)
    ensures !#[trigger] bit(0, i),
{
    let k = i as u64;
    assert(0u64 & (0x8000_0000_0000_0000u64 >> k) == 0) by (bit_vector);
}
pub proof fn lemma_nonzero(x: u64)
    requires forall|i: int| 0 <= i < 64 ==> !#[trigger] bit(x, i),
    ensures x == 0,
{
    if x != 0 {
        let c = lemma_top(x);
        assert(bit(x, c));
    }
}
/// a set bit of a non-zero word
pub proof fn lemma_top(x: u64) -> (c: int)
    requires x != 0,
    ensures 0 <= c < 64, bit(x, c),
{
    lemma_top_rec(x, 64)
}
proof fn lemma_top_rec(x: u64, n: int) -> (c: int)
    requires x != 0, 0 < n <= 64, n < 64 ==> (x & (0xffff_ffff_ffff_ffffu64 << ((64 - n) as u64))) == x,
        n < 64 ==> (x >> ((64 - n) as u64)) != 0,
    ensures 0 <= c < 64, bit(x, c),
    decreases n,
{
    if bit(x, n - 1) { n - 1 }
    else {
        let k = (n - 1) as u64;
        let s = (64 - n) as u64;
        assert(bit(x, k as int) == false);
        assert((x & (0x8000_0000_0000_0000u64 >> k)) == 0);
        if n == 64 {
            assert((x & (0x8000_0000_0000_0000u64 >> 63)) == 0 && x != 0 ==>
                (x & (0xffff_ffff_ffff_ffffu64 << 1)) == x && (x >> 1) != 0) by (bit_vector);
        } else if n == 1 {
            assert((x & (0xffff_ffff_ffff_ffffu64 << 63)) == x && (x & (0x8000_0000_0000_0000u64 >> 0)) == 0 ==> x == 0) by (bit_vector);
            return 0;
        } else {
            let s1 = (s + 1) as u64;
            assert(s1 == 64 - k && s == 63 - k && k < 63 && k > 0 && (x & (0xffff_ffff_ffff_ffffu64 << s)) == x && (x & (0x8000_0000_0000_0000u64 >> k)) == 0 && x != 0
                ==> (x & (0xffff_ffff_ffff_ffffu64 << s1)) == x && (x >> s1) != 0) by (bit_vector);
        }
        lemma_top_rec(x, n - 1)
    }
}
pub broadcast proof fn b_or(x: u64, y: u64, i: int)
    requires 0 <= i < 64,
    ensures #[trigger] bit(x | y, i) == (bit(x, i) || bit(y, i)),
{
    let k = i as u64;
    assert((((x | y) & (0x8000_0000_0000_0000u64 >> k)) != 0) == ((x & (0x8000_0000_0000_0000u64 >> k)) != 0 || (y & (0x8000_0000_0000_0000u64 >> k)) != 0)) by (bit_vector);
}
pub broadcast proof fn b_shl(x: u64, k: u64, i: int)
    requires 0 <= i < 64, k < 64,
    ensures #[trigger] bit(x << k, i) == (i + k < 64 && bit(x, i + k)),
{
    let j = i as u64;
    let m = if i + k < 64 { (i + k) as u64 } else { 0 };
    if i + k < 64 {
        assert(k < 64 && j < 64 && j + k < 64 && m == j + k ==>
            (((x << k) & (0x8000_0000_0000_0000u64 >> j)) != 0) == ((x & (0x8000_0000_0000_0000u64 >> m)) != 0)) by (bit_vector);
    } else {
        assert(k < 64 && j < 64 && j + k >= 64 ==> ((x << k) & (0x8000_0000_0000_0000u64 >> j)) == 0) by (bit_vector);
    }
}
pub broadcast proof fn b_shl_back(x: u64, k: u64, j: int)
    requires k <= j < 64, k < 64,
    ensures #![trigger bit(x, j), (x << k)] bit(x, j) == bit(x << k, j - k),
{
    b_shl(x, k, j - k);
}
pub broadcast proof fn b_shr(x: u64, k: u64, i: int)
    requires 0 <= i < 64, k < 64,
    ensures #[trigger] bit(x >> k, i) == (i >= k && bit(x, i - k)),
{
    let j = i as u64;
    if i >= k {
        let m = (i - k) as u64;
        assert(k < 64 && j < 64 && j >= k && m == j - k ==>
            (((x >> k) & (0x8000_0000_0000_0000u64 >> j)) != 0) == ((x & (0x8000_0000_0000_0000u64 >> m)) != 0)) by (bit_vector);
    } else {
        assert(k < 64 && j < k ==> ((x >> k) & (0x8000_0000_0000_0000u64 >> j)) == 0) by (bit_vector);
    }
}
pub broadcast proof fn b_shr_back(x: u64, k: u64, j: int)
    requires 0 <= j < 64 - k, k < 64,
    ensures #![trigger bit(x, j), (x >> k)] bit(x, j) == bit(x >> k, j + k),
{
    b_shr(x, k, j + k);
}
pub broadcast proof fn b_msb(k: u64, i: int)
    requires 0 <= i < 64, k < 64,
    ensures #[trigger] bit(0x8000_0000_0000_0000u64 >> k, i) == (i == k),
{
    let j = i as u64;
    assert(k < 64 && j < 64 ==> (((0x8000_0000_0000_0000u64 >> k) & (0x8000_0000_0000_0000u64 >> j)) != 0) == (j == k)) by (bit_vector);
}
/// keep the t low bits
pub proof fn lemma_low_mask(x: u64, t: u64)
    requires t < 64,
    ensures forall|i: int| 0 <= i < 64 ==> #[trigger] bit(x & (((1u64 << t) - 1) as u64), i) == (i >= 64 - t && bit(x, i)),
        (1u64 << t) >= 1,
{
    assert(t < 64 ==> (1u64 << t) >= 1) by (bit_vector);
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(x & (((1u64 << t) - 1) as u64), i) == (i >= 64 - t && bit(x, i)) by {
        let j = i as u64;
        assert(t < 64 && j < 64 ==> (((x & sub(1u64 << t, 1)) & (0x8000_0000_0000_0000u64 >> j)) != 0)
            == (j >= 64 - t && (x & (0x8000_0000_0000_0000u64 >> j)) != 0)) by (bit_vector);
        assert(sub(1u64 << t, 1) == ((1u64 << t) - 1) as u64);
    }
}
pub broadcast group word_bits { b_zero, b_or, b_shl, b_shl_back, b_shr, b_shr_back, b_msb }

/// the common ways of writing the word index and the bit offset
pub broadcast proof fn b_and63(p: u32)
    ensures #[trigger] (p & 63u32) == p % 64,
{
    assert(p & 63u32 == p % 64u32) by (bit_vector);
}
pub broadcast proof fn b_and63l(p: u64)
    ensures #[trigger] (p & 63u64) == p % 64,
{
    assert(p & 63u64 == p % 64u64) by (bit_vector);
}
pub broadcast proof fn b_shr6(p: u32)
    ensures #[trigger] (p >> 6u32) == p / 64,
{
    assert(p >> 6u32 == p / 64u32) by (bit_vector);
}
pub broadcast proof fn b_shl6(p: u32)
    requires p < 0x400_0000,
    ensures #[trigger] (p << 6u32) == p * 64,
{
    assert(p < 0x400_0000u32 ==> p << 6u32 == p * 64u32) by (bit_vector);
}
pub broadcast proof fn b_shr1(p: u32)
    ensures #[trigger] (p >> 1u32) == p / 2,
{
    assert(p >> 1u32 == p / 2u32) by (bit_vector);
}
pub broadcast proof fn b_shr0(x: u64)
    ensures #[trigger] (x >> 0u64) == x,
{
    assert(x >> 0u64 == x) by (bit_vector);
}
pub broadcast proof fn b_shl0(x: u64)
    ensures #[trigger] (x << 0u64) == x,
{
    assert(x << 0u64 == x) by (bit_vector);
}
pub broadcast group word_arith { b_and63, b_and63l, b_shr6, b_shl6, b_shr1, b_shr0, b_shl0 }

// ---- counting within a word
pub proof fn lemma_wcount_bounds(x: u64, n: int)
    requires 0 <= n,
    ensures 0 <= wcount(x, n) <= n,
    decreases n,
{
    if n > 0 { lemma_wcount_bounds(x, n - 1); }
}
pub proof fn lemma_wcount_mono(x: u64, a: int, b: int)
    requires 0 <= a <= b,
    ensures wcount(x, a) <= wcount(x, b) <= wcount(x, a) + (b - a),
    decreases b,
{
    if a < b { lemma_wcount_mono(x, a, b - 1); }
}
/// equal windows hold equally many set bits
pub proof fn lemma_wcount_window(x: u64, a: int, y: u64, b: int, n: int)
    requires 0 <= n, 0 <= a, 0 <= b, forall|j: int| 0 <= j < n ==> bit(x, #[trigger] (a + j)) == bit(y, b + j),
    ensures wcount(x, a + n) - wcount(x, a) == wcount(y, b + n) - wcount(y, b),
    decreases n,
{
    if n > 0 {
        lemma_wcount_window(x, a, y, b, n - 1);
        assert(bit(x, a + (n - 1)) == bit(y, b + (n - 1)));
    }
}
pub proof fn lemma_wcount_zero(x: u64, n: int)
    requires 0 <= n, forall|j: int| 0 <= j < n ==> !#[trigger] bit(x, j),
    ensures wcount(x, n) == 0,
    decreases n,
{
    if n > 0 { lemma_wcount_zero(x, n - 1); }
}
/// population of x >> k
pub proof fn lemma_wcount_shr(x: u64, k: u64)
    requires k < 64,
    ensures wcount(x >> k, 64) == wcount(x, 64 - k),
{
    broadcast use word_bits;
    lemma_wcount_zero(x >> k, k as int);
    lemma_wcount_window(x >> k, k as int, x, 0, 64 - k);
}
pub proof fn lemma_wcount_rank(x: u64, i: int, j: int)
    requires 0 <= i, 0 <= j, bit(x, i), bit(x, j), wcount(x, i + 1) == wcount(x, j + 1),
    ensures i == j,
{
    if i < j { lemma_wcount_mono(x, i + 1, j); }
    if j < i { lemma_wcount_mono(x, j + 1, i); }
}

// ---- counting in a bit string
pub proof fn lemma_cnt_bounds(s: Seq<bool>, n: int)
    ensures 0 <= cnt(s, n), n >= 0 ==> cnt(s, n) <= n,
    decreases n,
{
    if n > 0 { lemma_cnt_bounds(s, n - 1); }
}
pub proof fn lemma_cnt_mono(s: Seq<bool>, a: int, b: int)
    requires 0 <= a <= b,
    ensures cnt(s, a) <= cnt(s, b) <= cnt(s, a) + (b - a),
    decreases b,
{
    if a < b { lemma_cnt_mono(s, a, b - 1); }
}
pub proof fn lemma_cnt_prefix(s: Seq<bool>, t: Seq<bool>, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] s[i] == t[i],
    ensures cnt(s, n) == cnt(t, n),
    decreases n,
{
    if n > 0 { lemma_cnt_prefix(s, t, n - 1); }
}
pub proof fn lemma_cnt_window(s: Seq<bool>, a: int, t: Seq<bool>, b: int, n: int)
    requires 0 <= n, 0 <= a, 0 <= b, forall|j: int| 0 <= j < n ==> s[#[trigger] (a + j)] == t[b + j],
    ensures cnt(s, a + n) - cnt(s, a) == cnt(t, b + n) - cnt(t, b),
    decreases n,
{
    if n > 0 {
        lemma_cnt_window(s, a, t, b, n - 1);
        assert(s[a + (n - 1)] == t[b + (n - 1)]);
    }
}
pub proof fn lemma_cnt_none(s: Seq<bool>, a: int, b: int)
    requires 0 <= a <= b, forall|i: int| a <= i < b ==> !#[trigger] s[i],
    ensures cnt(s, a) == cnt(s, b),
    decreases b,
{
    if a < b { lemma_cnt_none(s, a, b - 1); }
}
/// the position of the r-th set bit is unique
pub proof fn lemma_cnt_rank(s: Seq<bool>, i: int, j: int)
    requires 0 <= i, 0 <= j, s[i], s[j], cnt(s, i + 1) == cnt(s, j + 1),
    ensures i == j,
{
    if i < j { lemma_cnt_mono(s, i + 1, j); }
    if j < i { lemma_cnt_mono(s, j + 1, i); }
}
/// the r-th set bit exists
pub proof fn lemma_cnt_exists(s: Seq<bool>, n: int, r: int) -> (p: int)
    requires 0 < r <= cnt(s, n),
    ensures 0 <= p < n, s[p], cnt(s, p + 1) == r,
    decreases n,
{
    if n > 0 && s[n - 1] && cnt(s, n) == r { n - 1 } else { lemma_cnt_exists(s, n - 1, r) }
}
/// counting up to bit j of word k
pub proof fn lemma_cnt_word(ws: Seq<u64>, k: int, j: int)
    requires 0 <= k < ws.len(), 0 <= j <= 64,
    ensures cnt(wseq(ws), 64 * k + j) == cnt(wseq(ws), 64 * k) + wcount(ws[k], j),
    decreases j,
{
    if j > 0 {
        lemma_cnt_word(ws, k, j - 1);
        assert((64 * k + j - 1) / 64 == k && (64 * k + j - 1) % 64 == j - 1);
        assert(wseq(ws)[64 * k + j - 1] == bit(ws[k], j - 1));
    }
}
pub proof fn lemma_wbit(ws: Seq<u64>, k: int, j: int)
    requires 0 <= j < 64, 0 <= k < ws.len(),
    ensures wbit(ws, 64 * k + j) == bit(ws[k], j), wseq(ws)[64 * k + j] == bit(ws[k], j),
{
    assert((64 * k + j) / 64 == k && (64 * k + j) % 64 == j);
}

/// word k of the bit string
pub proof fn lemma_word_at(ws: Seq<u64>, k: int)
    ensures 0 <= k < ws.len() ==> (forall|i: int| 64 * k <= i < 64 * k + 64 ==> #[trigger] wbit(ws, i) == bit(ws[k], i - 64 * k)),
        0 <= k < ws.len() ==> (forall|j: int| 0 <= j < 64 ==> #[trigger] bit(ws[k], j) == wbit(ws, 64 * k + j)),
        0 <= k < ws.len() && ws[k] == 0 ==> (forall|i: int| 64 * k <= i < 64 * k + 64 ==> !#[trigger] wbit(ws, i)),
{
    broadcast use b_zero;
    if 0 <= k < ws.len() {
        assert forall|i: int| 64 * k <= i < 64 * k + 64 implies #[trigger] wbit(ws, i) == bit(ws[k], i - 64 * k) by { lemma_wbit(ws, k, i - 64 * k); }
        assert forall|j: int| 0 <= j < 64 implies #[trigger] bit(ws[k], j) == wbit(ws, 64 * k + j) by { lemma_wbit(ws, k, j); }
    }
}
// ---- writing a word at an arbitrary bit position
/// OR-ing w >> (p%64) into the word that holds bit p
pub proof fn lemma_blit1(ws: Seq<u64>, p: int, w: u64)
    requires 0 <= p, p / 64 < ws.len(), forall|i: int| p <= i < 64 * ws.len() ==> !#[trigger] wbit(ws, i),
    ensures ({
        let t = ws.update(p / 64, ws[p / 64] | (w >> ((p % 64) as u64)));
        forall|i: int| 0 <= i < 64 * ws.len() ==> #[trigger] wbit(t, i) ==
            if i < p { wbit(ws, i) } else if i / 64 == p / 64 { bit(w, i - p) } else { false }
    }),
{
    broadcast use word_bits;
    let t = ws.update(p / 64, ws[p / 64] | (w >> ((p % 64) as u64)));
    assert forall|i: int| 0 <= i < 64 * ws.len() implies #[trigger] wbit(t, i) ==
            if i < p { wbit(ws, i) } else if i / 64 == p / 64 { bit(w, i - p) } else { false } by {
        if i / 64 == p / 64 {
            assert(bit(t[p / 64], i % 64) == (bit(ws[p / 64], i % 64) || bit(w >> ((p % 64) as u64), i % 64)));
            if i >= p {
                assert(!wbit(ws, i));
                assert(i % 64 - p % 64 == i - p);
            }
        } else if i >= p { assert(!wbit(ws, i)); }
    }
}
/// then OR-ing w << (64 - p%64) into the next one
pub proof fn lemma_blit2(ws: Seq<u64>, p: int, w: u64)
    requires 0 <= p, p / 64 + 1 < ws.len(), p % 64 > 0,
        forall|i: int| 64 * (p / 64 + 1) <= i < 64 * ws.len() ==> !#[trigger] wbit(ws, i),
    ensures ({
        let t = ws.update(p / 64 + 1, ws[p / 64 + 1] | (w << ((64 - p % 64) as u64)));
        forall|i: int| 0 <= i < 64 * ws.len() ==> #[trigger] wbit(t, i) ==
            if i / 64 == p / 64 + 1 { i < p + 64 && bit(w, i - p) } else { wbit(ws, i) }
    }),
{
    broadcast use word_bits;
    let t = ws.update(p / 64 + 1, ws[p / 64 + 1] | (w << ((64 - p % 64) as u64)));
    assert forall|i: int| 0 <= i < 64 * ws.len() implies #[trigger] wbit(t, i) ==
            if i / 64 == p / 64 + 1 { i < p + 64 && bit(w, i - p) } else { wbit(ws, i) } by {
        if i / 64 == p / 64 + 1 {
            assert(!wbit(ws, i));
            assert(i % 64 + (64 - p % 64) == i - p);
        }
    }
}

}
