verus! {
pub proof fn lemma_sh32()
    ensures 32u32 >> 1u32 == 16, 16u32 >> 1u32 == 8, 8u32 >> 1u32 == 4, 4u32 >> 1u32 == 2, 2u32 >> 1u32 == 1, 1u32 >> 1u32 == 0,
{
    assert(32u32 >> 1u32 == 16 && 16u32 >> 1u32 == 8 && 8u32 >> 1u32 == 4 && 4u32 >> 1u32 == 2 && 2u32 >> 1u32 == 1 && 1u32 >> 1u32 == 0) by (bit_vector);
}
/// x holds, in its w low bits, the bits [s, s+w) of x0, and the k-th set bit of that window is the k0-th of x0
pub open spec fn sel_window(x0: u64, k0: int, x: u64, k: int, s: int, w: int) -> bool {
    &&& 0 <= s && 1 <= w && s + w <= 64
    &&& forall|i: int| 0 <= i < 64 ==> #[trigger] bit(x, i) == (i >= 64 - w && bit(x0, s + i - (64 - w)))
    &&& k == k0 - wcount(x0, s)
    &&& 1 <= k <= wcount(x0, s + w) - wcount(x0, s)
}
pub proof fn lemma_sel_step(x0: u64, k0: int, x: u64, k: int, s: int, t: int)
    requires sel_window(x0, k0, x, k, s, 2 * t), 0 < t <= 32,
    ensures
        wcount(x, 64 - t) == wcount(x0, s + t) - wcount(x0, s),
        k > wcount(x, 64 - t) ==> sel_window(x0, k0, x & (((1u64 << (t as u64)) - 1) as u64), k - wcount(x, 64 - t), s + t, t),
        k <= wcount(x, 64 - t) ==> sel_window(x0, k0, x >> (t as u64), k, s, t),
        t == 1 && k > wcount(x, 64 - t) ==> k - wcount(x, 64 - t) == 1,
{
    broadcast use word_bits;
    lemma_low_mask(x, t as u64);
    lemma_wcount_zero(x, 64 - 2 * t);
    assert forall|j: int| 0 <= j < t implies bit(x, #[trigger] (64 - 2 * t + j)) == bit(x0, s + j) by {}
    lemma_wcount_window(x, 64 - 2 * t, x0, s, t);
}
}
verus! {
pub proof fn lemma_cnt_word1(ws: Seq<u64>, k: int)
    requires 0 <= k < ws.len(),
    ensures cnt(wseq(ws), 64 * (k + 1)) == cnt(wseq(ws), 64 * k) + wcount(ws[k], 64), 0 <= wcount(ws[k], 64) <= 64,
{
    lemma_cnt_word(ws, k, 64);
    lemma_wcount_bounds(ws[k], 64);
}
pub proof fn lemma_cnt_words(ws: Seq<u64>)
    ensures forall|k: int| #![trigger ws[k]] 0 <= k < ws.len() ==>
        cnt(wseq(ws), 64 * (k + 1)) == cnt(wseq(ws), 64 * k) + wcount(ws[k], 64) && 0 <= wcount(ws[k], 64) <= 64,
{
    assert forall|k: int| #![trigger ws[k]] 0 <= k < ws.len() implies
        cnt(wseq(ws), 64 * (k + 1)) == cnt(wseq(ws), 64 * k) + wcount(ws[k], 64) && 0 <= wcount(ws[k], 64) <= 64 by {
        lemma_cnt_word(ws, k, 64);
        lemma_wcount_bounds(ws[k], 64);
    }
}
/// the k-th set bit of word w is the k-th one past the bits before the word
pub proof fn lemma_cnt_sel(ws: Seq<u64>, w: int, k: int)
    requires 0 <= w < ws.len(),
    ensures forall|j: int| 0 <= j < 64 && #[trigger] bit(ws[w], j) && wcount(ws[w], j + 1) == k ==>
        wseq(ws)[64 * w + j] && cnt(wseq(ws), 64 * w + j + 1) == cnt(wseq(ws), 64 * w) + k,
{
    assert forall|j: int| 0 <= j < 64 && #[trigger] bit(ws[w], j) && wcount(ws[w], j + 1) == k implies
        wseq(ws)[64 * w + j] && cnt(wseq(ws), 64 * w + j + 1) == cnt(wseq(ws), 64 * w) + k by {
        lemma_cnt_word(ws, w, j + 1);
        lemma_wbit(ws, w, j);
    }
}
}
