// Per-level vectors seen as one concatenated sequence.
verus! {
/// a[from] + ... + a[to-1]
pub open spec fn usum(a: Seq<u32>, from: int, to: int) -> int
    decreases to - from,
{
    if to <= from { 0 } else { usum(a, from, to - 1) + a[to - 1] }
}
pub proof fn lemma_usum_mono(a: Seq<u32>, from: int, m: int, to: int)
    requires 0 <= from <= m <= to <= a.len(),
    ensures 0 <= usum(a, from, m) <= usum(a, from, to),
    decreases to - from,
{
    if m < to { lemma_usum_mono(a, from, m, to - 1); }
    else if from < m { lemma_usum_mono(a, from, m - 1, m - 1); }
}
/// every level has room for its bits and nothing beyond them is set in the last word
pub open spec fn levels_ok(bv: Seq<Vec<u64>>, nb: Seq<u32>, from: int, to: int) -> bool {
    &&& 0 <= from <= to <= bv.len() && to <= nb.len()
    &&& forall|l: int| from <= l < to ==> level_ok((#[trigger] bv[l])@, nb[l] as int)
    &&& usum(nb, from, to) <= 0xff00_0000
}
pub open spec fn level_ok(w: Seq<u64>, n: int) -> bool {
    &&& n <= 64 * w.len()
    &&& forall|i: int| n <= i < 64 * ((n + 63) / 64) ==> !#[trigger] wbit(w, i)
}
/// bit i of the levels [from, to) written one after the other
pub open spec fn catbit(bv: Seq<Vec<u64>>, nb: Seq<u32>, from: int, to: int, i: int) -> bool
    decreases to - from,
{
    if to <= from { false }
    else if i < usum(nb, from, to - 1) { catbit(bv, nb, from, to - 1, i) }
    else { wbit(bv[to - 1]@, i - usum(nb, from, to - 1)) }
}
/// the same, addressed by level
pub proof fn lemma_catbit(bv: Seq<Vec<u64>>, nb: Seq<u32>, from: int, to: int, l: int, k: int)
    requires 0 <= from <= l < to <= nb.len(), 0 <= k < nb[l],
    ensures catbit(bv, nb, from, to, usum(nb, from, l) + k) == wbit(bv[l]@, k),
        usum(nb, from, l) + k < usum(nb, from, to),
    decreases to,
{
    lemma_usum_mono(nb, from, l + 1, to);
    if l < to - 1 {
        lemma_usum_mono(nb, from, l + 1, to - 1);
        lemma_catbit(bv, nb, from, to - 1, l, k);
    }
}
}
verus! {
/// total length of the levels [from, to)
pub open spec fn llen(lv: Seq<Vec<u8>>, from: int, to: int) -> int
    decreases to - from,
{
    if to <= from { 0 } else { llen(lv, from, to - 1) + lv[to - 1]@.len() }
}
pub proof fn lemma_llen_mono(lv: Seq<Vec<u8>>, from: int, m: int, to: int)
    requires 0 <= from <= m <= to <= lv.len(),
    ensures 0 <= llen(lv, from, m) <= llen(lv, from, to),
    decreases to - from,
{
    if m < to { lemma_llen_mono(lv, from, m, to - 1); }
    else if from < m { lemma_llen_mono(lv, from, m - 1, m - 1); }
}
/// byte i of the levels [from, to) written one after the other
pub open spec fn catlab(lv: Seq<Vec<u8>>, from: int, to: int, i: int) -> u8
    decreases to - from,
{
    if to <= from { 0 }
    else if i < llen(lv, from, to - 1) { catlab(lv, from, to - 1, i) }
    else { lv[to - 1]@[i - llen(lv, from, to - 1)] }
}
pub proof fn lemma_catlab(lv: Seq<Vec<u8>>, from: int, to: int, l: int, k: int)
    requires 0 <= from <= l < to <= lv.len(), 0 <= k < lv[l]@.len(),
    ensures catlab(lv, from, to, llen(lv, from, l) + k) == lv[l]@[k],
        llen(lv, from, l) + k < llen(lv, from, to),
    decreases to,
{
    lemma_llen_mono(lv, from, l + 1, to);
    if l < to - 1 {
        lemma_llen_mono(lv, from, l + 1, to - 1);
        lemma_catlab(lv, from, to - 1, l, k);
    }
}
}
verus! {
pub proof fn lemma_usum_zero(a: Seq<u32>, s: int, e: int)
    requires forall|l: int| s <= l < e ==> #[trigger] a[l] == 0,
    ensures usum(a, s, e) == 0,
    decreases e - s,
{
    if s < e { lemma_usum_zero(a, s, e - 1); assert(a[e - 1] == 0); }
}
}
