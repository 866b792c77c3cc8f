// Levels written one after the other.
verus! {
pub type Rows<T> = spec_fn(int) -> Seq<T>;
/// rows s to e - 1 in one sequence
pub open spec fn fcat<T>(f: Rows<T>, s: int, e: int) -> Seq<T>
    decreases e - s,
{
    if e <= s { Seq::empty() } else { fcat(f, s, e - 1) + f(e - 1) }
}
/// where row l begins
pub open spec fn flen<T>(f: Rows<T>, s: int, l: int) -> int
    decreases l - s,
{
    if l <= s { 0 } else { flen(f, s, l - 1) + f(l - 1).len() }
}
/// set bits before row l
pub open spec fn fcnt(f: Rows<bool>, s: int, l: int) -> int
    decreases l - s,
{
    if l <= s { 0 } else { fcnt(f, s, l - 1) + cnt(f(l - 1), f(l - 1).len() as int) }
}
pub proof fn lemma_flen<T>(f: Rows<T>, s: int, l: int)
    ensures fcat(f, s, l).len() == flen(f, s, l), flen(f, s, l) >= 0,
    decreases l - s,
{
    if l > s { lemma_flen(f, s, l - 1); }
}
pub proof fn lemma_flen_mono<T>(f: Rows<T>, s: int, a: int, b: int)
    requires s <= a <= b,
    ensures 0 <= flen(f, s, a) <= flen(f, s, b),
    decreases b - a,
{
    lemma_flen(f, s, a);
    if a < b { lemma_flen_mono(f, s, a, b - 1); }
}
/// element p of row l
pub proof fn lemma_fcat_at<T>(f: Rows<T>, s: int, e: int, l: int, p: int)
    requires s <= l < e, 0 <= p < f(l).len(),
    ensures 0 <= flen(f, s, l) + p < flen(f, s, l + 1) <= flen(f, s, e), fcat(f, s, e)[flen(f, s, l) + p] == f(l)[p],
    decreases e - l,
{
    lemma_flen(f, s, l);
    lemma_flen(f, s, e - 1);
    lemma_flen_mono(f, s, l + 1, e);
    if l < e - 1 { lemma_fcat_at(f, s, e - 1, l, p); }
}
/// set bits before element p of row l
pub proof fn lemma_fcat_cnt(f: Rows<bool>, s: int, e: int, l: int, p: int)
    requires s <= l < e, 0 <= p <= f(l).len(),
    ensures cnt(fcat(f, s, e), flen(f, s, l) + p) == fcnt(f, s, l) + cnt(f(l), p),
    decreases e - s,
{
    let w = fcat(f, s, e);
    let v = fcat(f, s, e - 1);
    lemma_flen(f, s, e - 1);
    lemma_flen(f, s, l);
    lemma_flen_mono(f, s, l + 1, e);
    if l < e - 1 {
        lemma_flen_mono(f, s, l + 1, e - 1);
        lemma_fcat_cnt(f, s, e - 1, l, p);
        lemma_cnt_prefix(w, v, flen(f, s, l) + p);
    } else {
        lemma_cnt_window(w, v.len() as int, f(l), 0, p);
        assert(cnt(f(l), 0) == 0);
        lemma_cnt_prefix(w, v, v.len() as int);
        lemma_fcnt(f, s, l);
    }
}
pub proof fn lemma_fcnt(f: Rows<bool>, s: int, l: int)
    ensures cnt(fcat(f, s, l), flen(f, s, l)) == fcnt(f, s, l), 0 <= fcnt(f, s, l) <= flen(f, s, l),
    decreases l - s,
{
    lemma_flen(f, s, l);
    if l > s {
        let w = fcat(f, s, l);
        let v = fcat(f, s, l - 1);
        lemma_fcnt(f, s, l - 1);
        lemma_flen(f, s, l - 1);
        lemma_cnt_window(w, v.len() as int, f(l - 1), 0, f(l - 1).len() as int);
        assert(cnt(f(l - 1), 0) == 0);
        lemma_cnt_prefix(w, v, v.len() as int);
        lemma_cnt_bounds(f(l - 1), f(l - 1).len() as int);
    }
}
/// rows that are equal where it matters
pub proof fn lemma_fcat_ext<T>(f: Rows<T>, g: Rows<T>, s: int, e: int)
    requires forall|l: int| s <= l < e ==> #[trigger] f(l) == g(l),
    ensures fcat(f, s, e) == fcat(g, s, e), flen(f, s, e) == flen(g, s, e),
    decreases e - s,
{
    if s < e { lemma_fcat_ext(f, g, s, e - 1); assert(f(e - 1) == g(e - 1)); }
}
pub open spec fn bit_rows(bv: Seq<Vec<u64>>, nb: Seq<u32>) -> Rows<bool> { |l: int| bits_of(bv[l]@, nb[l] as int) }
pub open spec fn byte_rows(lv: Seq<Vec<u8>>) -> Rows<u8> { |l: int| lv[l]@ }
pub proof fn lemma_catbit_flat(bv: Seq<Vec<u64>>, nb: Seq<u32>, s: int, e: int, i: int)
    ensures flen(bit_rows(bv, nb), s, e) == usum(nb, s, e),
        0 <= i < usum(nb, s, e) ==> catbit(bv, nb, s, e, i) == fcat(bit_rows(bv, nb), s, e)[i],
    decreases e - s,
{
    if s < e {
        lemma_catbit_flat(bv, nb, s, e - 1, i);
        lemma_flen(bit_rows(bv, nb), s, e - 1);
        assert(bits_of(bv[e - 1]@, nb[e - 1] as int).len() == nb[e - 1]);
    }
}
pub proof fn lemma_catlab_flat(lv: Seq<Vec<u8>>, s: int, e: int, i: int)
    ensures flen(byte_rows(lv), s, e) == llen(lv, s, e),
        0 <= i < llen(lv, s, e) ==> catlab(lv, s, e, i) == fcat(byte_rows(lv), s, e)[i],
    decreases e - s,
{
    if s < e {
        lemma_catlab_flat(lv, s, e - 1, i);
        lemma_flen(byte_rows(lv), s, e - 1);
    }
}
}
verus! {
/// a field depends on its bits only
pub proof fn lemma_field_ext(a: Seq<bool>, b: Seq<bool>, p: int, q: int, n: int)
    requires 0 <= p, 0 <= q, 0 <= n <= 64, p + n <= a.len(), q + n <= b.len(), forall|i: int| 0 <= i < n ==> a[p + i] == #[trigger] b[q + i],
    ensures field(a, p, n) == field(b, q, n),
{
    lemma_field_ok(a, p, n);
    let v = field(a, p, n);
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(v, i) == (i >= 64 - n && b[q + i - (64 - n)]) by {
        if i >= 64 - n { let k = i - (64 - n); assert(a[p + k] == b[q + k]); }
    }
    lemma_field(v, b, q, n);
}
pub open spec fn field_rows(bv: Seq<Vec<u64>>, nc: Seq<u32>, sl: int) -> Rows<u64> { |l: int| fields_of(bv[l]@, nc[l] as int, sl) }
/// fields of the levels written one after the other
pub proof fn lemma_fields_flat(bv: Seq<Vec<u64>>, nb: Seq<u32>, nc: Seq<u32>, sl: int, s: int, e: int, i: int)
    requires 0 < sl <= 64, forall|l: int| s <= l < e ==> #[trigger] nb[l] == nc[l] * sl, forall|l: int| s <= l < e ==> nb[l] <= 64 * (#[trigger] bv[l])@.len(),
    ensures flen(bit_rows(bv, nb), s, e) == flen(field_rows(bv, nc, sl), s, e) * sl,
        0 <= i < flen(field_rows(bv, nc, sl), s, e) ==> 0 <= i * sl && i * sl + sl <= flen(bit_rows(bv, nb), s, e)
            && field(fcat(bit_rows(bv, nb), s, e), i * sl, sl) == fcat(field_rows(bv, nc, sl), s, e)[i],
    decreases e - s,
{
    let f = bit_rows(bv, nb);
    let g = field_rows(bv, nc, sl);
    if s < e {
        lemma_fields_flat(bv, nb, nc, sl, s, e - 1, i);
        lemma_flen(f, s, e - 1);
        lemma_flen(g, s, e - 1);
        lemma_flen(f, s, e);
        assert(nb[e - 1] == nc[e - 1] * sl);
        assert(nb[e - 1] <= 64 * bv[e - 1]@.len());
        let x = flen(g, s, e - 1);
        let y = nc[e - 1] as int;
        assert((x + y) * sl == x * sl + y * sl) by (nonlinear_arith);
        if 0 <= i < x + y {
            assert(i * sl + sl <= (x + y) * sl && i * sl >= 0) by (nonlinear_arith) requires 0 <= i < x + y, sl > 0;
            if i < x {
                assert(i * sl + sl <= x * sl) by (nonlinear_arith) requires 0 <= i < x, sl > 0;
                lemma_field_ext(fcat(f, s, e), fcat(f, s, e - 1), i * sl, i * sl, sl);
            } else {
                let k = i - x;
                let p = i * sl;
                let q = k * sl;
                assert(p == x * sl + q) by (nonlinear_arith) requires p == i * sl, q == k * sl, k == i - x;
                assert(q + sl <= y * sl && q >= 0) by (nonlinear_arith) requires 0 <= k < y, sl > 0, q == k * sl;
                let w = wseq(bv[e - 1]@);
                assert forall|j: int| 0 <= j < sl implies fcat(f, s, e)[p + j] == #[trigger] w[q + j] by {
                    assert(f(e - 1)[q + j] == wbit(bv[e - 1]@, q + j));
                }
                lemma_field_ext(fcat(f, s, e), w, p, q, sl);
            }
        }
    } else { assert(0 * sl == 0); }
}
}
