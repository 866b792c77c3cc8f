// Values laid out in memory.
verus! {
pub broadcast proof fn lemma_up8(n: int)
    ensures n <= #[trigger] up8(n) < n + 8, al8(up8(n)), al8(n) ==> up8(n) == n,
{
    reveal(up8); reveal(al8);
}
pub proof fn lemma_up8_add(p: int, n: int)
    requires al8(p),
    ensures up8(p + n) == p + up8(n), al8(p + up8(n)), al8(n) ==> al8(p + n),
{
    reveal(up8); reveal(al8);
}
#[verifier::opaque] pub open spec fn blank(m: Seq<u8>, a: int, b: int) -> bool { 0 <= a && b <= m.len() && forall|i: int| a <= i < b ==> #[trigger] m[i] == 0 }
/// m and w have the same bytes from a to b - 1
#[verifier::opaque] pub open spec fn agree(m: Seq<u8>, w: Seq<u8>, a: int, b: int) -> bool { 0 <= a && b <= m.len() && b <= w.len() && forall|i: int| a <= i < b ==> #[trigger] m[i] == w[i] }

/// a write elsewhere leaves them
pub broadcast proof fn lemma_else32(m: Seq<u8>, w: Seq<u8>, q: int, n: int, p: int, v: u32)
    requires #[trigger] same_outside(w, m, q, n), #[trigger] at32(m, p, v), p + 4 <= q || q + n <= p,
    ensures at32(w, p, v),
{
    reveal(at32); reveal(at8s); reveal(at32s); reveal(at64s); reveal(same_outside); reveal(blank); reveal(agree);
}
pub broadcast proof fn lemma_else8s(m: Seq<u8>, w: Seq<u8>, q: int, n: int, p: int, s: Seq<u8>, k: int)
    requires #[trigger] same_outside(w, m, q, n), #[trigger] at8s(m, p, s, k), p + k <= q || q + n <= p,
    ensures at8s(w, p, s, k),
{
    reveal(at32); reveal(at8s); reveal(at32s); reveal(at64s); reveal(same_outside); reveal(blank); reveal(agree);
    assert forall|i: int| 0 <= i < k implies #[trigger] w[p + i] == s[i] by { assert(m[p + i] == s[i]); }
}
pub broadcast proof fn lemma_else32s(m: Seq<u8>, w: Seq<u8>, q: int, n: int, p: int, s: Seq<u32>)
    requires #[trigger] same_outside(w, m, q, n), #[trigger] at32s(m, p, s), p + 4 * s.len() <= q || q + n <= p,
    ensures at32s(w, p, s),
{
    reveal(at32); reveal(at8s); reveal(at32s); reveal(at64s); reveal(same_outside); reveal(blank); reveal(agree);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == le32(w, p + 4 * i) by { assert(s[i] == le32(m, p + 4 * i)); }
}
pub broadcast proof fn lemma_else64s(m: Seq<u8>, w: Seq<u8>, q: int, n: int, p: int, s: Seq<u64>)
    requires #[trigger] same_outside(w, m, q, n), #[trigger] at64s(m, p, s), p + 8 * s.len() <= q || q + n <= p,
    ensures at64s(w, p, s),
{
    reveal(at32); reveal(at8s); reveal(at32s); reveal(at64s); reveal(same_outside); reveal(blank); reveal(agree);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == le64(w, p + 8 * i) by { assert(s[i] == le64(m, p + 8 * i)); }
}
pub broadcast proof fn lemma_else0(m: Seq<u8>, w: Seq<u8>, q: int, n: int, a: int, b: int)
    requires #[trigger] same_outside(w, m, q, n), #[trigger] blank(m, a, b), b <= q || q + n <= a,
    ensures blank(w, a, b),
{
    reveal(at32); reveal(at8s); reveal(at32s); reveal(at64s); reveal(same_outside); reveal(blank); reveal(agree);
}
pub broadcast proof fn lemma_else_len(m: Seq<u8>, w: Seq<u8>, q: int, n: int)
    requires #[trigger] same_outside(w, m, q, n),
    ensures w.len() == m.len(),
{
    reveal(same_outside);
}
pub broadcast proof fn lemma_blank_len(m: Seq<u8>, a: int, b: int)
    requires #[trigger] blank(m, a, b),
    ensures 0 <= a, b <= m.len(),
{
    reveal(blank);
}
pub broadcast proof fn lemma_else_join(m: Seq<u8>, w: Seq<u8>, x: Seq<u8>, q: int, n: int, a: int, b: int)
    requires #[trigger] same_outside(w, m, q, n), #[trigger] same_outside(m, x, a, b), a + b <= q, 0 <= n,  0 <= b,
    ensures same_outside(w, x, a, q + n - a),
{
    reveal(same_outside);
}
pub broadcast proof fn lemma_at_len32(m: Seq<u8>, p: int, v: u32)
    requires #[trigger] at32(m, p, v),
    ensures 0 <= p, p + 4 <= m.len(),
{
    reveal(at32);
}
pub broadcast proof fn lemma_at_len32s(m: Seq<u8>, p: int, s: Seq<u32>)
    requires #[trigger] at32s(m, p, s),
    ensures 0 <= p, p + 4 * s.len() <= m.len(),
{
    reveal(at32s);
}
pub broadcast proof fn lemma_at_len64s(m: Seq<u8>, p: int, s: Seq<u64>)
    requires #[trigger] at64s(m, p, s),
    ensures 0 <= p, p + 8 * s.len() <= m.len(),
{
    reveal(at64s);
}
pub broadcast group stored_in { lemma_at_len32, lemma_at_len32s, lemma_at_len64s, lemma_blank_len }
pub proof fn lemma_blank_sub(m: Seq<u8>, a: int, b: int, c: int, d: int)
    requires blank(m, a, b), a <= c, d <= b,
    ensures blank(m, c, d),
{
    reveal(blank);
}
pub broadcast group elsewhere { lemma_else_len, lemma_blank_len, lemma_else_join, lemma_else32, lemma_else8s, lemma_else32s, lemma_else64s, lemma_else0 }

/// the same value, the same bytes
pub proof fn lemma_le32_one(m: Seq<u8>, w: Seq<u8>, p: int, q: int)
    requires le32(m, p) == le32(w, q),
    ensures m[p] == w[q], m[p + 1] == w[q + 1], m[p + 2] == w[q + 2], m[p + 3] == w[q + 3],
{
    let (a, b, c, d) = (m[p], m[p + 1], m[p + 2], m[p + 3]);
    let (e, f, g, h) = (w[q], w[q + 1], w[q + 2], w[q + 3]);
    assert((a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24) == (e as u32) | ((f as u32) << 8) | ((g as u32) << 16) | ((h as u32) << 24)
        ==> a == e && b == f && c == g && d == h) by (bit_vector);
}
pub proof fn lemma_le64_one(m: Seq<u8>, w: Seq<u8>, p: int, q: int)
    requires le64(m, p) == le64(w, q),
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] m[p + i] == w[q + i],
{
    let (a, b, c, d) = (m[p], m[p + 1], m[p + 2], m[p + 3]);
    let (e, f, g, h) = (m[p + 4], m[p + 5], m[p + 6], m[p + 7]);
    let (i, j, k, l) = (w[q], w[q + 1], w[q + 2], w[q + 3]);
    let (r, s, t, u) = (w[q + 4], w[q + 5], w[q + 6], w[q + 7]);
    assert((a as u64) | ((b as u64) << 8) | ((c as u64) << 16) | ((d as u64) << 24) | ((e as u64) << 32) | ((f as u64) << 40) | ((g as u64) << 48) | ((h as u64) << 56)
        == (i as u64) | ((j as u64) << 8) | ((k as u64) << 16) | ((l as u64) << 24) | ((r as u64) << 32) | ((s as u64) << 40) | ((t as u64) << 48) | ((u as u64) << 56)
        ==> a == i && b == j && c == k && d == l && e == r && f == s && g == t && h == u) by (bit_vector);
    assert forall|x: int| 0 <= x < 8 implies #[trigger] m[p + x] == w[q + x] by { }
}
pub broadcast proof fn lemma_one32(m: Seq<u8>, w: Seq<u8>, p: int, v: u32)
    requires #[trigger] at32(m, p, v), #[trigger] at32(w, p, v),
    ensures agree(m, w, p, p + 4),
{
    reveal(at32); reveal(at8s); reveal(at32s); reveal(at64s); reveal(same_outside); reveal(blank); reveal(agree);
    lemma_le32_one(m, w, p, p);
    assert forall|i: int| p <= i < p + 4 implies #[trigger] m[i] == w[i] by { assert(i == p || i == p + 1 || i == p + 2 || i == p + 3); }
}
pub broadcast proof fn lemma_one8s(m: Seq<u8>, w: Seq<u8>, p: int, s: Seq<u8>, t: Seq<u8>, n: int)
    requires #[trigger] at8s(m, p, s, n), #[trigger] at8s(w, p, t, n), forall|i: int| 0 <= i < n ==> #[trigger] s[i] == t[i],
    ensures agree(m, w, p, p + n),
{
    reveal(at32); reveal(at8s); reveal(at32s); reveal(at64s); reveal(same_outside); reveal(blank); reveal(agree);
    assert forall|i: int| p <= i < p + n implies #[trigger] m[i] == w[i] by { assert(m[p + (i - p)] == s[i - p] && w[p + (i - p)] == t[i - p]); }
}
pub broadcast proof fn lemma_one32s(m: Seq<u8>, w: Seq<u8>, p: int, s: Seq<u32>)
    requires #[trigger] at32s(m, p, s), #[trigger] at32s(w, p, s),
    ensures agree(m, w, p, p + 4 * s.len()),
{
    reveal(at32); reveal(at8s); reveal(at32s); reveal(at64s); reveal(same_outside); reveal(blank); reveal(agree);
    assert forall|i: int| p <= i < p + 4 * s.len() implies #[trigger] m[i] == w[i] by {
        let k = (i - p) / 4;
        assert(s[k] == le32(m, p + 4 * k) && s[k] == le32(w, p + 4 * k));
        lemma_le32_one(m, w, p + 4 * k, p + 4 * k);
        let x = (i - p) % 4;
        assert(i == p + 4 * k + x && (x == 0 || x == 1 || x == 2 || x == 3));
    }
}
pub broadcast proof fn lemma_one64s(m: Seq<u8>, w: Seq<u8>, p: int, s: Seq<u64>)
    requires #[trigger] at64s(m, p, s), #[trigger] at64s(w, p, s),
    ensures agree(m, w, p, p + 8 * s.len()),
{
    reveal(at32); reveal(at8s); reveal(at32s); reveal(at64s); reveal(same_outside); reveal(blank); reveal(agree);
    assert forall|i: int| p <= i < p + 8 * s.len() implies #[trigger] m[i] == w[i] by {
        let k = (i - p) / 8;
        assert(s[k] == le64(m, p + 8 * k) && s[k] == le64(w, p + 8 * k));
        lemma_le64_one(m, w, p + 8 * k, p + 8 * k);
        let x = (i - p) % 8;
        assert(m[p + 8 * k + x] == w[p + 8 * k + x]);
    }
}
pub broadcast proof fn lemma_one0(m: Seq<u8>, w: Seq<u8>, a: int, b: int)
    requires #[trigger] blank(m, a, b), #[trigger] blank(w, a, b),
    ensures agree(m, w, a, b),
{
    reveal(at32); reveal(at8s); reveal(at32s); reveal(at64s); reveal(same_outside); reveal(blank); reveal(agree);
}
pub broadcast group one { lemma_one32, lemma_one8s, lemma_one32s, lemma_one64s, lemma_one0 }
pub proof fn lemma_agree_join(m: Seq<u8>, w: Seq<u8>, a: int, b: int, c: int)
    requires agree(m, w, a, b), agree(m, w, b, c), a <= b,
    ensures agree(m, w, a, c),
{
    reveal(at32); reveal(at8s); reveal(at32s); reveal(at64s); reveal(same_outside); reveal(blank); reveal(agree);
}
pub broadcast group img_else { BitvectorRank::lemma_img_else, BitvectorSelect::lemma_img_else, BitvectorSuffix::lemma_img_else, LabelVector::lemma_img_else }
pub broadcast group sizes { BitvectorRank::lemma_pos, BitvectorSelect::lemma_pos, BitvectorSuffix::lemma_pos, LabelVector::lemma_pos }
}
