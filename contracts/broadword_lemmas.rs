// The broadword selection of the k-th set bit of a word, from the least significant end.
verus! {
/// set bits below position r
pub open spec fn below_count(x: u64, r: int) -> int { wcount(x, 64) - wcount(x, 64 - r) }
pub open spec fn byte_at(x: u64, i: int) -> u64 { (x >> ((8 * i) as u64)) & 0xff }
pub open spec fn msbs() -> u64 { 0x8080808080808080u64 }
pub open spec fn ones() -> u64 { 0x0101010101010101u64 }
/// bytewise x <= y for bytes below 128: 1 or 0 in each byte
pub open spec fn leq8(x: u64, y: u64) -> u64 { (((sub(y | msbs(), x & !msbs()) ^ x) ^ y) & msbs()) >> 7 }
/// bytewise x != 0
pub open spec fn nonzero8(x: u64) -> u64 { ((x | sub(x | msbs(), ones())) & msbs()) >> 7 }
/// byte i of c times 0x0101..01 is the sum of bytes 0..i
pub proof fn lemma_prefix_bytes(c: u64, m: u64)
    requires c & 0xf0f0f0f0f0f0f0f0u64 == 0, m == mul(c, ones()),
        c & 0xff <= 8, (c >> 8) & 0xff <= 8, (c >> 16) & 0xff <= 8, (c >> 24) & 0xff <= 8, (c >> 32) & 0xff <= 8, (c >> 40) & 0xff <= 8, (c >> 48) & 0xff <= 8, (c >> 56) & 0xff <= 8,
    ensures m & msbs() == 0,
        (m & 0xff) == (c & 0xff),
        ((m >> 8) & 0xff) == (m & 0xff) + ((c >> 8) & 0xff),
        ((m >> 16) & 0xff) == ((m >> 8) & 0xff) + ((c >> 16) & 0xff),
        ((m >> 24) & 0xff) == ((m >> 16) & 0xff) + ((c >> 24) & 0xff),
        ((m >> 32) & 0xff) == ((m >> 24) & 0xff) + ((c >> 32) & 0xff),
        ((m >> 40) & 0xff) == ((m >> 32) & 0xff) + ((c >> 40) & 0xff),
        ((m >> 48) & 0xff) == ((m >> 40) & 0xff) + ((c >> 48) & 0xff),
        ((m >> 56) & 0xff) == ((m >> 48) & 0xff) + ((c >> 56) & 0xff),
{
    assert(m & 0x8080808080808080u64 == 0 && (m & 0xff) == (c & 0xff) && ((m >> 8) & 0xff) == add(m & 0xff, (c >> 8) & 0xff)
        && ((m >> 16) & 0xff) == add((m >> 8) & 0xff, (c >> 16) & 0xff) && ((m >> 24) & 0xff) == add((m >> 16) & 0xff, (c >> 24) & 0xff)
        && ((m >> 32) & 0xff) == add((m >> 24) & 0xff, (c >> 32) & 0xff) && ((m >> 40) & 0xff) == add((m >> 32) & 0xff, (c >> 40) & 0xff)
        && ((m >> 48) & 0xff) == add((m >> 40) & 0xff, (c >> 48) & 0xff) && ((m >> 56) & 0xff) == add((m >> 48) & 0xff, (c >> 56) & 0xff)
        && (m & 0xff) < 128 && ((m >> 8) & 0xff) < 128 && ((m >> 16) & 0xff) < 128 && ((m >> 24) & 0xff) < 128 && ((m >> 32) & 0xff) < 128 && ((m >> 40) & 0xff) < 128 && ((m >> 48) & 0xff) < 128) by (bit_vector)
        requires c & 0xf0f0f0f0f0f0f0f0u64 == 0, m == mul(c, 0x0101010101010101u64),
            c & 0xff <= 8, (c >> 8) & 0xff <= 8, (c >> 16) & 0xff <= 8, (c >> 24) & 0xff <= 8, (c >> 32) & 0xff <= 8, (c >> 40) & 0xff <= 8, (c >> 48) & 0xff <= 8, (c >> 56) & 0xff <= 8;
}
/// the comparison, byte by byte
pub proof fn lemma_leq8(m: u64, k: u64)
    requires m & msbs() == 0, k < 128,
    ensures leq8(m, mul(k, ones())) & 0xfefefefefefefefeu64 == 0,
        forall|i: int| 0 <= i < 8 ==> #[trigger] byte_at(leq8(m, mul(k, ones())), i) == if byte_at(m, i) <= k { 1u64 } else { 0 },
{
    let y = mul(k, 0x0101010101010101u64);
    let w = leq8(m, y);
    assert(w & 0xfefefefefefefefeu64 == 0) by (bit_vector)
        requires w == (((sub(y | 0x8080808080808080u64, m & !0x8080808080808080u64) ^ m) ^ y) & 0x8080808080808080u64) >> 7;
    assert forall|i: int| 0 <= i < 8 implies #[trigger] byte_at(w, i) == if byte_at(m, i) <= k { 1u64 } else { 0 } by {
        let s = (8 * i) as u64;
        assert((w >> s) & 0xff == if ((m >> s) & 0xff) <= k { 1u64 } else { 0 }) by (bit_vector)
            requires w == (((sub(y | 0x8080808080808080u64, m & !0x8080808080808080u64) ^ m) ^ y) & 0x8080808080808080u64) >> 7,
                y == mul(k, 0x0101010101010101u64), k < 128, m & 0x8080808080808080u64 == 0,
                s == 0 || s == 8 || s == 16 || s == 24 || s == 32 || s == 40 || s == 48 || s == 56;
    }
}
}
verus! {
pub proof fn lemma_mul_ones(c: u64)
    ensures (c as int * 0x0101010101010101int) % P64() == mul(c, ones()), mul(c, ones()) == mul(c, 0x0101010101010101u64),
{
    let p = (c as u128 * 0x0101010101010101u128) as u128;
    let m = (p % 0x1_0000_0000_0000_0000u128) as u64;
    assert(p == mul(c as u128, 0x0101010101010101u128));
    assert(m == (p as int) % P64());
    assert(m == mul(c, 0x0101010101010101u64)) by (bit_vector)
        requires p == mul(c as u128, 0x0101010101010101u128), m == (p % 0x1_0000_0000_0000_0000u128) as u64;
}
/// adding up bytes that are 0 or 1
pub proof fn lemma_sum_flags(w: u64)
    requires w & 0xfefefefefefefefeu64 == 0,
    ensures mul(w, ones()) >> 56 == byte_at(w, 0) + byte_at(w, 1) + byte_at(w, 2) + byte_at(w, 3) + byte_at(w, 4) + byte_at(w, 5) + byte_at(w, 6) + byte_at(w, 7),
        byte_at(w, 7) == 0 ==> (mul(w, ones()) >> 53) & 0xffff_ffff_ffff_fff8u64 == 8 * (mul(w, ones()) >> 56),
{
    let m = mul(w, 0x0101010101010101u64);
    let r = m >> 56;
    assert(w >> 0 == w) by (bit_vector);
    assert(r == add(add(add(w & 0xff, (w >> 8) & 0xff), add((w >> 16) & 0xff, (w >> 24) & 0xff)),
        add(add((w >> 32) & 0xff, (w >> 40) & 0xff), add((w >> 48) & 0xff, (w >> 56) & 0xff)))
        && w & 0xff <= 1 && (w >> 8) & 0xff <= 1 && (w >> 16) & 0xff <= 1 && (w >> 24) & 0xff <= 1 && (w >> 32) & 0xff <= 1 && (w >> 40) & 0xff <= 1 && (w >> 48) & 0xff <= 1 && (w >> 56) & 0xff <= 1
        && ((w >> 56) & 0xff == 0 ==> (m >> 53) & 0xffff_ffff_ffff_fff8u64 == mul(8, r)) && r <= 8) by (bit_vector)
        requires r == m >> 56, m == mul(w, 0x0101010101010101u64), w & 0xfefefefefefefefeu64 == 0;
}
/// inside a byte
pub open spec fn spread8(b: u64) -> u64 { mul(b, ones()) & 0x8040201008040201u64 }
pub open spec fn in_byte(b: u64, q: u64) -> u64 { mul(leq8(mul(nonzero8(spread8(b)), ones()), mul(q, ones())), ones()) >> 56 }
pub open spec fn bits_below(b: u64, r: u64) -> u64 {
    add(add(add(if 0 < r { b & 1 } else { 0 }, if 1 < r { (b >> 1) & 1 } else { 0 }), add(if 2 < r { (b >> 2) & 1 } else { 0 }, if 3 < r { (b >> 3) & 1 } else { 0 })),
        add(add(if 4 < r { (b >> 4) & 1 } else { 0 }, if 5 < r { (b >> 5) & 1 } else { 0 }), add(if 6 < r { (b >> 6) & 1 } else { 0 }, if 7 < r { (b >> 7) & 1 } else { 0 })))
}
pub proof fn lemma_in_byte(b: u64, q: u64)
    requires b < 256, q < bits_below(b, 8),
    ensures in_byte(b, q) < 8, (b >> in_byte(b, q)) & 1 == 1, bits_below(b, in_byte(b, q)) == q,
{
    let s = mul(b, 0x0101010101010101u64) & 0x8040201008040201u64;
    let n = ((s | sub(s | 0x8080808080808080u64, 0x0101010101010101u64)) & 0x8080808080808080u64) >> 7;
    let m = mul(n, 0x0101010101010101u64);
    let y = mul(q, 0x0101010101010101u64);
    let w = (((sub(y | 0x8080808080808080u64, m & !0x8080808080808080u64) ^ m) ^ y) & 0x8080808080808080u64) >> 7;
    let r = mul(w, 0x0101010101010101u64) >> 56;
    assert(r < 8 && (b >> r) & 1 == 1 && q ==
      add(add(add(if 0 < r { b & 1 } else { 0 }, if 1 < r { (b >> 1) & 1 } else { 0 }), add(if 2 < r { (b >> 2) & 1 } else { 0 }, if 3 < r { (b >> 3) & 1 } else { 0 })),
        add(add(if 4 < r { (b >> 4) & 1 } else { 0 }, if 5 < r { (b >> 5) & 1 } else { 0 }), add(if 6 < r { (b >> 6) & 1 } else { 0 }, if 7 < r { (b >> 7) & 1 } else { 0 })))) by (bit_vector)
        requires s == mul(b, 0x0101010101010101u64) & 0x8040201008040201u64,
            n == ((s | sub(s | 0x8080808080808080u64, 0x0101010101010101u64)) & 0x8080808080808080u64) >> 7,
            m == mul(n, 0x0101010101010101u64), y == mul(q, 0x0101010101010101u64),
            w == (((sub(y | 0x8080808080808080u64, m & !0x8080808080808080u64) ^ m) ^ y) & 0x8080808080808080u64) >> 7,
            r == mul(w, 0x0101010101010101u64) >> 56, b < 256,
            q < add(add(add(b & 1, (b >> 1) & 1), add((b >> 2) & 1, (b >> 3) & 1)), add(add((b >> 4) & 1, (b >> 5) & 1), add((b >> 6) & 1, (b >> 7) & 1)));
    assert(q < add(add(add(b & 1, (b >> 1) & 1), add((b >> 2) & 1, (b >> 3) & 1)), add(add((b >> 4) & 1, (b >> 5) & 1), add((b >> 6) & 1, (b >> 7) & 1))));
}
}
verus! {
/// the bits of byte p below its position r
proof fn lemma_part(x: u64, p: int, r: int)
    requires 0 <= p < 8, 0 <= r <= 8,
    ensures below_count(x, 8 * p + r) - below_count(x, 8 * p) == bits_below(byte_at(x, p), r as u64), bits_below(byte_at(x, p), r as u64) <= 8, byte_at(x, p) < 256,
    decreases r,
{
    let s = (8 * p) as u64;
    let b = byte_at(x, p);
    assert((x >> s) & 0xff < 256) by (bit_vector);
    lemma_bits_below(b);
    if r > 0 {
        lemma_part(x, p, r - 1);
        lemma_sbit(x);
        let i = (r - 1) as u64;
        let z = add(s, i);
        assert((((x >> s) & 0xff) >> i) & 1 == (x >> z) & 1) by (bit_vector) requires i < 8, s <= 56, z == add(s, i);
        assert(bit(x, 63 - (8 * p + r - 1)) == (sbit(x, z) == 1));
        assert(wcount(x, 64 - (8 * p + r) + 1) == wcount(x, 64 - (8 * p + r)) + if bit(x, 64 - (8 * p + r)) { 1int } else { 0int });
    }
}
proof fn lemma_bits_below(b: u64)
    ensures forall|r: u64| 0 < r <= 8 ==> #[trigger] bits_below(b, r) == bits_below(b, (r - 1) as u64) + ((b >> ((r - 1) as u64)) & 1), bits_below(b, 0) == 0,
        forall|r: u64| #[trigger] bits_below(b, r) <= 8,
{
    assert(b >> 0 == b) by (bit_vector);
    assert((b & 1) <= 1 && ((b >> 1) & 1) <= 1 && ((b >> 2) & 1) <= 1 && ((b >> 3) & 1) <= 1 && ((b >> 4) & 1) <= 1 && ((b >> 5) & 1) <= 1 && ((b >> 6) & 1) <= 1 && ((b >> 7) & 1) <= 1) by (bit_vector);
    assert forall|r: u64| 0 < r <= 8 implies #[trigger] bits_below(b, r) == bits_below(b, (r - 1) as u64) + ((b >> ((r - 1) as u64)) & 1) by { }
}
/// the steps of the selection
pub open spec fn bw_c(x: u64) -> u64 { swar3(swar2(swar1(x))) }
pub open spec fn bw_s(x: u64) -> u64 { mul(bw_c(x), ones()) }
pub open spec fn bw_w(x: u64, k: u64) -> u64 { leq8(bw_s(x), mul(k, ones())) }
pub open spec fn bw_place(x: u64, k: u64) -> u64 { (mul(bw_w(x, k), ones()) >> 53) & 0xffff_ffff_ffff_fff8u64 }
pub open spec fn bw_prev(x: u64, k: u64) -> u64 { ((bw_s(x) << 8) >> bw_place(x, k)) & 0xff }
proof fn lemma_bw_sums(x: u64)
    ensures bw_s(x) & msbs() == 0, forall|i: int| 0 <= i < 8 ==> (#[trigger] byte_at(bw_s(x), i)) == below_count(x, 8 * (i + 1)),
{
    let c = bw_c(x);
    let b = swar2(swar1(x));
    let y = add(b, b >> 4);
    assert((y & 0x0F0F0F0F0F0F0F0Fu64) & 0xf0f0f0f0f0f0f0f0u64 == 0) by (bit_vector);
    assert(c >> 0 == c && bw_s(x) >> 0 == bw_s(x)) by (bit_vector);
    lemma_swar_byte(x, 0); lemma_swar_byte(x, 8); lemma_swar_byte(x, 16); lemma_swar_byte(x, 24);
    lemma_swar_byte(x, 32); lemma_swar_byte(x, 40); lemma_swar_byte(x, 48); lemma_swar_byte(x, 56);
    lemma_wcount8(x, 0); lemma_wcount8(x, 8); lemma_wcount8(x, 16); lemma_wcount8(x, 24);
    lemma_wcount8(x, 32); lemma_wcount8(x, 40); lemma_wcount8(x, 48); lemma_wcount8(x, 56);
    lemma_sbit(x);
    lemma_prefix_bytes(c, bw_s(x));
}
pub proof fn lemma_broadword(x: u64, k: u64)
    requires k < wcount(x, 64),
    ensures bw_place(x, k) <= 56, bw_prev(x, k) <= k,
        in_byte((x >> bw_place(x, k)) & 0xff, (k - bw_prev(x, k)) as u64) < 8,
        bit(x, 63 - (bw_place(x, k) + in_byte((x >> bw_place(x, k)) & 0xff, (k - bw_prev(x, k)) as u64))),
        below_count(x, bw_place(x, k) + in_byte((x >> bw_place(x, k)) & 0xff, (k - bw_prev(x, k)) as u64)) == k,
{
    let s = bw_s(x);
    let w = bw_w(x, k);
    lemma_wcount_bounds(x, 64);
    lemma_bw_sums(x);
    lemma_leq8(s, k);
    lemma_sum_flags(w);
    let f = |i: int| below_count(x, 8 * i);
    assert forall|i: int| 0 <= i < 8 implies below_count(x, 8 * i) <= #[trigger] below_count(x, 8 * (i + 1)) by { lemma_wcount_mono(x, 64 - 8 * (i + 1), 64 - 8 * i); }
    assert(below_count(x, 0) == 0);
    assert(below_count(x, 64) == wcount(x, 64));
    assert(byte_at(s, 0) == below_count(x, 8) && byte_at(s, 1) == below_count(x, 16) && byte_at(s, 2) == below_count(x, 24) && byte_at(s, 3) == below_count(x, 32)
        && byte_at(s, 4) == below_count(x, 40) && byte_at(s, 5) == below_count(x, 48) && byte_at(s, 6) == below_count(x, 56) && byte_at(s, 7) == below_count(x, 64));
    assert(below_count(x, 8) <= below_count(x, 8 * (1int + 1)) && below_count(x, 16) <= below_count(x, 8 * (2int + 1)) && below_count(x, 24) <= below_count(x, 8 * (3int + 1)) && below_count(x, 32) <= below_count(x, 8 * (4int + 1))
        && below_count(x, 40) <= below_count(x, 8 * (5int + 1)) && below_count(x, 48) <= below_count(x, 8 * (6int + 1)) && below_count(x, 56) <= below_count(x, 8 * (7int + 1)));
    let p = (mul(w, ones()) >> 56) as int;
    assert(0 <= p < 8 && below_count(x, 8 * p) <= k < below_count(x, 8 * (p + 1)));
    let pl = bw_place(x, k);
    assert(pl == 8 * p);
    assert(bw_prev(x, k) == below_count(x, 8 * p)) by {
        if p == 0 {
            assert(((s << 8) >> 0) & 0xff == 0) by (bit_vector);
        } else {
            let q = (8 * (p - 1)) as u64;
            assert(((s << 8) >> pl) & 0xff == (s >> q) & 0xff) by (bit_vector) requires pl == add(q, 8), q <= 48;
            assert(byte_at(s, p - 1) == below_count(x, 8 * (p - 1 + 1)));
        }
    }
    let b = (x >> pl) & 0xff;
    assert(b == byte_at(x, p));
    let q = (k - bw_prev(x, k)) as u64;
    lemma_part(x, p, 8);
    lemma_in_byte(b, q);
    let r = in_byte(b, q);
    lemma_part(x, p, r as int);
    lemma_sbit(x);
    let z = add(pl, r);
    assert((((x >> pl) & 0xff) >> r) & 1 == (x >> z) & 1) by (bit_vector) requires r < 8, pl <= 56, z == add(pl, r);
    assert(bit(x, 63 - (pl + r)) == (sbit(x, z) == 1));
}
}
verus! {
/// no step of the selection borrows, so the machine's steps are those above
pub proof fn lemma_bw_steps(x: u64, k: u64)
    requires k < wcount(x, 64),
    ensures
        (bw_c(x) as int * 0x0101010101010101int) % P64() == bw_s(x),
        (k as int * 0x0101010101010101int) % P64() == mul(k, ones()),
        (mul(k, ones()) | msbs()) >= (bw_s(x) & 0x7f7f7f7f7f7f7f7fu64),
        ((((((mul(k, ones()) | msbs()) - (bw_s(x) & 0x7f7f7f7f7f7f7f7fu64)) as u64) ^ bw_s(x)) ^ mul(k, ones())) & msbs()) >> 7 == bw_w(x, k),
        (bw_w(x, k) as int * 0x0101010101010101int) % P64() == mul(bw_w(x, k), ones()),
{
    let s = bw_s(x);
    let y = mul(k, ones());
    lemma_mul_ones(bw_c(x));
    lemma_mul_ones(k);
    lemma_mul_ones(bw_w(x, k));
    lemma_no_borrow(s, y);
}
proof fn lemma_no_borrow(s: u64, y: u64)
    ensures (y | msbs()) >= (s & 0x7f7f7f7f7f7f7f7fu64), !msbs() == 0x7f7f7f7f7f7f7f7fu64,
        sub(y | msbs(), s & !msbs()) == (y | msbs()) - (s & 0x7f7f7f7f7f7f7f7fu64),
{
    assert((y | 0x8080808080808080u64) >= (s & 0x7f7f7f7f7f7f7f7fu64) && !0x8080808080808080u64 == 0x7f7f7f7f7f7f7f7fu64) by (bit_vector);
}
pub proof fn lemma_bw_byte(b: u64, q: u64)
    ensures
        (b as int * 0x0101010101010101int) % P64() == mul(b, ones()),
        (spread8(b) | msbs()) >= ones(),
        ((spread8(b) | (((spread8(b) | msbs()) - ones()) as u64)) & msbs()) >> 7 == nonzero8(spread8(b)),
        (nonzero8(spread8(b)) as int * 0x0101010101010101int) % P64() == mul(nonzero8(spread8(b)), ones()),
        (q as int * 0x0101010101010101int) % P64() == mul(q, ones()),
        (mul(q, ones()) | msbs()) >= (mul(nonzero8(spread8(b)), ones()) & 0x7f7f7f7f7f7f7f7fu64),
        ((((((mul(q, ones()) | msbs()) - (mul(nonzero8(spread8(b)), ones()) & 0x7f7f7f7f7f7f7f7fu64)) as u64) ^ mul(nonzero8(spread8(b)), ones())) ^ mul(q, ones())) & msbs()) >> 7
            == leq8(mul(nonzero8(spread8(b)), ones()), mul(q, ones())),
        (leq8(mul(nonzero8(spread8(b)), ones()), mul(q, ones())) as int * 0x0101010101010101int) % P64() == mul(leq8(mul(nonzero8(spread8(b)), ones()), mul(q, ones())), ones()),
{
    let t = spread8(b);
    assert((t | 0x8080808080808080u64) >= 0x0101010101010101u64) by (bit_vector);
    assert(sub(t | msbs(), ones()) == (t | msbs()) - ones());
    let m = mul(nonzero8(t), ones());
    let y = mul(q, ones());
    lemma_no_borrow(m, y);
    lemma_mul_ones(b); lemma_mul_ones(nonzero8(t)); lemma_mul_ones(q); lemma_mul_ones(leq8(m, y));
}
}
