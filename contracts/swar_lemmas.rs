// Bit-parallel population count.
verus! {
pub open spec fn sbit(x: u64, i: u64) -> u64 { (x >> i) & 1 }
pub proof fn lemma_sbit(x: u64)
    ensures forall|i: int| 0 <= i < 64 ==> (#[trigger] bit(x, i)) == (sbit(x, (63 - i) as u64) == 1),
        forall|i: u64| i < 64 ==> #[trigger] sbit(x, i) <= 1,
{
    assert forall|i: int| 0 <= i < 64 implies (#[trigger] bit(x, i)) == (sbit(x, (63 - i) as u64) == 1) by {
        let k = i as u64;
        let j = (63 - i) as u64;
        assert(j == 63 - k && k < 64 ==> ((x & (0x8000_0000_0000_0000u64 >> k)) != 0) == ((x >> j) & 1 == 1)) by (bit_vector);
    }
    assert forall|i: u64| i < 64 implies #[trigger] sbit(x, i) <= 1 by {
        assert((x >> i) & 1 <= 1) by (bit_vector);
    }
}
/// the set bits among the 8 bits from position n on
pub proof fn lemma_wcount8(x: u64, n: int)
    requires 0 <= n, n + 8 <= 64,
    ensures wcount(x, n + 8) == wcount(x, n) + sbit(x, (63 - n) as u64) + sbit(x, (62 - n) as u64) + sbit(x, (61 - n) as u64)
        + sbit(x, (60 - n) as u64) + sbit(x, (59 - n) as u64) + sbit(x, (58 - n) as u64) + sbit(x, (57 - n) as u64) + sbit(x, (56 - n) as u64),
{
    lemma_sbit(x);
    reveal_with_fuel(wcount, 9);
    assert(bit(x, n) == (sbit(x, (63 - n) as u64) == 1)); assert(bit(x, n + 1) == (sbit(x, (62 - n) as u64) == 1));
    assert(bit(x, n + 2) == (sbit(x, (61 - n) as u64) == 1)); assert(bit(x, n + 3) == (sbit(x, (60 - n) as u64) == 1));
    assert(bit(x, n + 4) == (sbit(x, (59 - n) as u64) == 1)); assert(bit(x, n + 5) == (sbit(x, (58 - n) as u64) == 1));
    assert(bit(x, n + 6) == (sbit(x, (57 - n) as u64) == 1)); assert(bit(x, n + 7) == (sbit(x, (56 - n) as u64) == 1));
}
pub open spec fn swar1(x: u64) -> u64 { sub(x, (x & 0xAAAAAAAAAAAAAAAAu64) >> 1) }
pub open spec fn swar2(x: u64) -> u64 { add(x & 0x3333333333333333u64, (x >> 2) & 0x3333333333333333u64) }
pub open spec fn swar3(x: u64) -> u64 { add(x, x >> 4) & 0x0F0F0F0F0F0F0F0Fu64 }
pub open spec fn byte_sum(x: u64, s: u64) -> int {
    sbit(x, s) + sbit(x, add(s, 1)) + sbit(x, add(s, 2)) + sbit(x, add(s, 3)) + sbit(x, add(s, 4)) + sbit(x, add(s, 5)) + sbit(x, add(s, 6)) + sbit(x, add(s, 7))
}
pub proof fn lemma_swar_byte(x: u64, s: u64)
    requires s == 0 || s == 8 || s == 16 || s == 24 || s == 32 || s == 40 || s == 48 || s == 56,
    ensures ((swar3(swar2(swar1(x))) >> s) & 0xff) == byte_sum(x, s),
{
    let a = sub(x, (x & 0xAAAAAAAAAAAAAAAAu64) >> 1);
    let b = add(a & 0x3333333333333333u64, (a >> 2) & 0x3333333333333333u64);
    let c = add(b, b >> 4) & 0x0F0F0F0F0F0F0F0Fu64;
    let r = (c >> s) & 0xff;
    assert(r == add(add(add((x >> s) & 1, (x >> add(s, 1)) & 1), add((x >> add(s, 2)) & 1, (x >> add(s, 3)) & 1)),
        add(add((x >> add(s, 4)) & 1, (x >> add(s, 5)) & 1), add((x >> add(s, 6)) & 1, (x >> add(s, 7)) & 1)))) by (bit_vector)
        requires a == sub(x, (x & 0xAAAAAAAAAAAAAAAAu64) >> 1),
            b == add(a & 0x3333333333333333u64, (a >> 2) & 0x3333333333333333u64),
            c == add(b, b >> 4) & 0x0F0F0F0F0F0F0F0Fu64, r == (c >> s) & 0xff,
            s == 0 || s == 8 || s == 16 || s == 24 || s == 32 || s == 40 || s == 48 || s == 56;
    lemma_sbit(x);
    assert(sbit(x, s) <= 1 && sbit(x, add(s, 1)) <= 1 && sbit(x, add(s, 2)) <= 1 && sbit(x, add(s, 3)) <= 1 && sbit(x, add(s, 4)) <= 1
        && sbit(x, add(s, 5)) <= 1 && sbit(x, add(s, 6)) <= 1 && sbit(x, add(s, 7)) <= 1);
}
/// no borrow and no carry, so the machine steps are swar1..3
pub proof fn lemma_swar_steps(x: u64)
    ensures ((x & 0xAAAAAAAAAAAAAAAAu64) >> 1) <= x, swar1(x) == x - ((x & 0xAAAAAAAAAAAAAAAAu64) >> 1),
        swar2(swar1(x)) == (swar1(x) & 0x3333333333333333u64) + ((swar1(x) >> 2) & 0x3333333333333333u64),
        swar2(swar1(x)) + (swar2(swar1(x)) >> 4) <= 0xffff_ffff_ffff_ffff,
        swar3(swar2(swar1(x))) == ((swar2(swar1(x)) + (swar2(swar1(x)) >> 4)) as u64) & 0x0F0F0F0F0F0F0F0Fu64,
{
    let a = swar1(x);
    let b = swar2(a);
    assert(((x & 0xAAAAAAAAAAAAAAAAu64) >> 1) <= x) by (bit_vector);
    assert((a & 0x3333333333333333u64) <= 0x3333333333333333u64 && ((a >> 2) & 0x3333333333333333u64) <= 0x3333333333333333u64) by (bit_vector);
    assert((b >> 4) <= 0x0fff_ffff_ffff_ffff) by (bit_vector);
    assert(b <= 0x6666666666666666u64);
}
/// multiplying by 0x0101..01 adds up the bytes
proof fn lemma_byte_mul(c: u64)
    requires c & 0xf0f0f0f0f0f0f0f0u64 == 0,
    ensures ((((c as int * 0x0101010101010101int) % P64()) as u64) >> 56) == (c & 0xff) + ((c >> 8) & 0xff) + ((c >> 16) & 0xff) + ((c >> 24) & 0xff)
        + ((c >> 32) & 0xff) + ((c >> 40) & 0xff) + ((c >> 48) & 0xff) + ((c >> 56) & 0xff),
{
    let p = (c as u128 * 0x0101010101010101u128) as u128;
    let m = (p % 0x1_0000_0000_0000_0000u128) as u64;
    assert(p == mul(c as u128, 0x0101010101010101u128));
    assert(m == (p as int) % P64());
    assert(m == mul(c, 0x0101010101010101u64)) by (bit_vector)
        requires p == mul(c as u128, 0x0101010101010101u128), m == (p % 0x1_0000_0000_0000_0000u128) as u64;
    let r = m >> 56;
    assert(r == add(add(add(c & 0xff, (c >> 8) & 0xff), add((c >> 16) & 0xff, (c >> 24) & 0xff)),
        add(add((c >> 32) & 0xff, (c >> 40) & 0xff), add((c >> 48) & 0xff, (c >> 56) & 0xff)))) by (bit_vector)
        requires r == m >> 56, m == mul(c, 0x0101010101010101u64), c & 0xf0f0f0f0f0f0f0f0u64 == 0;
    assert((c & 0xff) <= 255 && ((c >> 8) & 0xff) <= 255 && ((c >> 16) & 0xff) <= 255 && ((c >> 24) & 0xff) <= 255
        && ((c >> 32) & 0xff) <= 255 && ((c >> 40) & 0xff) <= 255 && ((c >> 48) & 0xff) <= 255 && ((c >> 56) & 0xff) <= 255) by (bit_vector);
}
pub proof fn lemma_swar(x: u64)
    ensures ((((swar3(swar2(swar1(x))) as int * 0x0101010101010101int) % P64()) as u64) >> 56) == wcount(x, 64), wcount(x, 64) <= 64,
{
    let c = swar3(swar2(swar1(x)));
    let b = swar2(swar1(x));
    let y = add(b, b >> 4);
    assert((y & 0x0F0F0F0F0F0F0F0Fu64) & 0xf0f0f0f0f0f0f0f0u64 == 0) by (bit_vector);
    lemma_byte_mul(c);
    assert(c >> 0 == c) by (bit_vector);
    lemma_swar_byte(x, 0); lemma_swar_byte(x, 8); lemma_swar_byte(x, 16); lemma_swar_byte(x, 24);
    lemma_swar_byte(x, 32); lemma_swar_byte(x, 40); lemma_swar_byte(x, 48); lemma_swar_byte(x, 56);
    lemma_wcount8(x, 0); lemma_wcount8(x, 8); lemma_wcount8(x, 16); lemma_wcount8(x, 24);
    lemma_wcount8(x, 32); lemma_wcount8(x, 40); lemma_wcount8(x, 48); lemma_wcount8(x, 56);
    lemma_wcount_bounds(x, 64);
}
}
