// What a Bloom filter of bench/bloom.hpp answers for a hash pair.
verus! {
/// the four hash words of a key: some function of its bytes (string keys) or its value (integer keys)
pub uninterp spec fn bhash(s: Seq<u8>) -> Seq<u32>;
pub uninterp spec fn ihash(k: u64) -> Seq<u32>;
/// j-th probe position in a filter of `bits` bits
pub open spec fn probe(h: Seq<u32>, j: int, bits: int) -> int { (h[0] + j * h[1]) % 0x1_0000_0000 % bits }
pub open spec fn lit_at(f: Seq<u8>, p: int) -> bool { f[p / 8] & (1u8 << ((p % 8) as u8)) != 0 }
/// number of probes a filter says it has: its last byte, as a plain char
pub open spec fn probes(f: Seq<u8>) -> int { if f.last() >= 128 { f.last() + P64() - 256 } else { f.last() as int } }
#[verifier::opaque]
pub open spec fn probed(f: Seq<u8>, h: Seq<u32>, bits: int, k: int) -> bool { forall|j: int| 0 <= j < k ==> lit_at(f, #[trigger] probe(h, j, bits)) }
pub open spec fn may_match(f: Seq<u8>, h: Seq<u32>) -> bool {
    f.len() >= 2 && (probes(f) > 30 || probed(f, h, (f.len() - 1) * 8, probes(f)))
}

/// a byte shifted within 32 bits
pub proof fn l_small_shifts()
    ensures
        forall|x: u64| x <= 255 ==> #[trigger] (x << 0u64) <= 0xff,
        forall|x: u64| x <= 255 ==> #[trigger] (x << 8u64) <= 0xffff,
        forall|x: u64| x <= 255 ==> #[trigger] (x << 16u64) <= 0xff_ffff,
        forall|x: u64| x <= 255 ==> #[trigger] (x << 24u64) <= 0xffff_ffff,
        forall|b: u64| b < 8 ==> #[trigger] (1u64 << b) <= 128,
{
    assert(forall|x: u64| x <= 255 ==> #[trigger] (x << 0u64) <= 0xff) by (bit_vector);
    assert(forall|x: u64| x <= 255 ==> #[trigger] (x << 8u64) <= 0xffff) by (bit_vector);
    assert(forall|x: u64| x <= 255 ==> #[trigger] (x << 16u64) <= 0xff_ffff) by (bit_vector);
    assert(forall|x: u64| x <= 255 ==> #[trigger] (x << 24u64) <= 0xffff_ffff) by (bit_vector);
    assert(forall|b: u64| b < 8 ==> #[trigger] (1u64 << b) <= 128) by (bit_vector);
}
/// testing and setting a bit of a plain char
pub proof fn l_char_bit(c: u8, b: u32)
    requires b < 8,
    ensures forall|x: i32, m: i32| x == (if c >= 128 { c - 256 } else { c as int }) && m >= 0 && m as u64 == 1u64 << (b as u64) ==>
        ((#[trigger] (x & m)) == 0 <==> c & (1u8 << (b as u8)) == 0),
        forall|x: i32, m: i32| x == (if c >= 128 { c - 256 } else { c as int }) && m >= 0 && m as u64 == 1u64 << (b as u64) ==>
        (#[trigger] (x | m)) % 256 == c | (1u8 << (b as u8)),
{
    assert forall|x: i32, m: i32| x == (if c >= 128 { c - 256 } else { c as int }) && m >= 0 && m as u64 == 1u64 << (b as u64) implies
        ((#[trigger] (x & m)) == 0 <==> c & (1u8 << (b as u8)) == 0) by {
        assert(m == 1i32 << b) by (bit_vector) requires b < 8, m as u64 == 1u64 << (b as u64), m >= 0;
        assert(((x & m) == 0i32) == (c & (1u8 << (b as u8)) == 0u8)) by (bit_vector)
            requires b < 8, m == (1i32 << b), x == (if c >= 128u8 { c - 256 } else { c as int });
    }
    assert forall|x: i32, m: i32| x == (if c >= 128 { c - 256 } else { c as int }) && m >= 0 && m as u64 == 1u64 << (b as u64) implies
        (#[trigger] (x | m)) % 256 == c | (1u8 << (b as u8)) by {
        assert(m == 1i32 << b) by (bit_vector) requires b < 8, m as u64 == 1u64 << (b as u64), m >= 0;
        assert((x | m) % 256 == (c | (1u8 << (b as u8)))) by (bit_vector)
            requires b < 8, m == (1i32 << b), x == (if c >= 128u8 { c - 256 } else { c as int });
    }
}
/// the next hash value
pub proof fn l_next_probe(a: int, j: int, d: int)
    requires 0 <= a, 0 <= j, 0 <= d < 0x1_0000_0000,
    ensures ({ let h = (a + j * d) % 0x1_0000_0000; let n = (a + (j + 1) * d) % 0x1_0000_0000;
        0 <= h && n == if h + d >= 0x1_0000_0000 { h + d - 0x1_0000_0000 } else { h + d } }),
{
    assert((j + 1) * d == j * d + d) by (nonlinear_arith);
    assert(0 <= j * d) by (nonlinear_arith) requires 0 <= j, 0 <= d;
    let s = a + j * d;
    assert((s + d) % 0x1_0000_0000 == if s % 0x1_0000_0000 + d >= 0x1_0000_0000 { s % 0x1_0000_0000 + d - 0x1_0000_0000 } else { s % 0x1_0000_0000 + d });
}

/// f with bit p lit
pub open spec fn light(f: Seq<u8>, p: int) -> Seq<u8> { f.update(p / 8, f[p / 8] | (1u8 << ((p % 8) as u8))) }
pub proof fn l_light(f: Seq<u8>, p: int)
    requires 0 <= p < 8 * f.len(),
    ensures lit_at(light(f, p), p), forall|q: int| 0 <= q < 8 * f.len() && #[trigger] lit_at(f, q) ==> lit_at(light(f, p), q),
{
    let c = f[p / 8];
    let b = (p % 8) as u8;
    assert((c | (1u8 << b)) & (1u8 << b) != 0) by (bit_vector) requires b < 8;
    assert forall|q: int| 0 <= q < 8 * f.len() && #[trigger] lit_at(f, q) implies lit_at(light(f, p), q) by {
        let d = (q % 8) as u8;
        if q / 8 == p / 8 { assert(c & (1u8 << d) != 0 ==> (c | (1u8 << b)) & (1u8 << d) != 0) by (bit_vector) requires b < 8, d < 8; }
    }
}
pub proof fn l_probe_in(h: Seq<u32>, j: int, bits: int)
    requires bits > 0, j >= 0,
    ensures 0 <= probe(h, j, bits) < bits,
{
    assert(0 <= j * h[1]) by (nonlinear_arith) requires 0 <= j, 0 <= h[1];
    let x = (h[0] + j * h[1]) % 0x1_0000_0000;
    assert(0 <= x % bits < bits) by (nonlinear_arith) requires bits > 0;
}
pub proof fn l_light_probed(f: Seq<u8>, p: int, h: Seq<u32>, bits: int, k: int)
    requires 0 <= p < bits, bits <= 8 * f.len(), probed(f, h, bits, k),
    ensures probed(light(f, p), h, bits, k),
{
    reveal(probed);
    l_light(f, p);
    assert forall|j: int| 0 <= j < k implies lit_at(light(f, p), #[trigger] probe(h, j, bits)) by { l_probe_in(h, j, bits); }
}
}
