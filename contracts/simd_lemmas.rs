verus! {
pub broadcast proof fn b_shr4(p: u32)
    ensures #[trigger] (p >> 4u32) == p / 16,
{
    assert(p >> 4u32 == p / 16u32) by (bit_vector);
}
pub broadcast proof fn m_and(m: u32, k: u32, i: int)
    requires 0 <= i < 32,
    ensures #[trigger] mbit((m & k) as int, i) == (mbit(m as int, i) && mbit(k as int, i)),
{
    let j = i as u32;
    assert(j < 32 ==> (((m & k) >> j) & 1u32 == 1) == ((m >> j) & 1u32 == 1 && (k >> j) & 1u32 == 1)) by (bit_vector);
}
pub broadcast proof fn m_high(m: u32, i: int)
    requires 16 <= i < 32, m <= 0xffff,
    ensures !#[trigger] mbit(m as int, i),
{
    let j = i as u32;
    assert(16 <= j < 32 && m <= 0xffffu32 ==> (m >> j) & 1u32 == 0) by (bit_vector);
}
pub proof fn lemma_mask0()
    ensures forall|i: int| 0 <= i < 32 ==> !#[trigger] mbit(0, i),
{
    assert forall|i: int| 0 <= i < 32 implies !#[trigger] mbit(0, i) by {
        let j = i as u32;
        assert(j < 32 ==> (0u32 >> j) & 1u32 == 0) by (bit_vector);
    }
}
pub proof fn lemma_low_ones(n: u32)
    requires n < 31,
    ensures ((1u64) << (n as u64)) <= 0x7fff_ffff, ((1u64) << (n as u64)) >= 1,
        forall|i: int| 0 <= i < 32 ==> #[trigger] mbit((1u64 << (n as u64)) - 1, i) == (i < n),
{
    let m = n as u64;
    assert(m < 31 ==> (1u64 << m) <= 0x7fff_ffff && (1u64 << m) >= 1) by (bit_vector);
    assert forall|i: int| 0 <= i < 32 implies #[trigger] mbit((1u64 << (n as u64)) - 1, i) == (i < n) by {
        let j = i as u32;
        let v = ((1u64 << m) - 1) as u64;
        assert(v == sub(1u64 << m, 1));
        assert(m < 31 && j < 32 && v == sub(1u64 << m, 1) ==> (((v as u32) >> j) & 1u32 == 1) == (j < m as u32)) by (bit_vector);
    }
}
pub broadcast group simd_bits { b_shr4, m_and, m_high }
/// what a 16-byte comparison says about the labels
pub proof fn lemma_cmp16(mask: u32, eq: Seq<u8>, lab: Seq<u8>, base: int, t: u8, n: int)
    requires 0 <= n <= 16,
        forall|i: int| 0 <= i < 16 ==> #[trigger] eq[i] == if t == lab[base + i] { 0xffu8 } else { 0u8 },
        forall|i: int| 0 <= i < 32 ==> #[trigger] mbit(mask as int, i) == (i < n && eq[i] >= 128),
    ensures forall|i: int| 0 <= i < 32 && #[trigger] mbit(mask as int, i) ==> i < n && lab[base + i] == t,
        mask == 0 ==> forall|i: int| base <= i < base + n ==> #[trigger] lab[i] != t,
{
    if mask == 0 {
        lemma_mask0();
        assert forall|i: int| base <= i < base + n implies #[trigger] lab[i] != t by {
            assert(!mbit(mask as int, i - base));
            assert(eq[i - base] < 128);
        }
    }
}
}
