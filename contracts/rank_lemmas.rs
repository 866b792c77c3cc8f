verus! {
/// block sizes for which masking replaces the remainder
pub open spec fn rank_block(b: u32) -> bool {
    b == 64 || b == 128 || b == 256 || b == 512 || b == 1024 || b == 2048 || b == 4096
}
pub proof fn lemma_block_parts(b: int, q: int)
    requires b % 64 == 0, b >= 64, q >= 0,
    ensures q * (b / 64) * 64 == q * b, 64 * (q * (b / 64)) == q * b, 0 <= q * (b / 64) <= q * b, q <= q * b, 0 <= q * b,
{
    let k = b / 64;
    assert(b == 64 * k);
    assert(q * k * 64 == q * (64 * k)) by (nonlinear_arith);
    assert(64 * (q * k) == q * (64 * k)) by (nonlinear_arith);
    assert(0 <= q * k) by (nonlinear_arith) requires q >= 0, k >= 1;
    assert(q <= q * b) by (nonlinear_arith) requires q >= 0, b >= 1;
}
pub proof fn lemma_rank_block(b: u32, pos: u32)
    requires rank_block(b), pos <= 0xff00_0000,
    ensures pos & ((b - 1) as u32) == pos % b, (pos / b) * b + pos % b == pos, 0 <= pos % b < b,
        (pos / b) * (b / 64) * 64 == (pos / b) * b, 0 <= (pos / b) * (b / 64) <= 0xff00_0000, pos / b <= pos, 64 * (pos / b) <= pos,
        64 * ((pos / b) * (b / 64)) + pos % b == pos,
{
    assert(pos & 63u32 == pos % 64 && pos & 127u32 == pos % 128 && pos & 255u32 == pos % 256 && pos & 511u32 == pos % 512
        && pos & 1023u32 == pos % 1024 && pos & 2047u32 == pos % 2048 && pos & 4095u32 == pos % 4096) by (bit_vector);
    let q = pos as int / b as int;
    lemma_div_le(pos as int, b as int);
    assert(q * b + pos as int % b as int == pos) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(pos as int, b as int); assert(q * b == b * q) by (nonlinear_arith); }
    lemma_block_parts(b as int, q);
}
pub proof fn lemma_rank_block_step(b: u32, n: u32, i: int)
    requires rank_block(b), n <= 0xff00_0000, 0 <= i < n / b,
    ensures (i + 1) * b <= n, i * (b / 64) * 64 == i * b, i * (b / 64) <= 0xff00_0000, (i + 1) * b == i * b + b, i * b >= 0,
        64 * (i * (b / 64)) == i * b, i * (b / 64) + (b + 63) / 64 <= (n + 63) / 64, i * (b / 64) >= 0,
{
    lemma_rank_block(b, n);
    let q = n as int / b as int;
    assert((i + 1) * b <= q * b) by (nonlinear_arith) requires i + 1 <= q, b >= 1;
    assert((i + 1) * b == i * b + b) by (nonlinear_arith);
    lemma_block_parts(b as int, i);
    assert((b + 63) / 64 == b / 64);
}
pub proof fn lemma_div_le(a: int, b: int)
    requires 0 <= a, 1 <= b,
    ensures 0 <= a / b <= a,
{
    assert(0 <= a / b <= a) by (nonlinear_arith) requires 0 <= a, 1 <= b;
}
pub proof fn lemma_lut_index(rank: int, ones: int, v: int)
    requires 1 <= rank <= ones, 1 <= v,
    ensures 0 <= rank / v < ones / v + 1, rank == (rank / v) * v + rank % v, 0 <= rank % v < v, rank / v * v >= 0,
        (rank / v) * v == v * (rank / v), rank / v == 0 ==> rank % v == rank,
{
    assert(rank / v <= ones / v) by (nonlinear_arith) requires 1 <= rank <= ones, 1 <= v;
    assert(rank == (rank / v) * v + rank % v && 0 <= rank % v < v) by (nonlinear_arith) requires 1 <= v;
    assert(0 <= rank / v) by (nonlinear_arith) requires 1 <= rank, 1 <= v;
    assert(rank / v * v >= 0) by (nonlinear_arith) requires 0 <= rank / v, 1 <= v;
    assert((rank / v) * v == v * (rank / v)) by (nonlinear_arith);
}
pub proof fn lemma_mul_inc(v: int, k: int)
    ensures v * (k + 1) == v * k + v,
{
    assert(v * (k + 1) == v * k + v) by (nonlinear_arith);
}
pub proof fn lemma_lut_len(c: int, v: int, len: int)
    requires 0 <= c < v * len, v * len <= c + v, 1 <= v, 1 <= len,
    ensures c / v + 1 == len,
{
    assert(c / v == len - 1) by {
        assert(v * len == v * (len - 1) + v) by (nonlinear_arith);
        let r = c - v * (len - 1);
        assert(c == (len - 1) * v + r) by (nonlinear_arith) requires r == c - v * (len - 1);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c, v, len - 1, r);
    }
}
/// (x << k) >> k drops the first k bits
pub proof fn lemma_masked(x: u64, k: u64)
    requires k < 64,
    ensures forall|i: int| 0 <= i < 64 ==> #[trigger] bit((x << k) >> k, i) == (i >= k && bit(x, i)),
        forall|i: int| k <= i <= 64 ==> #[trigger] wcount((x << k) >> k, i) == wcount(x, i) - wcount(x, k as int),
{
    broadcast use word_bits;
    let y = (x << k) >> k;
    lemma_wcount_zero(y, k as int);
    assert forall|i: int| k <= i <= 64 implies #[trigger] wcount(y, i) == wcount(x, i) - wcount(x, k as int) by {
        lemma_wcount_window(y, k as int, x, k as int, i - k);
    }
}
}
