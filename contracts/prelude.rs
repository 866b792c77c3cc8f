// Meaning of the C++ primitives that the extraction keeps as calls.
// Each has a contract and a verified body, so no contract here is contradictory; that the builtin,
// intrinsic or standard library function does what its contract says remains an assumption.
// `external_body` marks the values about which nothing but the contract is known.
verus! {

// ------------------------------------------------------------------ integers
pub open spec fn P32() -> int { 0x1_0000_0000 }
pub open spec fn P64() -> int { 0x1_0000_0000_0000_0000 }

pub fn add_u32(a: u32, b: u32) -> (r: u32)
    ensures r as int == if a + b >= P32() { a + b - P32() } else { a + b },
{ a.wrapping_add(b) }
pub fn sub_u32(a: u32, b: u32) -> (r: u32)
    ensures r as int == if a < b { a - b + P32() } else { a - b },
{ a.wrapping_sub(b) }
pub fn mul_u32(a: u32, b: u32) -> (r: u32)
    ensures a as int * b as int <= 0xffff_ffff ==> r as int == a as int * b as int,
        r as int == (a as int * b as int) % P32(),
{
    proof {
        let p = a as int * b as int;
        assert(p >= 0) by (nonlinear_arith) requires p == a as int * b as int;
        if p <= 0xffff_ffff { vstd::arithmetic::div_mod::lemma_small_mod(p as nat, P32() as nat); }
    }
    a.wrapping_mul(b)
}
pub fn add_u64(a: u64, b: u64) -> (r: u64)
    ensures r as int == if a + b >= P64() { a + b - P64() } else { a + b },
{ a.wrapping_add(b) }
pub fn sub_u64(a: u64, b: u64) -> (r: u64)
    ensures r as int == if a < b { a - b + P64() } else { a - b },
{ a.wrapping_sub(b) }
pub fn mul_u64(a: u64, b: u64) -> (r: u64)
    ensures a as int * b as int <= 0xffff_ffff_ffff_ffff ==> r as int == a as int * b as int,
        r as int == (a as int * b as int) % P64(),
{
    proof {
        let p = a as int * b as int;
        assert(p >= 0) by (nonlinear_arith) requires p == a as int * b as int;
        if p <= 0xffff_ffff_ffff_ffff { vstd::arithmetic::div_mod::lemma_small_mod(p as nat, P64() as nat); }
    }
    a.wrapping_mul(b)
}

// ---- conversions: to an unsigned type modulo 2^n; to a signed type (as gcc and clang define it) the value congruent modulo 2^n
pub fn u64_to_u32(x: u64) -> (r: u32)
    ensures x < P32() ==> r == x, r as int == x as int % P32(), r == x as u32,
{
    assert(x as u32 == x % 0x100000000u64) by (bit_vector);
    #[verifier::truncate] (x as u32)
}
pub fn u64_to_u16(x: u64) -> (r: u16)
    ensures x < 0x1_0000 ==> r == x, r as int == x as int % 0x1_0000,
{
    assert(x as u16 == x % 0x10000u64) by (bit_vector);
    #[verifier::truncate] (x as u16)
}
pub fn u64_to_u8(x: u64) -> (r: u8)
    ensures x < 256 ==> r == x, r as int == x as int % 256,
{
    assert(x as u8 == x % 0x100u64) by (bit_vector);
    #[verifier::truncate] (x as u8)
}
pub fn u32_to_u16(x: u32) -> (r: u16)
    ensures x < 0x1_0000 ==> r == x, r as int == x as int % 0x1_0000,
{
    assert(x as u16 == x % 0x10000u32) by (bit_vector);
    #[verifier::truncate] (x as u16)
}
pub fn u32_to_u8(x: u32) -> (r: u8)
    ensures x < 256 ==> r == x, r as int == x as int % 256,
{
    assert(x as u8 == x % 0x100u32) by (bit_vector);
    #[verifier::truncate] (x as u8)
}
pub fn u16_to_u8(x: u16) -> (r: u8)
    ensures x < 256 ==> r == x, r as int == x as int % 256,
{
    assert(x as u8 == x % 0x100u16) by (bit_vector);
    #[verifier::truncate] (x as u8)
}
pub fn i16_to_u16(x: i16) -> (r: u16)
    ensures r as int == if x < 0 { x + 0x1_0000 } else { x as int },
{ if x >= 0 { x as u16 } else { (x as i64 + 0x10000i64) as u16 } }
pub fn u16_to_i16(x: u16) -> (r: i16)
    ensures r as int == if x > 0x7fff { x - 0x1_0000 } else { x as int },
{ if x <= 0x7fff { x as i16 } else { (x as i64 - 0x10000i64) as i16 } }
pub fn i32_to_u32(x: i32) -> (r: u32)
    ensures r as int == if x < 0 { x + P32() } else { x as int },
{ if x >= 0 { x as u32 } else { (x as i64 + 0x100000000i64) as u32 } }
pub fn u32_to_i32(x: u32) -> (r: i32)
    ensures r as int == if x > 0x7fffffff { x - P32() } else { x as int },
{ if x <= 0x7fffffff { x as i32 } else { (x as i64 - 0x100000000i64) as i32 } }
pub fn i64_to_u64(x: i64) -> (r: u64)
    ensures r as int == if x < 0 { x + P64() } else { x as int },
{ if x >= 0 { x as u64 } else { (x as i128 + 0x10000000000000000i128) as u64 } }
pub fn u64_to_i64(x: u64) -> (r: i64)
    ensures r as int == if x > 0x7fffffffffffffff { x - P64() } else { x as int },
{ if x <= 0x7fffffffffffffff { x as i64 } else { (x as i128 - 0x10000000000000000i128) as i64 } }
pub fn i16_to_u32(x: i16) -> (r: u32)
    ensures r as int == if x < 0 { x + P32() } else { x as int },
{ if x >= 0 { x as u32 } else { (x as i64 + 0x100000000i64) as u32 } }
pub fn i16_to_u64(x: i16) -> (r: u64)
    ensures r as int == if x < 0 { x + P64() } else { x as int },
{ if x >= 0 { x as u64 } else { (x as i128 + 0x10000000000000000i128) as u64 } }
pub fn i32_to_u64(x: i32) -> (r: u64)
    ensures r as int == if x < 0 { x + P64() } else { x as int },
{ if x >= 0 { x as u64 } else { (x as i128 + 0x10000000000000000i128) as u64 } }
pub fn i16_to_u8(x: i16) -> (r: u8)
    ensures 0 <= x < 256 ==> r == x, r as int == x as int % 256,
{
    let y = i16_to_u16(x);
    proof { if x < 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(256, x as int, 256 as int); assert(256 * 256 as int + x == y as int); } }
    u16_to_u8(y)
}
pub fn i32_to_u8(x: i32) -> (r: u8)
    ensures 0 <= x < 256 ==> r == x, r as int == x as int % 256,
{
    let y = i32_to_u32(x);
    proof { if x < 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(16777216, x as int, 256 as int); assert(16777216 * 256 as int + x == y as int); } }
    u32_to_u8(y)
}
pub fn i32_to_u16(x: i32) -> (r: u16)
    ensures 0 <= x < 0x1_0000 ==> r == x, r as int == x as int % 0x1_0000,
{
    let y = i32_to_u32(x);
    proof { if x < 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(65536, x as int, 0x1_0000 as int); assert(65536 * 0x1_0000 as int + x == y as int); } }
    u32_to_u16(y)
}
pub fn i64_to_u8(x: i64) -> (r: u8)
    ensures 0 <= x < 256 ==> r == x, r as int == x as int % 256,
{
    let y = i64_to_u64(x);
    proof { if x < 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(72057594037927936, x as int, 256 as int); assert(72057594037927936 * 256 as int + x == y as int); } }
    u64_to_u8(y)
}
pub fn i64_to_u16(x: i64) -> (r: u16)
    ensures 0 <= x < 0x1_0000 ==> r == x, r as int == x as int % 0x1_0000,
{
    let y = i64_to_u64(x);
    proof { if x < 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(281474976710656, x as int, 0x1_0000 as int); assert(281474976710656 * 0x1_0000 as int + x == y as int); } }
    u64_to_u16(y)
}
pub fn i64_to_u32(x: i64) -> (r: u32)
    ensures 0 <= x < P32() ==> r == x, r as int == x as int % P32(),
{
    let y = i64_to_u64(x);
    proof { if x < 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(4294967296, x as int, P32() as int); assert(4294967296 * P32() as int + x == y as int); } }
    u64_to_u32(y)
}
pub fn u32_to_i16(x: u32) -> (r: i16)
    ensures x <= 0x7fff ==> r == x,
{ u16_to_i16(u32_to_u16(x)) }
pub fn i32_to_i16(x: i32) -> (r: i16)
    ensures -0x8000 <= x <= 0x7fff ==> r == x,
{
    let z = i32_to_u16(x);
    proof { if -0x8000 <= x < 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(1, x as int, 0x1_0000 as int); assert(1 * 0x1_0000 as int + x == x + 0x1_0000); vstd::arithmetic::div_mod::lemma_small_mod((x + 0x1_0000) as nat, 0x1_0000 as nat); } }
    u16_to_i16(z)
}
pub fn u64_to_i16(x: u64) -> (r: i16)
    ensures x <= 0x7fff ==> r == x,
{ u16_to_i16(u64_to_u16(x)) }
pub fn i64_to_i16(x: i64) -> (r: i16)
    ensures -0x8000 <= x <= 0x7fff ==> r == x,
{
    let z = i64_to_u16(x);
    proof { if -0x8000 <= x < 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(1, x as int, 0x1_0000 as int); assert(1 * 0x1_0000 as int + x == x + 0x1_0000); vstd::arithmetic::div_mod::lemma_small_mod((x + 0x1_0000) as nat, 0x1_0000 as nat); } }
    u16_to_i16(z)
}
pub fn u64_to_i32(x: u64) -> (r: i32)
    ensures x <= 0x7fffffff ==> r == x,
{ u32_to_i32(u64_to_u32(x)) }
pub fn i64_to_i32(x: i64) -> (r: i32)
    ensures -0x80000000 <= x <= 0x7fffffff ==> r == x,
{
    let z = i64_to_u32(x);
    proof { if -0x80000000 <= x < 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(1, x as int, P32() as int); assert(1 * P32() as int + x == x + P32()); vstd::arithmetic::div_mod::lemma_small_mod((x + P32()) as nat, P32() as nat); } }
    u32_to_i32(z)
}
pub fn not_i32(x: i32) -> (r: i32)
    ensures r == -x - 1,
{ if x == i32::MIN { i32::MAX } else { -x - 1 } }
pub fn not_i64(x: i64) -> (r: i64)
    ensures r == -x - 1,
{ if x == i64::MIN { i64::MAX } else { -x - 1 } }
/// value of a plain char (signed on x86-64) whose bit pattern is x
pub fn char_to_i32(x: u8) -> (r: i32)
    ensures r as int == if x >= 128 { x - 256 } else { x as int },
{
    if x < 128 { x as i32 } else { x as i32 - 256 }
}
pub fn shift_amount_i32(x: i32) -> (r: u32)
    requires 0 <= x,
    ensures r == x,
{ x as u32 }
pub fn shift_amount_i64(x: i64) -> (r: u64)
    requires 0 <= x,
    ensures r == x,
{ x as u64 }
pub fn shift_amount_u64(x: u64) -> (r: u64)
    ensures r == x,
{ x }
/// signed shift left: the operand must be non-negative and the result representable as unsigned
pub fn shl_i32(a: i32, n: u32) -> (r: i32)
    requires 0 <= a, n < 32, ((a as u64) << (n as u64)) <= 0xffff_ffff,
    ensures ((a as u64) << (n as u64)) <= 0x7fff_ffff ==> r as u64 == (a as u64) << (n as u64) && r >= 0,
{
    u32_to_i32(((a as u64) << (n as u64)) as u32)
}
pub fn shr_i32(a: i32, n: u32) -> (r: i32)
    requires 0 <= a, n < 32,
    ensures r as u32 == (a as u32) >> n, r >= 0,
{
    let x = a as u32;
    assert(n < 32 && x <= 0x7fff_ffffu32 ==> (x >> n) <= 0x7fff_ffffu32) by (bit_vector);
    (x >> n) as i32
}
/// signed division and remainder, of non-negative operands only
pub fn div_i32(a: i32, b: i32) -> (r: i32)
    requires 0 <= a, 0 < b,
    ensures r as int == a as int / b as int, 0 <= r <= a,
{
    assert(a as int / b as int >= 0 && a as int / b as int <= a as int) by (nonlinear_arith) requires 0 <= a, 0 < b;
    (a as u32 / b as u32) as i32
}
pub fn rem_i32(a: i32, b: i32) -> (r: i32)
    requires 0 <= a, 0 < b,
    ensures r as int == a as int % b as int, 0 <= r < b,
{ (a as u32 % b as u32) as i32 }
pub fn div_i64(a: i64, b: i64) -> (r: i64)
    requires 0 <= a, 0 < b,
    ensures r as int == a as int / b as int, 0 <= r <= a,
{
    assert(a as int / b as int >= 0 && a as int / b as int <= a as int) by (nonlinear_arith) requires 0 <= a, 0 < b;
    (a as u64 / b as u64) as i64
}
pub fn rem_i64(a: i64, b: i64) -> (r: i64)
    requires 0 <= a, 0 < b,
    ensures r as int == a as int % b as int, 0 <= r < b,
{ (a as u64 % b as u64) as i64 }
pub fn shr_i64(a: i64, n: u32) -> (r: i64)
    requires 0 <= a, n < 64,
    ensures r as u64 == (a as u64) >> (n as u64), r >= 0,
{
    let x = a as u64;
    let m = n as u64;
    assert(m < 64 && x <= 0x7fff_ffff_ffff_ffffu64 ==> (x >> m) <= 0x7fff_ffff_ffff_ffffu64) by (bit_vector);
    (x >> m) as i64
}
/// offset of the i-th element of w bytes after offset p
pub fn ptr_at(p: u64, i: i64, w: i64) -> (r: u64)
    requires 0 <= p + i * w <= 0x7fff_ffff_ffff_ffff, 1 <= w <= 8, p <= 0x7fff_ffff_ffff_ffff,
    ensures r == p + i * w,
{ (p as i128 + i as i128 * w as i128) as u64 }
pub fn ptr_diff(a: u64, b: u64) -> (r: i64)
    requires a <= 0x7fff_ffff_ffff_ffff, b <= 0x7fff_ffff_ffff_ffff,
    ensures r == a - b,
{ a as i64 - b as i64 }
/// byte offset of a pointer into a buffer whose first byte is 8-aligned
pub fn mem_address(p: u64) -> (r: u64) ensures r == p, { p }
pub fn mem_offset(a: u64) -> (r: u64) ensures r == a, { a }

#[verifier::external_body]
pub fn uninit<T>() -> (r: T) { unimplemented!() }
pub fn vp_assert(b: bool) requires b, { }

// ------------------------------------------------------------------ bits of a word, first bit = most significant
pub open spec fn bit(x: u64, i: int) -> bool {
    (x & (0x8000_0000_0000_0000u64 >> (i as u64))) != 0
}
/// set bits among the first n
pub open spec fn wcount(x: u64, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { wcount(x, n - 1) + if bit(x, n - 1) { 1int } else { 0int } }
}

pub fn popcountll(x: u64) -> (r: i32)
    ensures r as int == wcount(x, 64), 0 <= r <= 64,
{
    let mut r: i32 = 0;
    for i in 0u64..64
        invariant r as int == wcount(x, i as int), 0 <= r <= i,
    {
        if (x & (0x8000_0000_0000_0000u64 >> i)) != 0 { r = r + 1; }
    }
    r
}
pub fn clzll(x: u64) -> (r: i32)
    requires x != 0,
    ensures 0 <= r < 64, bit(x, r as int), forall|i: int| 0 <= i < r ==> !#[trigger] bit(x, i),
{
    let mut r: u64 = 0;
    while (x & (0x8000_0000_0000_0000u64 >> r)) == 0
        invariant 0 <= r < 64, forall|i: int| 0 <= i < r ==> !#[trigger] bit(x, i), x != 0,
        decreases 64 - r,
    {
        if r == 63 {
            proof {
                assert forall|i: int| 0 <= i < 64 implies !#[trigger] bit(x, i) by { if i == 63 { } else { assert(!bit(x, i)); } }
                lemma_nonzero(x);
            }
        }
        r = r + 1;
    }
    assert(bit(x, r as int));
    r as i32
}
pub fn ctzll(x: u64) -> (r: i32)
    requires x != 0,
    ensures 0 <= r < 64, bit(x, 63 - r as int), forall|i: int| 63 - r < i < 64 ==> !#[trigger] bit(x, i),
{
    let mut r: u64 = 63;
    while (x & (0x8000_0000_0000_0000u64 >> r)) == 0
        invariant 0 <= r < 64, forall|i: int| r < i < 64 ==> !#[trigger] bit(x, i), x != 0,
        decreases r,
    {
        if r == 0 {
            proof {
                assert forall|i: int| 0 <= i < 64 implies !#[trigger] bit(x, i) by { if i == 0 { } else { assert(!bit(x, i)); } }
                lemma_nonzero(x);
            }
        }
        r = r - 1;
    }
    assert(bit(x, r as int));
    (63 - r) as i32
}
/// bit i of a 32-bit mask, least significant first
pub open spec fn mbit(x: int, i: int) -> bool { ((x as u32) >> (i as u32)) & 1 == 1 }
pub fn ctz32(x: u32) -> (r: i32)
    requires x != 0,
    ensures 0 <= r < 32, mbit(x as int, r as int), forall|i: int| 0 <= i < r ==> !#[trigger] mbit(x as int, i),
{
    let mut r: u32 = 0;
    assert(x >> 0u32 == x) by (bit_vector);
    while (x >> r) & 1 != 1
        invariant 0 <= r < 32, forall|i: int| 0 <= i < r ==> !#[trigger] mbit(x as int, i), (x >> r) != 0,
        decreases 32 - r,
    {
        let q = r;
        proof {
            assert((x >> q) & 1 != 1 && (x >> q) != 0 && q < 32 ==> q < 31 && (x >> add(q, 1)) != 0) by (bit_vector);
        }
        r = r + 1;
    }
    assert(mbit(x as int, r as int));
    r as i32
}
pub open spec fn bswap(x: u64) -> u64 {
    ((x >> 56) & 0xff) | ((x >> 40) & 0xff00) | ((x >> 24) & 0xff_0000) | ((x >> 8) & 0xff00_0000)
        | ((x << 8) & 0xff_0000_0000) | ((x << 24) & 0xff00_0000_0000) | ((x << 40) & 0xff_0000_0000_0000) | ((x << 56) & 0xff00_0000_0000_0000)
}
pub fn bswap64(x: u64) -> (r: u64)
    ensures r == bswap(x),
{
    ((x >> 56) & 0xff) | ((x >> 40) & 0xff00) | ((x >> 24) & 0xff_0000) | ((x >> 8) & 0xff00_0000)
        | ((x << 8) & 0xff_0000_0000) | ((x << 24) & 0xff00_0000_0000) | ((x << 40) & 0xff_0000_0000_0000) | ((x << 56) & 0xff00_0000_0000_0000)
}

// a member whose type the extraction does not know: kept in the layout, and no translated function touches it
pub struct Opaque { pub x: u8 }

// ------------------------------------------------------------------ SSE2
pub struct M128 { pub b: [u8; 16] }
impl View for M128 {
    type V = Seq<u8>;
    open spec fn view(&self) -> Seq<u8> { self.b@ }
}
pub fn mm_set1_epi8(c: u8) -> (r: M128)
    ensures r@.len() == 16, forall|i: int| 0 <= i < 16 ==> #[trigger] r@[i] == c,
{
    M128 { b: [c, c, c, c, c, c, c, c, c, c, c, c, c, c, c, c] }
}
fn mm_eq(a: u8, b: u8) -> (r: u8) ensures r == if a == b { 0xffu8 } else { 0u8 }, { if a == b { 0xff } else { 0 } }
pub fn mm_cmpeq_epi8(a: M128, b: M128) -> (r: M128)
    ensures r@.len() == 16, forall|i: int| 0 <= i < 16 ==> #[trigger] r@[i] == if a@[i] == b@[i] { 0xffu8 } else { 0u8 },
{
    M128 { b: [mm_eq(a.b[0], b.b[0]), mm_eq(a.b[1], b.b[1]), mm_eq(a.b[2], b.b[2]), mm_eq(a.b[3], b.b[3]), mm_eq(a.b[4], b.b[4]), mm_eq(a.b[5], b.b[5]), mm_eq(a.b[6], b.b[6]), mm_eq(a.b[7], b.b[7]), mm_eq(a.b[8], b.b[8]), mm_eq(a.b[9], b.b[9]), mm_eq(a.b[10], b.b[10]), mm_eq(a.b[11], b.b[11]), mm_eq(a.b[12], b.b[12]), mm_eq(a.b[13], b.b[13]), mm_eq(a.b[14], b.b[14]), mm_eq(a.b[15], b.b[15])] }
}
pub fn mm_loadu_si128(m: &Vec<u8>, off: u64) -> (r: M128)
    requires off + 16 <= m@.len(),
    ensures r@.len() == 16, forall|i: int| 0 <= i < 16 ==> #[trigger] r@[i] == m@[off as int + i],
{
    let ml = m.len() as u64;
    M128 { b: [m[(off + 0) as usize], m[(off + 1) as usize], m[(off + 2) as usize], m[(off + 3) as usize], m[(off + 4) as usize], m[(off + 5) as usize], m[(off + 6) as usize], m[(off + 7) as usize], m[(off + 8) as usize], m[(off + 9) as usize], m[(off + 10) as usize], m[(off + 11) as usize], m[(off + 12) as usize], m[(off + 13) as usize], m[(off + 14) as usize], m[(off + 15) as usize]] }
}
pub fn mm_movemask_epi8(a: M128) -> (r: i32)
    ensures 0 <= r <= 0xffff, forall|i: int| 0 <= i < 16 ==> #[trigger] mbit(r as int, i) == (a@[i] >= 128),
{
    let mut r: u32 = 0;
    assert(0u32 >> 0u32 == 0) by (bit_vector);
    for i in 0u32..16
        invariant forall|j: int| 0 <= j < i ==> #[trigger] mbit(r as int, j) == (a@[j] >= 128),
            (r >> i) == 0,
    {
        let r0 = r;
        let n = if a.b[i as usize] >= 128 { 1u32 } else { 0u32 };
        r = r | (n << i);
        proof {
            assert(r0 >> i == 0 && i < 16 && (n == 0 || n == 1) && r == r0 | (n << i) ==> r >> add(i, 1) == 0 && ((r >> i) & 1) == n) by (bit_vector);
            assert(mbit(r as int, i as int) == (a@[i as int] >= 128));
            assert forall|j: int| 0 <= j < i implies #[trigger] mbit(r as int, j) == (a@[j] >= 128) by {
                let k = j as u32;
                assert(k < i && i < 16 && (n == 0 || n == 1) && r == r0 | (n << i) ==> ((r >> k) & 1) == ((r0 >> k) & 1)) by (bit_vector);
                assert(mbit(r0 as int, j) == (a@[j] >= 128));
            }
        }
    }
    assert(r >> 16 == 0 ==> r <= 0xffff) by (bit_vector);
    r as i32
}

// ------------------------------------------------------------------ raw memory
pub open spec fn le32(s: Seq<u8>, p: int) -> u32 {
    (s[p] as u32) | ((s[p + 1] as u32) << 8) | ((s[p + 2] as u32) << 16) | ((s[p + 3] as u32) << 24)
}
pub open spec fn le64(s: Seq<u8>, p: int) -> u64 {
    (s[p] as u64) | ((s[p + 1] as u64) << 8) | ((s[p + 2] as u64) << 16) | ((s[p + 3] as u64) << 24)
    | ((s[p + 4] as u64) << 32) | ((s[p + 5] as u64) << 40) | ((s[p + 6] as u64) << 48) | ((s[p + 7] as u64) << 56)
}
/// n rounded up to a multiple of 8, a multiple of 8
#[verifier::opaque] pub open spec fn up8(n: int) -> int { (n + 7) / 8 * 8 }
#[verifier::opaque] pub open spec fn al8(n: int) -> bool { n % 8 == 0 }
/// v is stored at p, and so on
#[verifier::opaque] pub open spec fn at32(m: Seq<u8>, p: int, v: u32) -> bool { 0 <= p && p + 4 <= m.len() && le32(m, p) == v }
#[verifier::opaque] pub open spec fn at8s(m: Seq<u8>, p: int, s: Seq<u8>, n: int) -> bool { 0 <= p && p + n <= m.len() && 0 <= n <= s.len() && forall|i: int| 0 <= i < n ==> #[trigger] m[p + i] == s[i] }
#[verifier::opaque] pub open spec fn at32s(m: Seq<u8>, p: int, s: Seq<u32>) -> bool { 0 <= p && p + 4 * s.len() <= m.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == le32(m, p + 4 * i) }
#[verifier::opaque] pub open spec fn at64s(m: Seq<u8>, p: int, s: Seq<u64>) -> bool { 0 <= p && p + 8 * s.len() <= m.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == le64(m, p + 8 * i) }
/// the bytes of s outside [p, p+n) are those of t
#[verifier::opaque] pub open spec fn same_outside(s: Seq<u8>, t: Seq<u8>, p: int, n: int) -> bool {
    &&& s.len() == t.len()
    &&& forall|i: int| 0 <= i < s.len() && !(p <= i < p + n) ==> #[trigger] s[i] == t[i]
}
pub fn mem_get_u32(m: &Vec<u8>, p: u64) -> (r: u32)
    requires p + 4 <= m@.len(),
    ensures r == le32(m@, p as int), forall|v: u32| #[trigger] at32(m@, p as int, v) ==> r == v,
{
    let ml = m.len() as u64;
    reveal(at32);
    (m[p as usize] as u32) | ((m[(p + 1) as usize] as u32) << 8) | ((m[(p + 2) as usize] as u32) << 16) | ((m[(p + 3) as usize] as u32) << 24)
}
pub fn mem_get_u64(m: &Vec<u8>, p: u64) -> (r: u64)
    requires p + 8 <= m@.len(),
    ensures r == le64(m@, p as int),
{
    let ml = m.len() as u64;
    (m[p as usize] as u64) | ((m[(p + 1) as usize] as u64) << 8) | ((m[(p + 2) as usize] as u64) << 16) | ((m[(p + 3) as usize] as u64) << 24) | ((m[(p + 4) as usize] as u64) << 32) | ((m[(p + 5) as usize] as u64) << 40) | ((m[(p + 6) as usize] as u64) << 48) | ((m[(p + 7) as usize] as u64) << 56)
}
pub fn mem_put_u32(m: &mut Vec<u8>, p: u64, v: u32)
    requires p + 4 <= old(m)@.len(),
    ensures same_outside(final(m)@, old(m)@, p as int, 4), at32(final(m)@, p as int, v),
{
    let ml = m.len() as u64;
    reveal(at32); reveal(same_outside);
    let b0 = #[verifier::truncate] ((v >> 0) as u8);
    let b1 = #[verifier::truncate] ((v >> 8) as u8);
    let b2 = #[verifier::truncate] ((v >> 16) as u8);
    let b3 = #[verifier::truncate] ((v >> 24) as u8);
    proof {
        assert((b0 as u32) | ((b1 as u32) << 8) | ((b2 as u32) << 16) | ((b3 as u32) << 24) == v) by (bit_vector)
            requires b0 == (v >> 0) as u8, b1 == (v >> 8) as u8, b2 == (v >> 16) as u8, b3 == (v >> 24) as u8;
    }
    m.set(p as usize, b0);
    m.set((p + 1) as usize, b1);
    m.set((p + 2) as usize, b2);
    m.set((p + 3) as usize, b3);
}
pub fn mem_put_u64(m: &mut Vec<u8>, p: u64, v: u64)
    requires p + 8 <= old(m)@.len(),
    ensures same_outside(final(m)@, old(m)@, p as int, 8), le64(final(m)@, p as int) == v,
{
    let ml = m.len() as u64;
    reveal(same_outside);
    let b0 = #[verifier::truncate] ((v >> 0) as u8);
    let b1 = #[verifier::truncate] ((v >> 8) as u8);
    let b2 = #[verifier::truncate] ((v >> 16) as u8);
    let b3 = #[verifier::truncate] ((v >> 24) as u8);
    let b4 = #[verifier::truncate] ((v >> 32) as u8);
    let b5 = #[verifier::truncate] ((v >> 40) as u8);
    let b6 = #[verifier::truncate] ((v >> 48) as u8);
    let b7 = #[verifier::truncate] ((v >> 56) as u8);
    proof {
        assert((b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24) | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56) == v) by (bit_vector)
            requires b0 == (v >> 0) as u8, b1 == (v >> 8) as u8, b2 == (v >> 16) as u8, b3 == (v >> 24) as u8, b4 == (v >> 32) as u8, b5 == (v >> 40) as u8, b6 == (v >> 48) as u8, b7 == (v >> 56) as u8;
    }
    m.set(p as usize, b0);
    m.set((p + 1) as usize, b1);
    m.set((p + 2) as usize, b2);
    m.set((p + 3) as usize, b3);
    m.set((p + 4) as usize, b4);
    m.set((p + 5) as usize, b5);
    m.set((p + 6) as usize, b6);
    m.set((p + 7) as usize, b7);
}
pub fn mem_put_u8s(m: &mut Vec<u8>, p: u64, src: &Vec<u8>, q: u64, n: u64)
    requires p + n <= old(m)@.len(), q + n <= src@.len(),
    ensures same_outside(final(m)@, old(m)@, p as int, n as int),
        q == 0 ==> at8s(final(m)@, p as int, src@, n as int),
{
    let ml = m.len() as u64;
    let srcl = src.len() as u64;
    reveal(at8s); reveal(same_outside);
    let mut i: u64 = 0;
    while i < n
        invariant m@.len() == ml, src@.len() == srcl, p + n <= m@.len(), q + n <= src@.len(), i <= n, m@.len() == old(m)@.len(),
            forall|j: int| 0 <= j < m@.len() ==> #[trigger] m@[j] == if p <= j < p + i { src@[q + j - p] } else { old(m)@[j] },
        decreases n - i,
    {
        m.set((p + i) as usize, src[(q + i) as usize]);
        i = i + 1;
    }
}
pub fn mem_put_u32s(m: &mut Vec<u8>, p: u64, src: &Vec<u32>, q: u64, n: u64)
    requires p + n <= old(m)@.len(), q + n <= 4 * src@.len(), q % 4 == 0, n % 4 == 0,
    ensures same_outside(final(m)@, old(m)@, p as int, n as int),
        q == 0 && n == 4 * src@.len() ==> at32s(final(m)@, p as int, src@),
{
    let ml = m.len() as u64;
    let srcl = src.len() as u64;
    reveal(at32s);
    let k: u64 = n / 4;
    let q0: u64 = q / 4;
    let mut i: u64 = 0;
    proof { reveal(same_outside); }
    while i < k
        invariant m@.len() == ml, src@.len() == srcl, p + n <= m@.len(), q0 + k <= src@.len(), i <= k, n == 4 * k, m@.len() == old(m)@.len(),
            same_outside(m@, old(m)@, p as int, n as int),
            forall|j: int| 0 <= j < i ==> #[trigger] src@[q0 + j] == le32(m@, p + 4 * j),
        decreases k - i,
    {
        let ghost m0 = m@;
        mem_put_u32(m, p + 4 * i, src[(q0 + i) as usize]);
        proof {
            reveal(same_outside); reveal(at32);
            assert forall|j: int| 0 <= j < i + 1 implies #[trigger] src@[q0 + j] == le32(m@, p + 4 * j) by {
                if j < i {
                    assert(src@[q0 + j] == le32(m0, p + 4 * j));
                    assert(m@[p + 4 * j + 0] == m0[p + 4 * j + 0]);
                    assert(m@[p + 4 * j + 1] == m0[p + 4 * j + 1]);
                    assert(m@[p + 4 * j + 2] == m0[p + 4 * j + 2]);
                    assert(m@[p + 4 * j + 3] == m0[p + 4 * j + 3]);
                }
            }
        }
        i = i + 1;
    }
    proof {
        if q == 0 && n == 4 * src@.len() {
            assert forall|j: int| 0 <= j < src@.len() implies #[trigger] src@[j] == le32(m@, p + 4 * j) by { assert(src@[q0 + j] == le32(m@, p + 4 * j)); }
        }
    }
}
pub fn mem_put_u64s(m: &mut Vec<u8>, p: u64, src: &Vec<u64>, q: u64, n: u64)
    requires p + n <= old(m)@.len(), q + n <= 8 * src@.len(), q % 8 == 0, n % 8 == 0,
    ensures same_outside(final(m)@, old(m)@, p as int, n as int),
        q == 0 && n == 8 * src@.len() ==> at64s(final(m)@, p as int, src@),
{
    let ml = m.len() as u64;
    let srcl = src.len() as u64;
    reveal(at64s);
    let k: u64 = n / 8;
    let q0: u64 = q / 8;
    let mut i: u64 = 0;
    proof { reveal(same_outside); }
    while i < k
        invariant m@.len() == ml, src@.len() == srcl, p + n <= m@.len(), q0 + k <= src@.len(), i <= k, n == 8 * k, m@.len() == old(m)@.len(),
            same_outside(m@, old(m)@, p as int, n as int),
            forall|j: int| 0 <= j < i ==> #[trigger] src@[q0 + j] == le64(m@, p + 8 * j),
        decreases k - i,
    {
        let ghost m0 = m@;
        mem_put_u64(m, p + 8 * i, src[(q0 + i) as usize]);
        proof {
            reveal(same_outside); reveal(at32);
            assert forall|j: int| 0 <= j < i + 1 implies #[trigger] src@[q0 + j] == le64(m@, p + 8 * j) by {
                if j < i {
                    assert(src@[q0 + j] == le64(m0, p + 8 * j));
                    assert(m@[p + 8 * j + 0] == m0[p + 8 * j + 0]);
                    assert(m@[p + 8 * j + 1] == m0[p + 8 * j + 1]);
                    assert(m@[p + 8 * j + 2] == m0[p + 8 * j + 2]);
                    assert(m@[p + 8 * j + 3] == m0[p + 8 * j + 3]);
                    assert(m@[p + 8 * j + 4] == m0[p + 8 * j + 4]);
                    assert(m@[p + 8 * j + 5] == m0[p + 8 * j + 5]);
                    assert(m@[p + 8 * j + 6] == m0[p + 8 * j + 6]);
                    assert(m@[p + 8 * j + 7] == m0[p + 8 * j + 7]);
                }
            }
        }
        i = i + 1;
    }
    proof {
        if q == 0 && n == 8 * src@.len() {
            assert forall|j: int| 0 <= j < src@.len() implies #[trigger] src@[j] == le64(m@, p + 8 * j) by { assert(src@[q0 + j] == le64(m@, p + 8 * j)); }
        }
    }
}
pub fn mem_get_u8s(d: &mut Vec<u8>, q: u64, m: &Vec<u8>, p: u64, n: u64)
    requires p + n <= m@.len(), q + n <= old(d)@.len(),
    ensures final(d)@.len() == old(d)@.len(),
        forall|i: int| 0 <= i < old(d)@.len() ==> #[trigger] final(d)@[i] == if q <= i < q + n { m@[p + i - q] } else { old(d)@[i] },
{
    let ml = m.len() as u64;
    let dl = d.len() as u64;
    let mut i: u64 = 0;
    while i < n
        invariant m@.len() == ml, d@.len() == dl, p + n <= m@.len(), q + n <= d@.len(), i <= n, d@.len() == old(d)@.len(),
            forall|j: int| 0 <= j < d@.len() ==> #[trigger] d@[j] == if q <= j < q + i { m@[p + j - q] } else { old(d)@[j] },
        decreases n - i,
    {
        d.set((q + i) as usize, m[(p + i) as usize]);
        i = i + 1;
    }
}
pub fn mem_get_u32s(d: &mut Vec<u32>, q: u64, m: &Vec<u8>, p: u64, n: u64)
    requires p + n <= m@.len(), q + n <= 4 * old(d)@.len(), q % 4 == 0, n % 4 == 0,
    ensures final(d)@.len() == old(d)@.len(),
        forall|s: Seq<u32>| #[trigger] at32s(m@, p as int, s) && q == 0 && n == 4 * s.len() && s.len() == old(d)@.len() ==> final(d)@ == s,
{
    let ml = m.len() as u64;
    let dl = d.len() as u64;
    let k: u64 = n / 4;
    let q0: u64 = q / 4;
    let mut i: u64 = 0;
    while i < k
        invariant m@.len() == ml, d@.len() == dl, p + n <= m@.len(), q0 + k <= d@.len(), i <= k, n == 4 * k, d@.len() == old(d)@.len(),
            forall|j: int| 0 <= j < i ==> #[trigger] d@[q0 + j] == le32(m@, p + 4 * j),
        decreases k - i,
    {
        let v = mem_get_u32(m, p + 4 * i);
        d.set((q0 + i) as usize, v);
        i = i + 1;
    }
    proof {
        reveal(at32s);
        assert forall|s: Seq<u32>| #[trigger] at32s(m@, p as int, s) && q == 0 && n == 4 * s.len() && s.len() == old(d)@.len() implies d@ == s by {
            assert forall|j: int| 0 <= j < s.len() implies d@[j] == s[j] by { assert(d@[q0 + j] == le32(m@, p + 4 * j)); assert(s[j] == le32(m@, p + 4 * j)); }
            assert(d@ =~= s);
        }
    }
}
pub fn mem_get_u64s(d: &mut Vec<u64>, q: u64, m: &Vec<u8>, p: u64, n: u64)
    requires p + n <= m@.len(), q + n <= 8 * old(d)@.len(), q % 8 == 0, n % 8 == 0,
    ensures final(d)@.len() == old(d)@.len(),
        forall|s: Seq<u64>| #[trigger] at64s(m@, p as int, s) && q == 0 && n == 8 * s.len() && s.len() == old(d)@.len() ==> final(d)@ == s,
{
    let ml = m.len() as u64;
    let dl = d.len() as u64;
    let k: u64 = n / 8;
    let q0: u64 = q / 8;
    let mut i: u64 = 0;
    while i < k
        invariant m@.len() == ml, d@.len() == dl, p + n <= m@.len(), q0 + k <= d@.len(), i <= k, n == 8 * k, d@.len() == old(d)@.len(),
            forall|j: int| 0 <= j < i ==> #[trigger] d@[q0 + j] == le64(m@, p + 8 * j),
        decreases k - i,
    {
        let v = mem_get_u64(m, p + 8 * i);
        d.set((q0 + i) as usize, v);
        i = i + 1;
    }
    proof {
        reveal(at64s);
        assert forall|s: Seq<u64>| #[trigger] at64s(m@, p as int, s) && q == 0 && n == 8 * s.len() && s.len() == old(d)@.len() implies d@ == s by {
            assert forall|j: int| 0 <= j < s.len() implies d@[j] == s[j] by { assert(d@[q0 + j] == le64(m@, p + 8 * j)); assert(s[j] == le64(m@, p + 8 * j)); }
            assert(d@ =~= s);
        }
    }
}
pub fn mem_zero_u8(m: &mut Vec<u8>, p: u64, n: u64)
    requires p + n <= old(m)@.len(),
    ensures final(m)@.len() == old(m)@.len(),
        forall|i: int| 0 <= i < final(m)@.len() ==> #[trigger] final(m)@[i] == if p <= i < p + n { 0 } else { old(m)@[i] },
{
    let ml = m.len() as u64;
    let k: u64 = n / 1;
    let p0: u64 = p / 1;
    let mut i: u64 = 0;
    while i < k
        invariant m@.len() == ml, p0 + k <= m@.len(), i <= k, m@.len() == old(m)@.len(),
            forall|j: int| 0 <= j < m@.len() ==> #[trigger] m@[j] == if p0 <= j < p0 + i { 0 } else { old(m)@[j] },
        decreases k - i,
    {
        m.set((p0 + i) as usize, 0);
        i = i + 1;
    }
}
pub fn mem_zero_u32(m: &mut Vec<u32>, p: u64, n: u64)
    requires p + n <= 4 * old(m)@.len(), p % 4 == 0, n % 4 == 0,
    ensures final(m)@.len() == old(m)@.len(),
        forall|i: int| 0 <= i < old(m)@.len() ==> #[trigger] final(m)@[i] == if p <= 4 * i < p + n { 0 } else { old(m)@[i] },
{
    let ml = m.len() as u64;
    let k: u64 = n / 4;
    let p0: u64 = p / 4;
    let mut i: u64 = 0;
    while i < k
        invariant m@.len() == ml, p0 + k <= m@.len(), i <= k, m@.len() == old(m)@.len(),
            forall|j: int| 0 <= j < m@.len() ==> #[trigger] m@[j] == if p0 <= j < p0 + i { 0 } else { old(m)@[j] },
        decreases k - i,
    {
        m.set((p0 + i) as usize, 0);
        i = i + 1;
    }
}
pub fn mem_zero_u64(m: &mut Vec<u64>, p: u64, n: u64)
    requires p + n <= 8 * old(m)@.len(), p % 8 == 0, n % 8 == 0,
    ensures final(m)@.len() == old(m)@.len(),
        forall|i: int| 0 <= i < old(m)@.len() ==> #[trigger] final(m)@[i] == if p <= 8 * i < p + n { 0 } else { old(m)@[i] },
{
    let ml = m.len() as u64;
    let k: u64 = n / 8;
    let p0: u64 = p / 8;
    let mut i: u64 = 0;
    while i < k
        invariant m@.len() == ml, p0 + k <= m@.len(), i <= k, m@.len() == old(m)@.len(),
            forall|j: int| 0 <= j < m@.len() ==> #[trigger] m@[j] == if p0 <= j < p0 + i { 0 } else { old(m)@[j] },
        decreases k - i,
    {
        m.set((p0 + i) as usize, 0);
        i = i + 1;
    }
}
pub fn new_array_u8(n: u64) -> (r: Vec<u8>) ensures r@.len() == n,
{
    let mut r: Vec<u8> = Vec::new();
    let mut i: u64 = 0;
    while i < n
        invariant i <= n, r@.len() == i,
        decreases n - i,
    { r.push(uninit()); i = i + 1; }
    r
}
pub fn new_array_u32(n: u64) -> (r: Vec<u32>) ensures r@.len() == n,
{
    let mut r: Vec<u32> = Vec::new();
    let mut i: u64 = 0;
    while i < n
        invariant i <= n, r@.len() == i,
        decreases n - i,
    { r.push(uninit()); i = i + 1; }
    r
}
pub fn new_array_u64(n: u64) -> (r: Vec<u64>) ensures r@.len() == n,
{
    let mut r: Vec<u64> = Vec::new();
    let mut i: u64 = 0;
    while i < n
        invariant i <= n, r@.len() == i,
        decreases n - i,
    { r.push(uninit()); i = i + 1; }
    r
}
pub fn new_array_zero_u8(n: u64) -> (r: Vec<u8>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == 0,
{
    let mut r: Vec<u8> = Vec::new();
    let mut i: u64 = 0;
    while i < n
        invariant i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == 0,
        decreases n - i,
    { r.push(0); i = i + 1; }
    r
}
#[verifier::external_body]
pub fn sizeof_class() -> (r: u64) ensures r <= 4096, { unimplemented!() }

// ------------------------------------------------------------------ std::vector
pub fn vec_clone<T: Copy>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@,
{
    let n = v.len();
    let mut r: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, n == v@.len(), r@ == v@.subrange(0, i as int),
        decreases n - i,
    {
        r.push(v[i]);
        i = i + 1;
        assert(r@ =~= v@.subrange(0, i as int));
    }
    assert(r@ =~= v@);
    r
}
pub fn vec_back_index<T>(v: &Vec<T>) -> (r: usize)
    requires v@.len() > 0,
    ensures r == v@.len() - 1,
{ v.len() - 1 }
pub fn vec_pop_back<T>(v: &mut Vec<T>)
    requires old(v)@.len() > 0,
    ensures final(v)@ == old(v)@.drop_last(),
{ let _ = v.pop(); }

// ------------------------------------------------------------------ std::string
pub struct Str { pub b: Vec<u8> }
impl Str {
    pub fn empty() -> (r: Str) ensures r.b@ == Seq::<u8>::empty(), { Str { b: Vec::new() } }
    pub fn len(&self) -> (r: u64) ensures r == self.b@.len(), { self.b.len() as u64 }
}
/// length of the longest common prefix of a[i..] and b[i..], plus i
pub open spec fn lcpf(a: Seq<u8>, b: Seq<u8>, i: int) -> int
    decreases a.len() - i,
{
    if 0 <= i < a.len() && i < b.len() && a[i] == b[i] { lcpf(a, b, i + 1) } else { i }
}
pub open spec fn lcp(a: Seq<u8>, b: Seq<u8>) -> int { lcpf(a, b, 0) }
/// byte-wise (unsigned) lexicographic order
pub open spec fn lexlt(a: Seq<u8>, b: Seq<u8>) -> bool {
    let l = lcp(a, b);
    l < b.len() && (l == a.len() || a[l] < b[l])
}
pub open spec fn lexle(a: Seq<u8>, b: Seq<u8>) -> bool { a == b || lexlt(a, b) }
pub open spec fn minl(a: int, b: int) -> int { if a < b { a } else { b } }

pub fn str_at(s: &Str, i: u64) -> (r: u8)
    requires i <= s.b@.len(),
    ensures r == if i == s.b@.len() { 0u8 } else { s.b@[i as int] },
{
    if i == s.b.len() as u64 { 0 } else { s.b[i as usize] }
}
/// r gets m[p..p+n] appended
fn copy_bytes(r: &mut Vec<u8>, m: &Vec<u8>, p: u64, n: u64)
    requires p + n <= m@.len(),
    ensures final(r)@ == old(r)@ + m@.subrange(p as int, p as int + n as int),
{
    let ml = m.len() as u64;
    let mut i: u64 = 0;
    while i < n
        invariant m@.len() == ml, i <= n, p + n <= m@.len(), r@ == old(r)@ + m@.subrange(p as int, p as int + i as int),
        decreases n - i,
    {
        let ghost r0 = r@;
        r.push(m[(p + i) as usize]);
        i = i + 1;
        assert(r@ =~= old(r)@ + m@.subrange(p as int, p as int + i as int));
    }
    assert(r@ =~= old(r)@ + m@.subrange(p as int, p as int + n as int));
}
pub fn str_substr(s: &Str, p: u64, n: u64) -> (r: Str)
    requires p <= s.b@.len(),
    ensures r.b@ == s.b@.subrange(p as int, minl(p as int + n as int, s.b@.len() as int)),
{
    let l = s.b.len() as u64 - p;
    let mut r: Vec<u8> = Vec::new();
    copy_bytes(&mut r, &s.b, p, if n < l { n } else { l });
    assert(r@ =~= s.b@.subrange(p as int, minl(p as int + n as int, s.b@.len() as int)));
    Str { b: r }
}
pub fn str_compare(a: &Str, b: &Str) -> (r: i32)
    ensures r == 0 <==> a.b@ == b.b@, r < 0 <==> lexlt(a.b@, b.b@), r > 0 <==> lexlt(b.b@, a.b@),
{
    let na = a.b.len() as u64;
    let nb = b.b.len() as u64;
    let mut i: u64 = 0;
    while i < na && i < nb && a.b[i as usize] == b.b[i as usize]
        invariant i <= na, i <= nb, na == a.b@.len(), nb == b.b@.len(),
            lcp(a.b@, b.b@) == lcpf(a.b@, b.b@, i as int), lcp(b.b@, a.b@) == lcpf(b.b@, a.b@, i as int),
            forall|j: int| 0 <= j < i ==> #[trigger] a.b@[j] == b.b@[j],
        decreases na - i,
    {
        i = i + 1;
    }
    if i == na && i == nb { assert(a.b@ =~= b.b@); 0 }
    else if i == na || (i < nb && a.b[i as usize] < b.b[i as usize]) { -1 }
    else { 1 }
}
pub fn str_concat(a: &Str, b: &Str) -> (r: Str) ensures r.b@ == a.b@ + b.b@,
{
    let mut r: Vec<u8> = Vec::new();
    copy_bytes(&mut r, &a.b, 0, a.b.len() as u64);
    copy_bytes(&mut r, &b.b, 0, b.b.len() as u64);
    assert(r@ =~= a.b@ + b.b@);
    Str { b: r }
}
pub fn str_append_str(a: &mut Str, b: &Str) ensures final(a).b@ == old(a).b@ + b.b@,
{
    copy_bytes(&mut a.b, &b.b, 0, b.b.len() as u64);
    assert(b.b@.subrange(0, b.b@.len() as int) =~= b.b@);
}
pub fn str_append_mem(a: &mut Str, m: &Vec<u8>, p: u64, n: u64)
    requires p + n <= m@.len(),
    ensures final(a).b@ == old(a).b@ + m@.subrange(p as int, p as int + n as int),
{
    copy_bytes(&mut a.b, m, p, n);
}
pub fn str_resize(a: &mut Str, n: u64, c: u8)
    ensures final(a).b@.len() == n,
        forall|i: int| 0 <= i < n ==> #[trigger] final(a).b@[i] == if i < old(a).b@.len() { old(a).b@[i] } else { c },
{
    let mut r: Vec<u8> = Vec::new();
    let mut i: u64 = 0;
    while i < n
        invariant i <= n, r@.len() == i, a.b@ == old(a).b@, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == if j < a.b@.len() { a.b@[j] } else { c },
        decreases n - i,
    { if i < a.b.len() as u64 { r.push(a.b[i as usize]); } else { r.push(c); } i = i + 1; }
    a.b = r;
}
pub fn str_push(a: &mut Str, c: u8) ensures final(a).b@ == old(a).b@.push(c), { a.b.push(c) }
pub fn str_clone(a: &Str) -> (r: Str) ensures r.b@ == a.b@,
{
    let mut r: Vec<u8> = Vec::new();
    copy_bytes(&mut r, &a.b, 0, a.b.len() as u64);
    assert(r@ =~= a.b@);
    Str { b: r }
}
pub fn str_from_mem(m: &Vec<u8>, p: u64, n: u64) -> (r: Str)
    requires p + n <= m@.len(),
    ensures r.b@ == m@.subrange(p as int, p as int + n as int),
{
    let mut r: Vec<u8> = Vec::new();
    copy_bytes(&mut r, m, p, n);
    assert(r@ =~= m@.subrange(p as int, p as int + n as int));
    Str { b: r }
}
pub open spec fn byte_of(w: u64, i: int) -> u8 { (w >> ((8 * i) as u64)) as u8 }
pub fn u64_le_bytes(w: u64) -> (r: Vec<u8>)
    ensures r@.len() == 8, forall|i: int| 0 <= i < 8 ==> #[trigger] r@[i] == byte_of(w, i),
{
    let mut r: Vec<u8> = Vec::new();
    for i in 0u64..8
        invariant r@.len() == i,  forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == byte_of(w, j),
    { r.push(#[verifier::truncate] ((w >> (8 * i)) as u8)); }
    r
}
pub fn str_from_u64_bytes(w: u64, n: u64) -> (r: Str)
    requires n <= 8,
    ensures r.b@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r.b@[i] == byte_of(w, i),
{
    let mut r: Vec<u8> = Vec::new();
    for i in 0u64..n
        invariant r@.len() == i, n <= 8, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == byte_of(w, j),
    { r.push(#[verifier::truncate] ((w >> (8 * i)) as u8)); }
    Str { b: r }
}

}
verus! {
pub open spec fn maxl(a: int, b: int) -> int { if a < b { b } else { a } }
}
