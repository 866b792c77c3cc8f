// P24: a filter made from a list of keys says may-match for each of them.
verus! {
pub fn bloom_finds_strings(bits_per_key: i32, keys: Vec<Str>, n: i32, key: &Str, Ghost(i): Ghost<int>) -> (r: bool)
    requires 1 <= bits_per_key, n == keys@.len(), 0 <= i < n, key.b@ == keys@[i].b@, forall|q: int| 0 <= q < n ==> #[trigger] keys@[q].b@.len() <= 0x7fff_ffff,
    ensures r,
{
    let f = BloomFilter::new_1(bits_per_key);
    let ghost k0 = keys@;
    let mut s = Str::empty();
    f.CreateFilter_Str_i32_Str(keys, n, &mut s);
    proof { assert(s.b@.subrange(0, s.b@.len() as int) =~= s.b@); assert(may_match(s.b@, bhash(k0[i].b@))); }
    f.KeyMayMatch_Str_Str(key, &s)
}
pub fn bloom_finds_integers(bits_per_key: i32, keys: Vec<u64>, n: i32, key: u64, Ghost(i): Ghost<int>) -> (r: bool)
    requires 1 <= bits_per_key, n == keys@.len(), 0 <= i < n, key == keys@[i],
    ensures r,
{
    let f = BloomFilter::new_1(bits_per_key);
    let ghost k0 = keys@;
    let mut s = Str::empty();
    f.CreateFilter_u64_i32_Str(keys, n, &mut s);
    proof { assert(s.b@.subrange(0, s.b@.len() as int) =~= s.b@); assert(may_match(s.b@, ihash(k0[i]))); }
    f.KeyMayMatch_u64_Str(key, &s)
}
}
