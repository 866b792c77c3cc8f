=== fn DecodeFixed32
--- spec
requires ptr + 4 <= ptr_mem@.len(),
ensures r == le32(ptr_mem@, ptr as int),

=== fn Hash
--- spec
requires data + n <= data_mem@.len(), data_mem@.len() <= 0xffff_ffff_ffff,
ensures r == spec_hash(data_mem@, data as int, n as int, seed),
--- body-start
broadcast use b_byte_shl;
let ghost data0 = data as int;
--- loop 1
invariant data0 + n <= data_mem@.len(), data_mem@.len() <= 0xffff_ffff_ffff, limit == data0 + n, data0 <= data <= limit,
    m == 0xc6a4a793, r == 24, (data - data0) % 4 == 0,
    h == hash_words(data_mem@, data0, n as int, (data - data0) / 4, seed),
decreases limit - data,
--- loop 1 start
proof { assert((data + 4 - data0) / 4 == (data - data0) / 4 + 1); }
--- after loop 1
proof { assert((data - data0) / 4 == n / 4); assert(limit - data == n % 4); }

=== fn suffixHash_Str
--- spec
requires key.b@.len() <= 0xffff_ffff_ffff,
ensures r == key_hash(key.b@),

=== fn suffixHash_char_i32
--- spec
requires keylen >= 0, key + keylen <= key_mem@.len(), key_mem@.len() <= 0xffff_ffff_ffff,
ensures r == spec_hash(key_mem@, key as int, keylen as int, 0xbc9f1d34),
