// What the builder is to build: the levels of the trie of a sorted key list, in closed form.
verus! {
/// one level of the trie: labels, has-child bits, first-in-node bits, leaf suffixes
pub ghost struct Lvl {
    pub lab: Seq<u8>,
    pub ch: Seq<bool>,
    pub lo: Seq<bool>,
    pub sfx: Seq<u64>,
    pub nodes: int,
    pub term: bool,
}
impl Lvl {
    pub open spec fn none() -> Lvl {
        Lvl { lab: Seq::empty(), ch: Seq::empty(), lo: Seq::empty(), sfx: Seq::empty(), nodes: 0, term: false }
    }
    pub open spec fn add(self, c: u8, ch: bool, lo: bool, t: bool) -> Lvl {
        Lvl { lab: self.lab.push(c), ch: self.ch.push(ch), lo: self.lo.push(lo), nodes: self.nodes + if lo { 1int } else { 0int }, term: t, ..self }
    }
    pub open spec fn add_sfx(self, s: u64) -> Lvl { Lvl { sfx: self.sfx.push(s), ..self } }
    /// the last item has a child
    pub open spec fn parent(self) -> Lvl {
        if self.ch.len() > 0 { Lvl { ch: self.ch.update(self.ch.len() - 1, true), ..self } } else { self }
    }
}
pub proof fn lemma_lvl_eq(a: Lvl, b: Lvl)
    requires a.lab =~= b.lab, a.ch =~= b.ch, a.lo =~= b.lo, a.sfx =~= b.sfx, a.nodes == b.nodes, a.term == b.term,
    ensures a == b,
{ }
/// n bits in words that reach one bit further; the rest is zero
pub open spec fn open_bits(ws: Seq<u64>, n: int) -> bool {
    &&& ws.len() == n / 64 + 1
    &&& forall|i: int| n <= i < 64 * ws.len() ==> !#[trigger] wbit(ws, i)
}
/// n bits in as many words as needed; the rest is zero
pub open spec fn tight_bits(ws: Seq<u64>, n: int) -> bool {
    &&& ws.len() == (n + 63) / 64
    &&& forall|i: int| n <= i < 64 * ws.len() ==> !#[trigger] wbit(ws, i)
}
pub open spec fn bits_of(ws: Seq<u64>, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| wbit(ws, i)) }
pub open spec fn fields_of(ws: Seq<u64>, n: int, s: int) -> Seq<u64> { Seq::new(n as nat, |i: int| field(wseq(ws), i * s, s)) }

/// a zero word appended
pub proof fn lemma_push_zero(ws: Seq<u64>)
    ensures forall|i: int| 0 <= i < 64 * ws.len() ==> #[trigger] wbit(ws.push(0), i) == wbit(ws, i),
        forall|i: int| 64 * ws.len() <= i < 64 * ws.len() + 64 ==> !#[trigger] wbit(ws.push(0), i),
{
    broadcast use b_zero;
    assert forall|i: int| 0 <= i < 64 * ws.len() implies #[trigger] wbit(ws.push(0), i) == wbit(ws, i) by { assert(0 <= i / 64 < ws.len()); }
    assert forall|i: int| 64 * ws.len() <= i < 64 * ws.len() + 64 implies !#[trigger] wbit(ws.push(0), i) by { assert(i / 64 == ws.len()); }
}

/// one more bit b, in place in v, and a new word when the words are full
pub proof fn lemma_open_push(ws: Seq<u64>, v: Seq<u64>, n: int, b: bool)
    requires 0 <= n, open_bits(ws, n), v.len() == ws.len(),
        forall|i: int| 0 <= i < 64 * ws.len() ==> #[trigger] wbit(v, i) == ((b && i == n) || wbit(ws, i)),
    ensures ({
        let r = if (n + 1) % 64 == 0 { v.push(0) } else { v };
        open_bits(r, n + 1) && bits_of(r, n + 1) == bits_of(ws, n).push(b)
    }),
{
    let r = if (n + 1) % 64 == 0 { v.push(0) } else { v };
    lemma_push_zero(v);
    assert(!wbit(ws, n));
    assert(r.len() == (n + 1) / 64 + 1);
    assert forall|i: int| n + 1 <= i < 64 * r.len() implies !#[trigger] wbit(r, i) by {
        if i < 64 * v.len() { assert(wbit(r, i) == wbit(v, i)); }
    }
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] wbit(r, i) == bits_of(ws, n).push(b)[i] by {
        assert(wbit(r, i) == wbit(v, i));
    }
    assert(bits_of(r, n + 1) =~= bits_of(ws, n).push(b));
}
/// a bit set in place
pub proof fn lemma_open_set(ws: Seq<u64>, v: Seq<u64>, n: int, k: int)
    requires 0 <= k < n, open_bits(ws, n), v.len() == ws.len(),
        forall|i: int| 0 <= i < 64 * ws.len() ==> #[trigger] wbit(v, i) == (i == k || wbit(ws, i)),
    ensures open_bits(v, n), bits_of(v, n) == bits_of(ws, n).update(k, true),
{
    assert(bits_of(v, n) =~= bits_of(ws, n).update(k, true));
}
}
verus! {
/// x has at most s bits
pub open spec fn narrow(x: u64, s: int) -> bool { forall|i: int| 0 <= i < 64 - s ==> !#[trigger] bit(x, i) }
/// v continues ws (p bits) by the s low bits of x
pub open spec fn appended(ws: Seq<u64>, v: Seq<u64>, p: int, s: int, x: u64) -> bool {
    &&& ws.len() <= v.len()
    &&& forall|i: int| 0 <= i < p ==> #[trigger] wbit(v, i) == wbit(ws, i)
    &&& forall|i: int| p <= i < 64 * v.len() ==> #[trigger] wbit(v, i) == (i < p + s && bit(x, 64 - s + i - p))
}
/// the suffix fits in the current word
pub proof fn lemma_add_field1(ws: Seq<u64>, p: int, s: int, x: u64)
    requires 0 <= p, 0 < s, p % 64 + s <= 64, p / 64 < ws.len(), narrow(x, s),
        forall|i: int| p <= i < 64 * ws.len() ==> !#[trigger] wbit(ws, i),
    ensures ({
        let y = x << ((64 - p % 64 - s) as u64);
        &&& ws[p / 64] + y <= 0xffff_ffff_ffff_ffff
        &&& appended(ws, ws.update(p / 64, (ws[p / 64] + y) as u64), p, s, x)
    }),
{
    broadcast use word_bits;
    let o = p % 64;
    let k = p / 64;
    let m = (64 - o - s) as u64;
    let y = x << m;
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(y, i) == (o <= i < o + s && bit(x, i + m)) by {
        assert(bit(y, i) == (i + m < 64 && bit(x, i + m)));
    }
    assert forall|i: int| 0 <= i < 64 implies !(#[trigger] bit(ws[k], i) && bit(y, i)) by {
        if i >= o { lemma_wbit(ws, k, i); assert(64 * k + i >= p); assert(!wbit(ws, 64 * k + i)); }
    }
    lemma_add_or(ws[k], y);
    let z = ws[k] | y;
    let v = ws.update(k, z);
    assert(p == 64 * k + o);
    assert forall|i: int| 0 <= i < 64 * v.len() implies #[trigger] wbit(v, i) == if i < p { wbit(ws, i) } else { i < p + s && bit(x, 64 - s + i - p) } by {
        let q = i / 64;
        let r = i % 64;
        assert(i == 64 * q + r);
        if q == k {
            assert(bit(z, r) == (bit(ws[k], r) || bit(y, r)));
            assert(wbit(ws, i) == bit(ws[k], r));
            assert(r + m == 64 - s + i - p);
        } else {
            assert(wbit(v, i) == wbit(ws, i));
            if i >= p { assert(i >= 64 * k + 64); }
        }
    }
}
/// the suffix continues in the next word
pub proof fn lemma_add_field2(ws: Seq<u64>, p: int, s: int, x: u64)
    requires 0 <= p, s <= 64, p % 64 + s > 64, p / 64 + 1 == ws.len(), narrow(x, s),
        forall|i: int| p <= i < 64 * ws.len() ==> !#[trigger] wbit(ws, i),
    ensures ({
        let d = s - (64 - p % 64);
        let y = x >> (d as u64);
        let z = x << ((64 - d) as u64);
        let k = p / 64;
        &&& ws[k] + y <= 0xffff_ffff_ffff_ffff
        &&& appended(ws, ws.update(k, (ws[k] + y) as u64).push(0).update(k + 1, z), p, s, x)
    }),
{
    broadcast use word_bits;
    let o = p % 64;
    let k = p / 64;
    let d = s - (64 - o);
    let y = x >> (d as u64);
    let e = (64 - d) as u64;
    let z = x << e;
    assert(0 < d < 64);
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(y, i) == (o <= i && bit(x, i - d)) by {
        assert(bit(y, i) == (i >= d && bit(x, i - d)));
    }
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(z, i) == (i < d && bit(x, i + e)) by {
        assert(bit(z, i) == (i + e < 64 && bit(x, i + e)));
    }
    assert forall|i: int| 0 <= i < 64 implies !(#[trigger] bit(ws[k], i) && bit(y, i)) by {
        if i >= o { lemma_wbit(ws, k, i); assert(64 * k + i >= p); assert(!wbit(ws, 64 * k + i)); }
    }
    lemma_add_or(ws[k], y);
    let u = ws[k] | y;
    let v = ws.update(k, u).push(0).update(k + 1, z);
    assert(p == 64 * k + o);
    assert forall|i: int| 0 <= i < 64 * v.len() implies #[trigger] wbit(v, i) == if i < p { wbit(ws, i) } else { i < p + s && bit(x, 64 - s + i - p) } by {
        let q = i / 64;
        let r = i % 64;
        assert(i == 64 * q + r);
        if q == k {
            assert(bit(u, r) == (bit(ws[k], r) || bit(y, r)));
            assert(wbit(ws, i) == bit(ws[k], r));
            assert(r - d == 64 - s + i - p);
        } else if q == k + 1 {
            assert(r + e == 64 - s + i - p);
        } else {
            assert(wbit(v, i) == wbit(ws, i));
        }
    }
}
/// appended suffixes are read back
pub proof fn lemma_fields_push(ws: Seq<u64>, v: Seq<u64>, c: int, s: int, x: u64)
    requires 0 <= c, 0 < s <= 64, tight_bits(ws, c * s), appended(ws, v, c * s, s, x), narrow(x, s), v.len() == (c * s + s + 63) / 64,
    ensures tight_bits(v, (c + 1) * s), fields_of(v, c + 1, s) == fields_of(ws, c, s).push(x),
{
    assert((c + 1) * s == c * s + s) by (nonlinear_arith);
    assert forall|i: int| c * s + s <= i < 64 * v.len() implies !#[trigger] wbit(v, i) by { assert(i >= c * s); }
    assert forall|j: int| 0 <= j < c + 1 implies #[trigger] field(wseq(v), j * s, s) == fields_of(ws, c, s).push(x)[j] by {
        let p = j * s;
        assert(p + s <= c * s + s && p >= 0 && (j < c ==> p + s <= c * s)) by (nonlinear_arith) requires p == j * s, 0 <= j <= c, s > 0;
        if j < c {
            lemma_field_ok(wseq(ws), p, s);
            let w = field(wseq(ws), p, s);
            assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(w, i) == (i >= 64 - s && wseq(v)[p + i - (64 - s)]) by {
                if i >= 64 - s {
                    let q = p + i - (64 - s);
                    assert(wbit(v, q) == wbit(ws, q));
                    assert(bit(w, i) == wseq(ws)[q]);
                }
            }
            lemma_field(w, wseq(v), p, s);
        } else {
            assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(x, i) == (i >= 64 - s && wseq(v)[p + i - (64 - s)]) by {
                if i >= 64 - s {
                    let q = p + i - (64 - s);
                    assert(wbit(v, q) == (q < p + s && bit(x, 64 - s + q - p)));
                }
            }
            lemma_field(x, wseq(v), p, s);
        }
    }
    assert(fields_of(v, c + 1, s) =~= fields_of(ws, c, s).push(x));
}
pub proof fn lemma_fields_push0(ws: Seq<u64>, c: int, x: u64)
    requires 0 <= c, narrow(x, 0),
    ensures fields_of(ws, c + 1, 0) == fields_of(ws, c, 0).push(x),
{
    lemma_nonzero(x);
    broadcast use b_zero;
    assert forall|j: int| 0 <= j < c + 1 implies #[trigger] field(wseq(ws), j * 0, 0) == fields_of(ws, c, 0).push(x)[j] by {
        lemma_field(0, wseq(ws), j * 0, 0);
    }
    assert(fields_of(ws, c + 1, 0) =~= fields_of(ws, c, 0).push(x));
}
/// every suffix has at most the configured number of bits
pub proof fn lemma_suffix_narrow(ty: int, k: Seq<u8>, hlen: int, level: int, rlen: int)
    requires 0 <= hlen, 0 <= rlen, hlen + rlen <= 64, 0 <= level,
    ensures narrow(suffix_of(ty, k, hlen, level, rlen), hlen + rlen),
{
    broadcast use word_bits;
    let x = (key_hash(k) as u64) >> 7;
    let h = hash_suffix(k, hlen);
    let r = real_suffix(k, level, rlen);
    if hlen < 64 { lemma_low_mask(x, hlen as u64); }
    assert(narrow(h, hlen));
    lemma_field_ok(kseq(k), 8 * level, rlen);
    assert(narrow(r, rlen));
    let g = if rlen < 64 { h << (rlen as u64) } else { h };
    assert forall|i: int| 0 <= i < 64 - (hlen + rlen) implies !#[trigger] bit(g | r, i) by {
        assert(bit(g | r, i) == (bit(g, i) || bit(r, i)));
        if rlen < 64 { assert(bit(g, i) == (i + rlen < 64 && bit(h, i + rlen))); }
    }
}
}
verus! {
/// the label of key k at level l; the end of a key that is a prefix of another one is a terminator
pub open spec fn sym(k: Seq<u8>, l: int) -> u8 { if l < k.len() { k[l] } else { 255 } }
pub proof fn lemma_add_parent(x: Lvl, c: u8, lo: bool, t: bool)
    ensures x.add(c, false, lo, t).parent() == x.add(c, true, lo, t),
{
    lemma_lvl_eq(x.add(c, false, lo, t).parent(), x.add(c, true, lo, t));
}
pub proof fn lemma_parent_id(x: Lvl)
    requires x.ch.len() > 0 ==> x.ch.last(),
    ensures x.parent() == x,
{
    lemma_lvl_eq(x.parent(), x);
}
}
verus! {
/// suffix configuration
pub ghost struct Cfg { pub ty: int, pub hl: int, pub rl: int }
impl Cfg { pub open spec fn ok(self) -> bool { 0 <= self.ty <= 3 && 0 <= self.hl && 0 <= self.rl && self.hl + self.rl <= 64 } }
pub type Keys = Seq<Seq<u8>>;
/// strictly ascending, non-empty keys, at least one
pub open spec fn keys_ok(ks: Keys) -> bool {
    &&& ks.len() >= 1
    &&& forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i]).len() > 0
    &&& forall|i: int| 0 < i < ks.len() ==> #[trigger] ord(ks, i)
}
pub open spec fn ord(ks: Keys, i: int) -> bool { lexlt(ks[i - 1], ks[i]) }
pub open spec fn ordle(ks: Keys, i: int) -> bool { lexle(ks[i - 1], ks[i]) }
/// depth at which key j leaves the path of the key before it
pub open spec fn dep(ks: Keys, j: int) -> int {
    if j <= 0 { -1 } else if j >= ks.len() { 0 } else { lcp(ks[j - 1], ks[j]) }
}
/// level of the leaf of key j: its kept prefix has one byte more (or is the whole key)
pub open spec fn leaf(ks: Keys, j: int) -> int { maxl(dep(ks, j), dep(ks, j + 1)) }
/// level l of the trie of the first m keys
pub open spec fn tl(ks: Keys, c: Cfg, m: int, l: int) -> Lvl
    decreases m,
{
    if m <= 0 { Lvl::none() }
    else {
        let j = m - 1;
        let p = tl(ks, c, j, l);
        let q = if 0 <= l && dep(ks, j) <= l <= leaf(ks, j) {
            p.add(sym(ks[j], l), l < leaf(ks, j), l > dep(ks, j), l >= ks[j].len())
        } else { p };
        if l == leaf(ks, j) { q.add_sfx(suffix_of(c.ty, ks[j], c.hl, l + 1, c.rl)) } else { q }
    }
}
pub proof fn lemma_dep(ks: Keys, j: int)
    requires keys_ok(ks), 0 <= j < ks.len(),
    ensures -1 <= dep(ks, j) < ks[j].len(), j > 0 ==> 0 <= dep(ks, j) <= ks[j - 1].len(),
        0 <= dep(ks, j + 1) <= ks[j].len(), 0 <= leaf(ks, j) <= ks[j].len(), dep(ks, j) <= leaf(ks, j),
        j > 0 ==> dep(ks, j) <= leaf(ks, j - 1),
        j > 0 ==> (forall|i: int| 0 <= i < dep(ks, j) ==> #[trigger] ks[j][i] == ks[j - 1][i]),
        j > 0 && dep(ks, j) < ks[j - 1].len() ==> ks[j - 1][dep(ks, j)] < ks[j][dep(ks, j)],
{
    if j > 0 {
        assert(ord(ks, j));
        lemma_lcp(ks[j - 1], ks[j]);
    }
    if j + 1 < ks.len() {
        assert(ord(ks, j + 1));
        lemma_lcp(ks[j], ks[j + 1]);
    }
    assert(ks[j].len() > 0);
}
pub proof fn lemma_tl_len(ks: Keys, c: Cfg, m: int, l: int)
    ensures tl(ks, c, m, l).lab.len() == tl(ks, c, m, l).ch.len() == tl(ks, c, m, l).lo.len(),
        tl(ks, c, m, l).lab.len() <= maxl(m, 0), tl(ks, c, m, l).sfx.len() <= maxl(m, 0),
        0 <= tl(ks, c, m, l).nodes <= tl(ks, c, m, l).lab.len(),
        l < 0 ==> tl(ks, c, m, l).lab.len() == 0,
    decreases m,
{
    if m > 0 { lemma_tl_len(ks, c, m - 1, l); }
}
/// the last item of each level down to its leaf is that of the last key
pub proof fn lemma_tl_last(ks: Keys, c: Cfg, j: int, l: int)
    requires keys_ok(ks), 0 <= j < ks.len(), 0 <= l <= leaf(ks, j),
    ensures ({
        let x = tl(ks, c, j + 1, l);
        &&& x.lab.len() > 0 && x.lab.last() == sym(ks[j], l)
        &&& x.term == (l >= ks[j].len())
        &&& x.ch.len() > 0 && x.ch.last() == (l < leaf(ks, j))
    }),
    decreases j,
{
    lemma_dep(ks, j);
    lemma_tl_len(ks, c, j + 1, l);
    if l < dep(ks, j) {
        lemma_dep(ks, j - 1);
        lemma_tl_last(ks, c, j - 1, l);
        assert(ks[j][l] == ks[j - 1][l]);
    }
}
pub open spec fn strs(v: Seq<Str>) -> Keys { Seq::new(v.len(), |i: int| v[i].b@) }
/// the distinct keys among the first n of a sorted list
pub open spec fn dd(ks: Keys, n: int) -> Keys
    decreases n,
{
    if n <= 0 { Seq::empty() }
    else if n > 1 && ks[n - 1] == ks[n - 2] { dd(ks, n - 1) }
    else { dd(ks, n - 1).push(ks[n - 1]) }
}
pub open spec fn sorted_ok(ks: Keys) -> bool {
    &&& 1 <= ks.len() <= 0xff_fff0
    &&& forall|i: int| 0 <= i < ks.len() ==> 0 < (#[trigger] ks[i]).len() <= 0xff_fff0
    &&& forall|i: int| 0 < i < ks.len() ==> #[trigger] ordle(ks, i)
}
pub proof fn lemma_dd_prefix(ks: Keys, a: int, b: int)
    requires 0 <= a <= b,
    ensures dd(ks, a).len() <= dd(ks, b).len() <= dd(ks, a).len() + (b - a),
        forall|i: int| 0 <= i < dd(ks, a).len() ==> #[trigger] dd(ks, a)[i] == dd(ks, b)[i],
    decreases b,
{
    if a < b { lemma_dd_prefix(ks, a, b - 1); }
}
pub proof fn lemma_dd_ok(ks: Keys, n: int)
    requires sorted_ok(ks), 1 <= n <= ks.len(),
    ensures keys_ok(dd(ks, n)), dd(ks, n).len() <= n, dd(ks, n).last() == ks[n - 1],
        forall|i: int| 0 <= i < dd(ks, n).len() ==> 0 < (#[trigger] dd(ks, n)[i]).len() <= 0xff_fff0,
    decreases n,
{
    reveal_with_fuel(dd, 2);
    if n > 1 { lemma_dd_ok(ks, n - 1); assert(ordle(ks, n - 1)); }
    let d = dd(ks, n);
    assert(ks[n - 1].len() > 0);
    assert forall|i: int| 0 < i < d.len() implies #[trigger] ord(d, i) by {
        if n > 1 {
            let e = dd(ks, n - 1);
            if i < e.len() { assert(ord(e, i)); }
        }
    }
}

/// how the builder adds key m
pub proof fn lemma_tl_step(ks: Keys, c: Cfg, m: int, l: int)
    requires keys_ok(ks), 0 <= m < ks.len(),
    ensures ({
        let st = maxl(dep(ks, m), 0);
        let r = 1 + leaf(ks, m);
        let p = tl(ks, c, m, l);
        let a = if st <= l < r { p.add(sym(ks[m], l), l < r - 1, l > st || p.lab.len() == 0, l >= ks[m].len()) } else { p };
        tl(ks, c, m + 1, l) == if l == r - 1 { a.add_sfx(suffix_of(c.ty, ks[m], c.hl, r, c.rl)) } else { a }
    }),
{
    lemma_dep(ks, m);
    lemma_tl_len(ks, c, m, l);
    if m > 0 && l == dep(ks, m) { lemma_dep(ks, m - 1); lemma_tl_last(ks, c, m - 1, l); }
}
}
verus! {
// ---- the dense form of a level: 256 bits per node
pub open spec fn lvl_wf(x: Lvl) -> bool {
    &&& x.lab.len() == x.ch.len() == x.lo.len()
    &&& x.nodes == cnt(x.lo, x.lo.len() as int)
    &&& x.lab.len() > 0 ==> x.lo[0]
}
/// the number of the node item p belongs to
pub open spec fn node_of(x: Lvl, p: int) -> int { cnt(x.lo, p + 1) - 1 }
/// item p of level l ends a key that is a prefix of others
pub open spec fn is_term(x: Lvl, l: int, p: int) -> bool { l > 0 && x.lo[p] && x.lab[p] == 255 && !x.ch[p] }
pub open spec fn code(x: Lvl, p: int) -> int { 256 * node_of(x, p) + x.lab[p] }
pub open spec fn zeros(n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| false) }
/// label bitmap after the first n items
pub open spec fn dlab(x: Lvl, l: int, n: int) -> Seq<bool>
    decreases n,
{
    if n <= 0 { zeros(256 * x.nodes) }
    else if is_term(x, l, n - 1) { dlab(x, l, n - 1) } else { dlab(x, l, n - 1).update(code(x, n - 1), true) }
}
pub open spec fn dch(x: Lvl, l: int, n: int) -> Seq<bool>
    decreases n,
{
    if n <= 0 { zeros(256 * x.nodes) }
    else if is_term(x, l, n - 1) || !x.ch[n - 1] { dch(x, l, n - 1) } else { dch(x, l, n - 1).update(code(x, n - 1), true) }
}
pub open spec fn dpre(x: Lvl, l: int, n: int) -> Seq<bool>
    decreases n,
{
    if n <= 0 { zeros(x.nodes) }
    else if is_term(x, l, n - 1) { dpre(x, l, n - 1).update(node_of(x, n - 1), true) } else { dpre(x, l, n - 1) }
}
pub proof fn lemma_dlens(x: Lvl, l: int, n: int)
    ensures x.nodes >= 0 ==> dlab(x, l, n).len() == 256 * x.nodes && dch(x, l, n).len() == 256 * x.nodes && dpre(x, l, n).len() == x.nodes,
    decreases n,
{
    if n > 0 { lemma_dlens(x, l, n - 1); }
}
pub proof fn lemma_node_of(x: Lvl, p: int)
    requires lvl_wf(x), 0 <= p < x.lab.len(),
    ensures 0 <= node_of(x, p) < x.nodes, code(x, p) < 256 * x.nodes,
{
    lemma_cnt_mono(x.lo, 1, p + 1);
    lemma_cnt_mono(x.lo, p + 1, x.lo.len() as int);
    assert(cnt(x.lo, 1) == 1) by { reveal_with_fuel(cnt, 2); }
}
/// the words hold exactly the bits s, then zeros
pub open spec fn words_are(ws: Seq<u64>, s: Seq<bool>) -> bool {
    &&& ws.len() == (s.len() + 63) / 64
    &&& forall|i: int| 0 <= i < 64 * ws.len() ==> #[trigger] wbit(ws, i) == (i < s.len() && s[i])
}
pub proof fn lemma_words_set(ws: Seq<u64>, v: Seq<u64>, s: Seq<bool>, k: int)
    requires words_are(ws, s), 0 <= k < s.len(), v.len() == ws.len(),
        forall|i: int| 0 <= i < 64 * ws.len() ==> #[trigger] wbit(v, i) == (i == k || wbit(ws, i)),
    ensures words_are(v, s.update(k, true)),
{ }
}
verus! {
pub proof fn lemma_cnt_push(s: Seq<bool>, b: bool)
    ensures cnt(s.push(b), s.len() as int + 1) == cnt(s, s.len() as int) + if b { 1int } else { 0int },
{
    lemma_cnt_prefix(s.push(b), s, s.len() as int);
}
pub proof fn lemma_tl_wf(ks: Keys, c: Cfg, m: int, l: int)
    requires keys_ok(ks), 0 <= m <= ks.len(),
    ensures lvl_wf(tl(ks, c, m, l)),
    decreases m,
{
    if m > 0 {
        let j = m - 1;
        let p = tl(ks, c, j, l);
        lemma_tl_wf(ks, c, j, l);
        lemma_tl_len(ks, c, j, l);
        lemma_dep(ks, j);
        if j > 0 && l == dep(ks, j) { lemma_dep(ks, j - 1); lemma_tl_last(ks, c, j - 1, l); }
        lemma_cnt_push(p.lo, l > dep(ks, j));
    }
}
}
