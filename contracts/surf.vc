=== mod SuRF
impl SuRF {
    /// both encodings hold trie t
    pub open spec fn holds(&self, t: Tr) -> bool { self.louds_dense_.holds(t) && self.louds_sparse_.holds(t) && self.iter_.ready(t) }
    pub open spec fn dense(&self) -> LoudsDense { *self.louds_dense_ }
    pub open spec fn sparse(&self) -> LoudsSparse { *self.louds_sparse_ }
    /// size of its image in memory, the image, equal contents
    pub open spec fn isz(&self) -> int { self.louds_dense_.isz() + self.louds_sparse_.isz() }
    pub open spec fn img(&self, m: Seq<u8>) -> bool { self.louds_dense_.img(m, 0) && self.louds_sparse_.img(m, self.louds_dense_.isz()) }
    pub open spec fn same(&self, o: &SuRF) -> bool { self.louds_dense_.same(&*o.louds_dense_) && self.louds_sparse_.same(&*o.louds_sparse_) }
    pub open spec fn kept_filter(&self, o: &SuRF) -> bool { self.louds_dense_ == o.louds_dense_ && self.louds_sparse_ == o.louds_sparse_ }
}
pub open spec fn below(k: Seq<u8>, q: Seq<u8>, inc: bool) -> bool { if inc { lexle(k, q) } else { lexlt(k, q) } }
impl Tr {
    /// the key is in the queried range
    pub open spec fn within(self, i: int, a: Seq<u8>, ai: bool, b: Seq<u8>, bi: bool) -> bool { 0 <= i < self.n() && passes(self.ks[i], a, ai) && below(self.ks[i], b, bi) }
    /// the bytes kept of a key begin one of the ends
    pub open spec fn touches(self, i: int, a: Seq<u8>, b: Seq<u8>) -> bool { 0 <= i < self.n() && (pre(self.ks[i], a, self.kend(i)) || pre(self.ks[i], b, self.kend(i))) }
    /// where a seek to q ends: on the key that it hits, or on the first that passes
    pub open spec fn seek_at(self, q: Seq<u8>, g: int, j: int, fp: bool) -> bool { if fp { g - 1 <= j <= g && self.hits(j, q) } else { j == g && self.no_hits(q) && self.skips(q, g) } }
    pub proof fn lemma_seek_one(self, q: Seq<u8>, g: int, j: int, fp: bool, i: int, e: bool)
        requires self.ok(), self.seek_at(q, g, j, fp), self.seek_at(q, g, i, e),
        ensures i == j, fp == e,
    {
        if fp && e && i != j {
            let x = leaf(self.ks, i) + 1;
            let y = leaf(self.ks, j) + 1;
            lemma_dep(self.ks, i); lemma_dep(self.ks, j);
            self.lemma_share(i, j, q, minl(x, y));
        }
    }
    /// where a seek to q ends, g the first key that is not less
    pub open spec fn stops(self, q: Seq<u8>, g: int, j: int) -> bool { self.split(q, true, g) && exists|fp: bool| #[trigger] self.seek_at(q, g, j, fp) }
    /// how many keys are counted from i to where the seek to b ends
    pub open spec fn counted_to(self, i: int, b: Seq<u8>, r: int) -> bool { exists|h: int, j: int| #[trigger] self.stops(b, h, j) && r == self.between(i, if j == self.n() { j - 1 } else { j }) }
    /// how many keys are counted from a to b
    pub open spec fn counted(self, a: Seq<u8>, b: Seq<u8>, r: int) -> bool { exists|g: int, i: int| #[trigger] self.stops(a, g, i) && if i == self.n() { r == 0 } else { self.counted_to(i, b, r) } }
    /// which is a function of the keys
    pub proof fn lemma_counted_one(self, a: Seq<u8>, b: Seq<u8>, r: int, q: int)
        requires self.ok(), self.counted(a, b, r), self.counted(a, b, q),
        ensures r == q,
    {
        let x = choose|g: int, i: int| #[trigger] self.stops(a, g, i) && if i == self.n() { r == 0 } else { self.counted_to(i, b, r) };
        let y = choose|g: int, i: int| #[trigger] self.stops(a, g, i) && if i == self.n() { q == 0 } else { self.counted_to(i, b, q) };
        self.lemma_split_one(a, true, x.0, y.0);
        self.lemma_stops_one(a, x.0, x.1, y.1);
        if x.1 != self.n() {
            let u = choose|h: int, j: int| #[trigger] self.stops(b, h, j) && r == self.between(x.1, if j == self.n() { j - 1 } else { j });
            let w = choose|h: int, j: int| #[trigger] self.stops(b, h, j) && q == self.between(x.1, if j == self.n() { j - 1 } else { j });
            self.lemma_split_one(b, true, u.0, w.0);
            self.lemma_stops_one(b, u.0, u.1, w.1);
        }
    }
    pub proof fn lemma_stops_one(self, q: Seq<u8>, g: int, i: int, j: int)
        requires self.ok(), self.stops(q, g, i), self.stops(q, g, j),
        ensures i == j,
    {
        let e = choose|e: bool| #[trigger] self.seek_at(q, g, i, e);
        let f = choose|f: bool| #[trigger] self.seek_at(q, g, j, f);
        self.lemma_seek_one(q, g, i, e, j, f);
    }
    /// where a seek to the last key less than q (inclusive: not greater) ends; h keys are less (not greater)
    pub open spec fn seek_less_at(self, q: Seq<u8>, inc: bool, h: int, j: int, fp: bool) -> bool {
        let whole = inc && h > 0 && self.kept(h - 1) == q;
        if exists|i: int| #[trigger] self.hits(i, q) { fp && self.hits(j, q) && h - 1 <= j <= h + 1 }
        else { j == h - 1 && fp == whole }
    }
    pub proof fn lemma_less_one(self, q: Seq<u8>, inc: bool, h: int, j: int, fp: bool, i: int, e: bool)
        requires self.ok(), self.seek_less_at(q, inc, h, j, fp), self.seek_less_at(q, inc, h, i, e),
        ensures i == j, fp == e,
    {
        if (exists|x: int| #[trigger] self.hits(x, q)) && i != j {
            let x = leaf(self.ks, i) + 1;
            let y = leaf(self.ks, j) + 1;
            lemma_dep(self.ks, i); lemma_dep(self.ks, j);
            self.lemma_share(i, j, q, minl(x, y));
        }
    }
    pub proof fn lemma_split_less(self, q: Seq<u8>, inc: bool, h: int, g: int)
        requires self.ok(), self.split(q, !inc, h), self.split(q, false, g),
        ensures inc ==> h == g, !inc ==> (if g > 0 && self.ks[g - 1] == q { h == g - 1 } else { h == g }),
    {
        if inc { self.lemma_split_one(q, false, h, g); }
        else if g > 0 && self.ks[g - 1] == q {
            lemma_lex_total(q, q);
            lemma_passes(q, q, true);
            assert(passes(self.ks[g - 1], q, true));
            if g - 2 >= 0 { self.lemma_ord(g - 2, g - 1); lemma_passes(self.ks[g - 2], q, true); }
            self.lemma_split_is(q, true, g - 1);
            self.lemma_split_one(q, true, h, g - 1);
        } else {
            if g > 0 { assert(passes(self.ks[g - 1], q, false) == (g - 1 >= g)); lemma_lex_total(self.ks[g - 1], q); lemma_passes(self.ks[g - 1], q, true); }
            if g < self.n() { assert(passes(self.ks[g], q, false) == (g >= g)); lemma_passes(self.ks[g], q, false); lemma_passes(self.ks[g], q, true); }
            self.lemma_split_is(q, true, g);
            self.lemma_split_one(q, true, h, g);
        }
    }
    /// the key before the first that is greater than q has q as its kept bytes exactly if it is q
    pub proof fn lemma_seek_less(self, q: Seq<u8>, inc: bool, h: int, g: int)
        requires self.ok(), self.split(q, false, g), self.skips(q, g), 
        ensures g > 0 ==> (self.kept(g - 1) == q) == (self.ks[g - 1] == q), g > 0 && self.ks[g - 1] == q ==> g < self.n(),
    {
        if g > 0 {
            let k = self.ks[g - 1];
            lemma_dep(self.ks, g - 1);
            assert(passes(k, q, false) == (g - 1 >= g));
            if self.kept(g - 1) == q {
                assert forall|i: int| 0 <= i < q.len() implies #[trigger] k[i] == q[i] by { assert(self.kept(g - 1)[i] == q[i]); }
                lemma_lex_on(k, q);
            }
            if k == q { lemma_ends(self.ks, g - 1, leaf(self.ks, g - 1)); assert(self.kept(g - 1) =~= q); }
        }
    }
    /// the answer to a range query
    pub open spec fn range(self, a: Seq<u8>, ai: bool, b: Seq<u8>, bi: bool) -> bool {
        exists|g: int, j: int, fp: bool| #[trigger] self.split(a, ai, g) && #[trigger] self.seek_at(a, g, j, fp) && self.range_at(j, b, bi)
    }
    pub proof fn lemma_range_is(self, a: Seq<u8>, ai: bool, b: Seq<u8>, bi: bool, g: int, j: int, fp: bool)
        requires self.ok(), self.split(a, ai, g), self.seek_at(a, g, j, fp),
        ensures self.range(a, ai, b, bi) == self.range_at(j, b, bi),
    {
        if self.range(a, ai, b, bi) {
            let (h, i, e) = choose|h: int, i: int, e: bool| #[trigger] self.split(a, ai, h) && #[trigger] self.seek_at(a, h, i, e) && self.range_at(i, b, bi);
            self.lemma_split_one(a, ai, g, h);
            self.lemma_seek_one(a, g, j, fp, i, e);
        }
    }
    /// the answer after the comparison
    pub open spec fn range_at(self, j: int, b: Seq<u8>, bi: bool) -> bool { 0 <= j < self.n() && (self.cmp_res(j, b) == 2018 || self.cmp_res(j, b) < 0) }
    pub proof fn lemma_range(self, a: Seq<u8>, ai: bool, b: Seq<u8>, bi: bool, g: int, j: int, fp: bool, r: bool)
        requires self.ok(), self.split(a, ai, g), self.seek_at(a, g, j, fp), r == self.range_at(j, b, bi), j < self.n() ==> self.cmp_ok(j, b, self.cmp_res(j, b)),
        ensures (exists|i: int| #[trigger] self.within(i, a, ai, b, bi)) ==> r,
            r ==> (exists|i: int| #[trigger] self.within(i, a, ai, b, bi)) || (exists|i: int| #[trigger] self.touches(i, a, b)),
    {
        if j < self.n() { lemma_dep(self.ks, j); lemma_lex_total(self.ks[j], b); }
        assert forall|i: int| #[trigger] self.within(i, a, ai, b, bi) implies r by {
            assert(i >= g);
            if j < i { self.lemma_ord(j, i); }
            if !r {
                assert(lexlt(b, self.ks[j]));
                lemma_lex_total(self.ks[i], b);
                if j < i { lemma_lex_trans(b, self.ks[j], self.ks[i]); }
                if j == i { }
            }
        }
        if r {
            let x = self.cmp_res(j, b);
            if x == 2018 || fp { assert(self.touches(j, a, b)); }
            else { assert(passes(self.ks[j], a, ai) == (j >= g)); assert(self.within(j, a, ai, b, bi)); }
        }
    }
    /// every key is found
    pub proof fn lemma_found(self, i: int)
        requires self.ok(), 0 <= i < self.n(),
        ensures self.finds(self.ks[i]),
    {
        lemma_dep(self.ks, i);
        let k = self.ks[i];
        assert(self.along(i, k));
        let lv = leaf(self.ks, i) + 1;
        if self.c.ty == 2 && (k.len() < lv || (k.len() - lv) * 8 < self.c.rl) { assert(ksfx(self.ks, self.c, i) == 0); }
        assert(self.sfx_ok(i, k));
        assert(self.hit(i, k));
    }
}
/// every key of the list is among the distinct ones
pub proof fn lemma_dd_has(ks: Keys, n: int, i: int) -> (j: int)
    requires sorted_ok(ks), 0 <= i < n <= ks.len(),
    ensures 0 <= j < dd(ks, n).len(), dd(ks, n)[j] == ks[i],
    decreases n,
{
    lemma_dd_prefix(ks, n - 1, n);
    lemma_dd_ok(ks, n);
    if i == n - 1 { dd(ks, n).len() - 1 } else { lemma_dd_has(ks, n - 1, i) }
}
/// what a filter of these keys is to be built from
pub open spec fn legal(keys: Seq<Str>) -> bool { sorted_ok(strs(keys)) && small(dd(strs(keys), keys.len() as int)) }
/// t is the trie of these keys
pub open spec fn trie_of(t: Tr, keys: Seq<Str>, c: Cfg) -> bool {
    &&& t.ok() && t.ks == dd(strs(keys), keys.len() as int) && t.c == c
    &&& forall|i: int| 0 <= i < keys.len() ==> t.finds(#[trigger] keys[i].b@)
}
pub open spec fn cfg_of(ty: u32, hl: u32, rl: u32) -> Cfg { Cfg { ty: ty as int, hl: hl as int, rl: rl as int } }

=== fn SuRF::create
--- spec
requires legal(keys@), 1 <= sparse_dense_ratio <= 0x7000_0000, hash_suffix_len + real_suffix_len <= 64, suffix_type <= 3,
ensures exists|t: Tr| #[trigger] final(self).holds(t) && trie_of(t, keys@, cfg_of(suffix_type, hash_suffix_len, real_suffix_len)),
--- after call build 1
let ghost gt;
proof {
    let rs = strs(keys@);
    let n = keys@.len() as int;
    let ks = dd(rs, n);
    gt = Tr { ks: ks, c: self.builder_.cfg(), s: self.builder_.sparse_start_level_ as int, h: self.builder_.h() };
    lemma_dd_ok(rs, n);
    assert(self.builder_.made(gt));
    self.builder_.lemma_made(gt);
    assert forall|i: int| 0 <= i < n implies gt.finds(#[trigger] keys@[i].b@) by {
        let j = lemma_dd_has(rs, n, i);
        assert(rs[i] == keys@[i].b@);
        gt.lemma_found(j);
    }
    assert(trie_of(gt, keys@, cfg_of(suffix_type, hash_suffix_len, real_suffix_len)));
}
--- body-end
proof { assert(self.holds(gt)); }

=== fn SuRF::new_0
--- spec

=== fn SuRF::new_1
--- spec
requires legal(keys@),
ensures exists|t: Tr| r.holds(t) && trie_of(t, keys@, cfg_of(0, 0, 0)),

=== fn SuRF::new_4
--- spec
requires legal(keys@), hash_suffix_len + real_suffix_len <= 64, suffix_type <= 3,
ensures exists|t: Tr| r.holds(t) && trie_of(t, keys@, cfg_of(suffix_type, hash_suffix_len, real_suffix_len)),

=== fn SuRF::new_6
--- spec
requires legal(keys@), 1 <= sparse_dense_ratio <= 0x7000_0000, hash_suffix_len + real_suffix_len <= 64, suffix_type <= 3,
ensures exists|t: Tr| r.holds(t) && trie_of(t, keys@, cfg_of(suffix_type, hash_suffix_len, real_suffix_len)),

=== fn SuRF::lookupKey
--- ghost
gt: Tr
--- spec
requires self.holds(gt), key.b@.len() <= 0x7fff_ffff,
ensures r == gt.finds(key.b@),

=== fn SuRF::moveToFirst
--- ghost
gt: Tr
--- spec
requires self.holds(gt),
ensures r.at(gt, 0), !r.could_be_fp_,
--- body-start
let ghost gi = 0int;
proof { gt.lemma_all(); gt.all().lemma_root(); lemma_dep(gt.ks, 0); gt.lemma_dsizes(); }

=== fn SuRF::moveToLast
--- ghost
gt: Tr
--- spec
requires self.holds(gt),
ensures r.at(gt, gt.n() - 1), !r.could_be_fp_,
--- body-start
let ghost gi = gt.n() - 1;
proof { gt.lemma_all(); gt.all().lemma_root(); lemma_dep(gt.ks, gt.n() - 1); gt.lemma_dsizes(); }

=== fn SuRF::moveToKeyGreaterThan
--- ghost
gt: Tr
gg: int
--- spec
requires self.holds(gt), key.b@.len() <= 0x7fff_ffff, gt.split(key.b@, inclusive, gg),
ensures r.ready(gt), r.valid() ==> exists|j: int| #[trigger] r.at(gt, j) && gt.seek_at(key.b@, gg, j, r.could_be_fp_),
    !r.valid() ==> gg == gt.n() && !r.could_be_fp_ && gt.seek_at(key.b@, gg, gg, false),
--- body-start
let ghost mut gx = 0int;
let ghost mut gy = 0int;
let ghost mut gj = 0int;
let ghost mut gi = gg;
--- if 3 then
proof {
    let x = choose|a: int, b: int| #[trigger] gt.node(a, b, gt.s) && pre(gt.ks[a], key.b@, gt.s) && iter.dense_iter_.on(gt, a);
    gx = x.0; gy = x.1; gj = gy;
}
--- before if 4
let ghost it = iter;
proof {
    if iter.sparse_iter_.is_valid_ {
        let j = if iter.could_be_fp_ { choose|j: int| gx <= j <= gy && gg - 1 <= j <= gg && gt.hits(j, key.b@) && #[trigger] iter.sparse_iter_.at(gt, j) } else { gg };
        it.lemma_on(gt, gx, j);
        assert(iter.at(gt, j));
        assert(gt.seek_at(key.b@, gg, j, iter.could_be_fp_));
    } else {
        it.lemma_on(gt, gx, gy);
    }
}
--- before return 2
proof {
    let j = if iter.could_be_fp_ { choose|j: int| gg - 1 <= j <= gg && leaf(gt.ks, j) < gt.s && #[trigger] iter.dense_iter_.on(gt, j) && gt.hits(j, key.b@) } else { gg };
    assert(iter.at(gt, j));
    assert(gt.seek_at(key.b@, gg, j, iter.could_be_fp_));
}
--- before return 3
proof { if !it.sparse_iter_.is_valid_ && iter.valid() { assert(iter.at(gt, gg)); assert(gt.seek_at(key.b@, gg, gg, iter.could_be_fp_)); } }
--- before return 4
proof { assert(iter.at(gt, gg)); assert(gt.seek_at(key.b@, gg, gg, iter.could_be_fp_)); }

=== fn SuRF::lookupRange
--- ghost
gt: Tr
--- spec
requires old(self).holds(gt), left_key.b@.len() <= 0x7fff_ffff, right_key.b@.len() <= 0x7fff_ffff,
ensures final(self).holds(gt), final(self).kept_filter(old(self)), r == gt.range(left_key.b@, left_inclusive, right_key.b@, right_inclusive),
    (exists|i: int| #[trigger] gt.within(i, left_key.b@, left_inclusive, right_key.b@, right_inclusive)) ==> r,
    r ==> (exists|i: int| #[trigger] gt.within(i, left_key.b@, left_inclusive, right_key.b@, right_inclusive)) || (exists|i: int| #[trigger] gt.touches(i, left_key.b@, right_key.b@)),
--- body-start
let ghost gq = left_key.b@;
let ghost gc = left_inclusive;
let ghost sd = self.louds_dense_;
let ghost ss = self.louds_sparse_;
let ghost gg;
let ghost mut gx = 0int;
let ghost mut gy = 0int;
let ghost mut gj = 0int;
let ghost gi;
let ghost mut gk = 0int;
proof { gt.lemma_dsizes(); gg = gt.lemma_split_some(left_key.b@, left_inclusive); gi = gg; gk = gg; gx = -1; }
--- before return 1
proof { gt.lemma_range_is(gq, gc, right_key.b@, right_inclusive, gg, gg, false); gt.lemma_range(gq, gc, right_key.b@, right_inclusive, gg, gg, false, false); }
--- if 3 then
proof {
    let x = choose|a: int, b: int| #[trigger] gt.node(a, b, gt.s) && pre(gt.ks[a], gq, gt.s) && self.iter_.dense_iter_.on(gt, a);
    gx = x.0; gy = x.1; gj = gy;
}
--- before if 4
let ghost it = self.iter_;
proof {
    if it.sparse_iter_.is_valid_ {
        let j = if exists|j: int| gx <= j <= gy && gg - 1 <= j <= gg && gt.hits(j, gq) && #[trigger] it.sparse_iter_.at(gt, j) { choose|j: int| gx <= j <= gy && gg - 1 <= j <= gg && gt.hits(j, gq) && #[trigger] it.sparse_iter_.at(gt, j) } else { gg };
        it.lemma_on(gt, gx, j);
        assert(it.at(gt, j));
        assert(gt.seek_at(gq, gg, j, gt.hits(j, gq)));
        gk = j;
    } else {
        it.lemma_on(gt, gx, gy);
    }
}
--- before if 6
proof {
    let it = self.iter_;
    if it.valid() && it.dense_iter_.done() && gx == -1 && (exists|j: int| gg - 1 <= j <= gg && leaf(gt.ks, j) < gt.s && #[trigger] it.dense_iter_.on(gt, j) && gt.hits(j, gq)) {
        gk = choose|j: int| gg - 1 <= j <= gg && leaf(gt.ks, j) < gt.s && #[trigger] it.dense_iter_.on(gt, j) && gt.hits(j, gq);
    }
    assert(gt.seek_at(gq, gg, gk, gt.hits(gk, gq)));
    if it.valid() { assert(it.at(gt, gk)); }
    gj = gk;
    gt.lemma_range_is(gq, gc, right_key.b@, right_inclusive, gg, gk, gt.hits(gk, gq));
    if !it.valid() { gt.lemma_range(gq, gc, right_key.b@, right_inclusive, gg, gk, false, false); }
}
--- before if 7
proof { gt.lemma_range(gq, gc, right_key.b@, right_inclusive, gg, gk, gt.hits(gk, gq), gt.range_at(gk, right_key.b@, right_inclusive)); }

=== fn SuRF::moveToKeyLessThan
--- ghost
gt: Tr
gh: int
--- spec
requires self.holds(gt), key.b@.len() <= 0x7fff_ffff, gt.split(key.b@, !inclusive, gh),
ensures r.valid() ==> exists|j: int| #[trigger] r.at(gt, j) && gt.seek_less_at(key.b@, inclusive, gh, j, r.could_be_fp_), 
    !r.valid() ==> gh == 0 && !r.could_be_fp_ && gt.no_hits(key.b@),
--- body-start
let ghost gg;
let ghost mut gj;
proof { gg = gt.lemma_split_some(key.b@, false); gt.lemma_split_less(key.b@, inclusive, gh, gg); gj = gg; lemma_dep(gt.ks, 0); }
--- before if 1
proof {
    if iter.valid() {
        gj = choose|j: int| #[trigger] iter.at(gt, j) && gt.seek_at(key.b@, gg, j, iter.could_be_fp_);
        if iter.could_be_fp_ { assert(gt.seek_less_at(key.b@, inclusive, gh, gj, true)); }
        else { gt.lemma_seek_less(key.b@, inclusive, gh, gg); }
    } else {
        gt.lemma_seek_less(key.b@, inclusive, gh, gg);
    }
}
--- after call op_dec 1
proof { gj = gg - 1; }
--- before return 1
proof { assert(gt.seek_less_at(key.b@, inclusive, gh, gt.n() - 1, false)); }
--- after if 2
proof {
    if iter.valid() {
        if iter.could_be_fp_ && !gt.no_hits(key.b@) { assert(iter.at(gt, gj) && gt.seek_less_at(key.b@, inclusive, gh, gj, true)); }
        else { assert(iter.at(gt, gh - 1)); assert(gt.seek_less_at(key.b@, inclusive, gh, gh - 1, iter.could_be_fp_)); }
    }
}

=== fn SuRF::approxCount_Iter_Iter
--- ghost
gt: Tr
gi: int
gj: int
--- spec
requires self.holds(gt), iter.ready(gt), iter2.ready(gt), iter.valid() ==> iter.at(gt, gi), iter2.valid() ==> iter2.at(gt, gj),
ensures r == if iter.valid() && iter2.valid() { gt.between(gi, gj) } else { 0 },
--- body-start
proof { if iter.valid() && iter2.valid() { gt.lemma_between(gi, gj); gt.lemma_sizes(); } }

=== fn SuRF::approxCount_Str_Str
--- ghost
gt: Tr
--- spec
requires old(self).holds(gt), left_key.b@.len() <= 0x7fff_ffff, right_key.b@.len() <= 0x7fff_ffff,
ensures final(self).holds(gt), final(self).kept_filter(old(self)), gt.counted(left_key.b@, right_key.b@, r as int),
    forall|g: int, h: int| #[trigger] gt.split(left_key.b@, true, g) && #[trigger] gt.split(right_key.b@, true, h) ==> r <= gt.between(g - 1, h) && r + 2 >= h - g,
--- body-start
let ghost mut gg;
let ghost mut g0;
let ghost mut h0;
let ghost mut gi;
let ghost mut gj;
proof {
    g0 = gt.lemma_split_some(left_key.b@, true); h0 = gt.lemma_split_some(right_key.b@, true); gg = g0; gi = g0; gj = h0;
    assert forall|g: int, h: int| #[trigger] gt.split(left_key.b@, true, g) && #[trigger] gt.split(right_key.b@, true, h) implies g == g0 && h == h0 by {
        gt.lemma_split_one(left_key.b@, true, g, g0); gt.lemma_split_one(right_key.b@, true, h, h0);
    }
}
--- before if 1
proof { if self.iter_.valid() { gi = choose|j: int| #[trigger] self.iter_.at(gt, j) && gt.seek_at(left_key.b@, g0, j, self.iter_.could_be_fp_); } gg = h0; }
--- before return 1
proof { assert(gt.seek_at(left_key.b@, g0, g0, false)); assert(gt.stops(left_key.b@, g0, gi)); }
--- before if 2
proof { if self.iter2_.valid() { gj = choose|j: int| #[trigger] self.iter2_.at(gt, j) && gt.seek_at(right_key.b@, h0, j, self.iter2_.could_be_fp_); } }
--- after if 2
let ghost gk = gj;
proof { if gj == gt.n() { gj = gt.n() - 1; }
    assert(gt.stops(left_key.b@, g0, gi) && gt.stops(right_key.b@, h0, gk));
    assert(gt.counted_to(gi, right_key.b@, gt.between(gi, gj)));
}

=== fn SuRF::serializedSize
--- ghost
gt: Tr
--- spec
requires self.holds(gt),
ensures r == self.isz(),
--- body-start
proof { self.louds_dense_.lemma_small(gt); self.louds_sparse_.lemma_small(gt); }

=== fn SuRF::serialize
--- ghost
gt: Tr
--- spec
requires self.holds(gt),
ensures r@.len() == self.isz(), self.img(r@),
--- body-start
hide(LoudsDense::holds); hide(LoudsSparse::holds);
broadcast use elsewhere;
proof { self.louds_dense_.lemma_small(gt); self.louds_sparse_.lemma_small(gt); assert(al8(0)) by { reveal(al8); } }
--- before call serialize 1
proof {
    assert(blank(data_mem@, 0, self.isz())) by { reveal(blank); }
    lemma_blank_sub(data_mem@, 0, self.isz(), 0, self.louds_dense_.isz());
    lemma_blank_sub(data_mem@, 0, self.isz(), self.louds_dense_.isz(), self.isz());
}
--- after call serialize 1
let ghost m = data_mem@;
--- after call serialize 2
proof { self.louds_dense_.lemma_img_else(m, data_mem@, self.louds_dense_.isz(), self.louds_sparse_.isz(), 0); }

=== fn SuRF::deSerialize
--- ghost
gt: Tr
gf: SuRF
--- spec
requires gf.holds(gt), *old(src) == 0, gf.img(src_mem@),
ensures *final(src) == gf.isz(), r.same(&gf), r.holds(gt),
--- body-start
proof { gf.louds_dense_.lemma_small(gt); gf.louds_sparse_.lemma_small(gt); assert(al8(0)) by { reveal(al8); } }
--- before call deSerialize 1
let ghost gd = gf.dense();
--- before call deSerialize 2
let ghost gs = gf.sparse();

=== fn SuRF::getMemoryUsage
--- ghost
gt: Tr
--- spec
requires self.holds(gt),

=== fn SuRF::getHeight
--- spec

=== fn SuRF::getSparseStartLevel
--- spec
