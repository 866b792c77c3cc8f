=== mod LoudsSparse
impl LoudsSparse {
    /// the sparse levels of trie t
    pub open spec fn holds(&self, t: Tr) -> bool {
        &&& t.ok()
        &&& self.height_ == t.h && self.start_level_ == t.s && self.level_cuts_@.len() == t.h
        &&& self.node_count_dense_ == t.ns(0, t.s) && self.child_count_dense_ == t.ns(0, t.s + 1) - 1
        &&& self.labels_.wf() && self.labels_.num_bytes_ == t.total() + 1
        &&& forall|i: int| 0 <= i < t.total() ==> #[trigger] self.labels_.at(i) == t.labs()[i]
        &&& self.child_indicator_bits_.wf() && self.child_indicator_bits_.n() == t.total()
        &&& forall|i: int| 0 <= i < t.total() ==> #[trigger] self.child_indicator_bits_.at(i) == t.chs()[i]
        &&& self.louds_bits_.wf() && self.louds_bits_.n() == t.total()
        &&& forall|i: int| 0 <= i < t.total() ==> #[trigger] self.louds_bits_.at(i) == t.los()[i]
        &&& sfx_holds(&self.suffixes_, t.c, t.sfxs())
    }
    pub proof fn lemma_ch_cnt(&self, t: Tr, p: int)
        requires self.holds(t), 0 <= p <= t.total(),
        ensures self.child_indicator_bits_.cnt(p) == cnt(t.chs(), p), t.chs().len() == t.total(),
    {
        t.lemma_rows(t.h);
        lemma_flen(t.rch(), t.s, t.h);
        assert forall|i: int| 0 <= i < p implies self.child_indicator_bits_.base.bits()[i] == t.chs()[i] by { assert(self.child_indicator_bits_.at(i) == t.chs()[i]); }
        lemma_cnt_prefix(self.child_indicator_bits_.base.bits(), t.chs(), p);
    }
    pub proof fn lemma_lo_cnt(&self, t: Tr, p: int)
        requires self.holds(t), 0 <= p <= t.total(),
        ensures self.louds_bits_.cnt(p) == cnt(t.los(), p), t.los().len() == t.total(),
    {
        t.lemma_rows(t.h);
        lemma_flen(t.rlo(), t.s, t.h);
        assert forall|i: int| 0 <= i < p implies self.louds_bits_.base.bits()[i] == t.los()[i] by { assert(self.louds_bits_.at(i) == t.los()[i]); }
        lemma_cnt_prefix(self.louds_bits_.base.bits(), t.los(), p);
    }
    pub proof fn lemma_ones(&self, t: Tr)
        requires self.holds(t),
        ensures self.louds_bits_.num_ones_ == t.ns(t.s, t.h), t.ns(0, t.h) == t.ns(0, t.s) + t.ns(t.s, t.h), 0 <= t.ns(t.s, t.h) <= t.total(),
            t.total() <= 0xff_0000, t.ns(0, t.h) <= 0xff_0000, t.ns(0, t.s) >= 0, t.total() > 0 ==> t.los()[0],
            t.ns(0, t.s + 1) == t.ns(0, t.s) + t.v(t.s).nodes,
    {
        self.lemma_lo_cnt(t, t.total());
        t.lemma_ns(t.h);
        t.lemma_rows(t.h);
        lemma_fcnt(t.rlo(), t.s, t.h);
        t.lemma_ns_split(0, t.s, t.h);
        t.lemma_sizes();
        t.lemma_cut_lo(t.s);
    }
    /// the suffix of key j
    pub proof fn lemma_sfx_pos(&self, t: Tr, j: int)
        requires self.holds(t), 0 <= j < t.n(), t.s <= leaf(t.ks, j),
        ensures ({
            let p = t.fp(j, leaf(t.ks, j));
            let k = p - cnt(t.chs(), p + 1);
            &&& 0 <= k < t.sfxs().len() <= 0xff_0000
            &&& t.c.ty != 0 && t.c.hl + t.c.rl > 0 ==> self.suffixes_.has(k) && self.suffixes_.stored(k) == ksfx(t.ks, t.c, j)
        }),
    {
        t.lemma_sfx_pos(j);
        let p = t.fp(j, leaf(t.ks, j));
        let k = p - cnt(t.chs(), p + 1);
        t.lemma_sizes();
        lemma_flen(t.rsfx(), t.s, t.h);
        lemma_sfx_holds(&self.suffixes_, t.c, t.sfxs(), k);
    }
    /// the labels of a node can be searched
    pub proof fn lemma_run(&self, t: Tr, a: int, b: int, l: int)
        requires self.holds(t), t.node(a, b, l), t.s <= l,
        ensures ({
            let n = t.fp(b, l) - t.fp(a, l) + 1;
            &&& self.labels_.run(t.fp(a, l), n) && n <= 0xff_0000
            &&& self.labels_.run_start(t.fp(a, l), n) == t.rs(a, b, l)
        }),
    {
        t.lemma_node(a, b, l);
        t.lemma_sizes();
        let p = t.fp(a, l);
        assert(self.labels_.at(p) == t.labs()[p]);
        assert forall|i: int, j: int| t.rs(a, b, l) <= i < j < t.fp(b, l) + 1 implies #[trigger] self.labels_.at(i) < #[trigger] self.labels_.at(j) by {
            t.lemma_node_labels(a, b, l, i, j);
        }
    }
}
/// v is field number i (n bits) of s
pub open spec fn is_fld(s: Seq<bool>, i: int, n: int, v: u64) -> bool { 0 <= i * n && i * n + n <= s.len() && field(s, i * n, n) == v }
/// the suffixes of configuration c
pub open spec fn sfx_holds(v: &BitvectorSuffix, c: Cfg, s: Seq<u64>) -> bool {
    &&& v.wf() && v.whole() && v.type_ == c.ty
    &&& c.ty != 0 ==> v.hash_suffix_len_ == c.hl && v.real_suffix_len_ == c.rl
    &&& c.ty != 0 && c.hl + c.rl > 0 ==> v.base.num_bits_ == s.len() * (c.hl + c.rl) && forall|i: int| 0 <= i < s.len() ==> #[trigger] v.stored(i) == s[i]
}
/// what comparing the suffix of a key with a query says
pub proof fn lemma_sfx_holds(v: &BitvectorSuffix, c: Cfg, s: Seq<u64>, i: int)
    requires sfx_holds(v, c, s), c.ok(), 0 <= i < s.len(),
    ensures c.ty != 0 && c.hl + c.rl > 0 ==> v.has(i) && v.stored(i) == s[i],
{
    let n = c.hl + c.rl;
    if c.ty != 0 && n > 0 { assert(i * n < s.len() * n) by (nonlinear_arith) requires i < s.len(), n > 0; }
}
impl SuRFBuilder {
    /// the trie it has built
    pub open spec fn made(&self, t: Tr) -> bool {
        &&& self.built(t.ks) && keys_ok(t.ks) && small(t.ks)
        &&& t.c == self.cfg() && t.s == self.sparse_start_level_ && t.h == self.h() && self.h() <= 0xff_fff2
    }
    pub proof fn lemma_made(&self, t: Tr)
        requires self.made(t),
        ensures t.ok(), forall|l: int| #[trigger] self.lv(l) == t.v(l),
            forall|l: int| 0 <= l < t.h ==> #[trigger] self.items(l) == t.v(l).lab.len(),
    {
        assert forall|l: int| #[trigger] self.lv(l) == t.v(l) by { }
        assert forall|l: int| t.h - 1 <= l implies no_items(#[trigger] t.v(l)) by { assert(self.lv(l) == t.v(l)); }
        assert forall|l: int| 0 <= l < t.h implies #[trigger] self.items(l) == t.v(l).lab.len() by { assert(self.lv(l).lab.len() == self.items(l)); }
    }
    /// its bit vectors, written one after the other from level s on
    pub proof fn lemma_made_bits(&self, t: Tr, s: int, nb: Seq<u32>)
        requires self.made(t), 0 <= s <= t.h, nb.len() == t.h, forall|l: int| 0 <= l < t.h ==> #[trigger] nb[l] == self.items(l),
            flen(t.rlab(), s, t.h) <= 0xff_0000,
        ensures levels_ok(self.child_indicator_bits_@, nb, s, t.h), levels_ok(self.louds_bits_@, nb, s, t.h),
            usum(nb, s, t.h) == flen(t.rlab(), s, t.h), llen(self.labels_@, s, t.h) == flen(t.rlab(), s, t.h),
            forall|i: int| 0 <= i < usum(nb, s, t.h) ==> #[trigger] catbit(self.child_indicator_bits_@, nb, s, t.h, i) == fcat(t.rch(), s, t.h)[i],
            forall|i: int| 0 <= i < usum(nb, s, t.h) ==> #[trigger] catbit(self.louds_bits_@, nb, s, t.h, i) == fcat(t.rlo(), s, t.h)[i],
            forall|i: int| 0 <= i < llen(self.labels_@, s, t.h) ==> #[trigger] catlab(self.labels_@, s, t.h, i) == fcat(t.rlab(), s, t.h)[i],
    {
        let cb = self.child_indicator_bits_@;
        let lb = self.louds_bits_@;
        self.lemma_made(t);
        assert forall|l: int| s <= l < t.h implies #[trigger] bit_rows(cb, nb)(l) == t.rch()(l) by { assert(self.lv(l) == t.v(l)); assert(nb[l] == self.items(l)); }
        assert forall|l: int| s <= l < t.h implies #[trigger] bit_rows(lb, nb)(l) == t.rlo()(l) by { assert(self.lv(l) == t.v(l)); assert(nb[l] == self.items(l)); }
        assert forall|l: int| s <= l < t.h implies #[trigger] byte_rows(self.labels_@)(l) == t.rlab()(l) by { assert(self.lv(l) == t.v(l)); }
        lemma_fcat_ext(bit_rows(cb, nb), t.rch(), s, t.h);
        lemma_fcat_ext(bit_rows(lb, nb), t.rlo(), s, t.h);
        lemma_fcat_ext(byte_rows(self.labels_@), t.rlab(), s, t.h);
        lemma_catbit_flat(cb, nb, s, t.h, 0);
        lemma_catlab_flat(self.labels_@, s, t.h, 0);
        let u = Tr { s: s, ..t };
        u.lemma_rows(t.h);
        assert forall|l: int| s <= l < t.h implies #[trigger] u.rlab()(l) == t.rlab()(l) by { }
        assert forall|l: int| s <= l < t.h implies #[trigger] u.rch()(l) == t.rch()(l) by { }
        lemma_fcat_ext(u.rlab(), t.rlab(), s, t.h);
        lemma_fcat_ext(u.rch(), t.rch(), s, t.h);
        assert forall|i: int| 0 <= i < usum(nb, s, t.h) implies #[trigger] catbit(cb, nb, s, t.h, i) == fcat(t.rch(), s, t.h)[i] by { lemma_catbit_flat(cb, nb, s, t.h, i); }
        assert forall|i: int| 0 <= i < usum(nb, s, t.h) implies #[trigger] catbit(lb, nb, s, t.h, i) == fcat(t.rlo(), s, t.h)[i] by { lemma_catbit_flat(lb, nb, s, t.h, i); }
        assert forall|i: int| 0 <= i < llen(self.labels_@, s, t.h) implies #[trigger] catlab(self.labels_@, s, t.h, i) == fcat(t.rlab(), s, t.h)[i] by { lemma_catlab_flat(self.labels_@, s, t.h, i); }
        assert forall|l: int| s <= l < t.h implies level_ok((#[trigger] cb[l])@, nb[l] as int) by { assert(self.lvl_ok(l)); assert(nb[l] == self.items(l)); }
        assert forall|l: int| s <= l < t.h implies level_ok((#[trigger] lb[l])@, nb[l] as int) by { assert(self.lvl_ok(l)); assert(nb[l] == self.items(l)); }
    }
    /// its suffixes
    pub proof fn lemma_made_sfx(&self, t: Tr, s: int, e: int, nb: Seq<u32>)
        requires self.made(t), 0 <= s <= e <= t.h, nb.len() >= e, forall|l: int| 0 <= l < e ==> #[trigger] nb[l] == self.suffix_counts_@[l] * self.slen(),
            flen(t.rsfx(), s, e) <= 0xff_0000,
        ensures levels_ok(self.suffixes_@, nb, s, e),
            usum(nb, s, e) == flen(t.rsfx(), s, e) * self.slen(),
            self.slen() > 0 ==> forall|i: int| 0 <= i < flen(t.rsfx(), s, e) ==>
                is_fld(fcat(bit_rows(self.suffixes_@, nb), s, e), i, self.slen(), #[trigger] fcat(t.rsfx(), s, e)[i]),
            forall|i: int| 0 <= i < usum(nb, s, e) ==> #[trigger] catbit(self.suffixes_@, nb, s, e, i) == fcat(bit_rows(self.suffixes_@, nb), s, e)[i],
    {
        let sb = self.suffixes_@;
        let nc = self.suffix_counts_@;
        let sl = self.slen();
        self.lemma_made(t);
        assert forall|l: int| s <= l < e implies #[trigger] field_rows(sb, nc, sl)(l) == t.rsfx()(l) by { assert(self.lv(l) == t.v(l)); }
        lemma_fcat_ext(field_rows(sb, nc, sl), t.rsfx(), s, e);
        lemma_catbit_flat(sb, nb, s, e, 0);
        lemma_flen(t.rsfx(), s, e);
        assert forall|l: int| s <= l < e implies nb[l] <= 64 * (#[trigger] sb[l])@.len() by { assert(self.lvl_ok(l)); assert(nb[l] == nc[l] * sl); }
        assert forall|l: int| s <= l < e implies level_ok((#[trigger] sb[l])@, nb[l] as int) by { assert(self.lvl_ok(l)); assert(nb[l] == nc[l] * sl); }
        assert forall|i: int| 0 <= i < usum(nb, s, e) implies #[trigger] catbit(sb, nb, s, e, i) == fcat(bit_rows(sb, nb), s, e)[i] by { lemma_catbit_flat(sb, nb, s, e, i); }
        if sl > 0 {
            lemma_fields_flat(sb, nb, nc, sl, s, e, 0);
            lemma_flen(bit_rows(sb, nb), s, e);
            assert forall|i: int| 0 <= i < flen(t.rsfx(), s, e) implies
                is_fld(fcat(bit_rows(sb, nb), s, e), i, sl, #[trigger] fcat(t.rsfx(), s, e)[i]) by { lemma_fields_flat(sb, nb, nc, sl, s, e, i); }
        } else {
            assert forall|l: int| s <= l < e implies #[trigger] nb[l] == 0 by { assert(nb[l] == nc[l] * sl); assert(nc[l] * sl == 0) by (nonlinear_arith) requires sl == 0; }
            lemma_usum_zero(nb, s, e);
        }
        let x = flen(t.rsfx(), s, e);
        assert(0 <= x * sl <= 64 * x) by (nonlinear_arith) requires 0 <= sl <= 64, 0 <= x;
        assert(sl == 0 ==> x * sl == 0) by (nonlinear_arith);
    }
    /// the suffix vector made of them
    pub proof fn lemma_made_holds(&self, t: Tr, s: int, e: int, nb: Seq<u32>, v: &BitvectorSuffix)
        requires self.made(t), 0 <= s <= e <= t.h, nb.len() >= e, forall|l: int| 0 <= l < e ==> #[trigger] nb[l] == self.suffix_counts_@[l] * self.slen(),
            flen(t.rsfx(), s, e) <= 0xff_0000,
            v.wf(), v.type_ == self.suffix_type_, v.hash_suffix_len_ == self.hash_suffix_len_, v.real_suffix_len_ == self.real_suffix_len_, v.type_ != 0,
            v.base.num_bits_ == usum(nb, s, e),
            forall|i: int| 0 <= i < v.base.num_bits_ ==> #[trigger] v.base.at(i) == catbit(self.suffixes_@, nb, s, e, i),
        ensures sfx_holds(v, t.c, fcat(t.rsfx(), s, e)),
    {
        self.lemma_made_sfx(t, s, e, nb);
        let sl = self.slen();
        let x = flen(t.rsfx(), s, e);
        lemma_flen(t.rsfx(), s, e);
        let f = fcat(bit_rows(self.suffixes_@, nb), s, e);
        if sl > 0 {
            vstd::arithmetic::div_mod::lemma_mod_multiples_basic(x, sl);
            lemma_catbit_flat(self.suffixes_@, nb, s, e, 0);
            lemma_flen(bit_rows(self.suffixes_@, nb), s, e);
            assert forall|i: int| 0 <= i < x implies #[trigger] v.stored(i) == fcat(t.rsfx(), s, e)[i] by {
                let p = i * sl;
                assert(is_fld(f, i, sl, fcat(t.rsfx(), s, e)[i]));
                assert forall|j: int| 0 <= j < sl implies v.base.bits()[p + j] == #[trigger] f[p + j] by {
                    assert(v.base.at(p + j) == catbit(self.suffixes_@, nb, s, e, p + j));
                }
                lemma_field_ext(v.base.bits(), f, p, p, sl);
                assert(v.has(i));
            }
        }
    }
}
impl LoudsSparse {
    /// size of its image in memory, the image at p, equal contents
    pub open spec fn head(&self) -> int { up8((16 + 4 * self.level_cuts_@.len()) as int) }
    #[verifier::opaque] pub open spec fn isz(&self) -> int { self.head() + self.labels_.isz() + self.child_indicator_bits_.isz() + self.louds_bits_.isz() + self.suffixes_.isz() }
    pub open spec fn off(&self, k: int) -> int { if k == 0 { self.head() } else if k == 1 { self.head() + self.labels_.isz() } else if k == 2 { self.head() + self.labels_.isz() + self.child_indicator_bits_.isz() } else if k == 3 { self.head() + self.labels_.isz() + self.child_indicator_bits_.isz() + self.louds_bits_.isz() } else { self.isz() } }
    #[verifier::opaque] pub open spec fn img(&self, m: Seq<u8>, p: int) -> bool {
        &&& at32(m, p, self.height_) && at32(m, p + 4, self.start_level_) && at32(m, p + 8, self.node_count_dense_) && at32(m, p + 12, self.child_count_dense_)
        &&& at32s(m, p + 16, self.level_cuts_@)
        &&& blank(m, p + 16 + 4 * self.level_cuts_@.len(), p + self.head())
        &&& self.labels_.img(m, p + self.off(0))
        &&& self.child_indicator_bits_.img(m, p + self.off(1))
        &&& self.louds_bits_.img(m, p + self.off(2))
        &&& self.suffixes_.img(m, p + self.off(3))
    }
    #[verifier::opaque] pub open spec fn same(&self, o: &LoudsSparse) -> bool {
        &&& self.height_ == o.height_ && self.start_level_ == o.start_level_ && self.node_count_dense_ == o.node_count_dense_ && self.child_count_dense_ == o.child_count_dense_ && self.level_cuts_@ =~= o.level_cuts_@
        &&& self.labels_.same(&o.labels_) && self.child_indicator_bits_.same(&o.child_indicator_bits_) && self.louds_bits_.same(&o.louds_bits_) && self.suffixes_.same(&o.suffixes_)
    }
    pub broadcast proof fn lemma_img_else(&self, m: Seq<u8>, w: Seq<u8>, q: int, n: int, p: int)
        requires #[trigger] same_outside(w, m, q, n), p + self.isz() <= q || q + n <= p, #[trigger] self.img(m, p), 0 <= p, 0 <= n,
        ensures self.img(w, p),
    {
        broadcast use lemma_up8;
        reveal(LoudsSparse::isz); reveal(LoudsSparse::img); reveal(LoudsSparse::same);
        broadcast use {elsewhere, img_else, sizes};
    }
    pub proof fn lemma_img_one(&self, o: &LoudsSparse, m: Seq<u8>, w: Seq<u8>, p: int)
        requires self.same(o), self.img(m, p), o.img(w, p),
        ensures agree(m, w, p, p + self.isz()), self.isz() == o.isz(),
    {
        broadcast use lemma_up8;
        reveal(LoudsSparse::isz); reveal(LoudsSparse::img); reveal(LoudsSparse::same);
        broadcast use {one, sizes};
        let x = 4 * self.level_cuts_@.len() as int;
        lemma_agree_join(m, w, p, p + 4, p + 8);
        lemma_agree_join(m, w, p, p + 8, p + 12);
        lemma_agree_join(m, w, p, p + 12, p + 16);
        lemma_agree_join(m, w, p, p + 16, p + 16 + x);
        lemma_agree_join(m, w, p, p + 16 + x, p + self.head());
        self.labels_.lemma_img_one(&o.labels_, m, w, p + self.off(0));
        lemma_agree_join(m, w, p, p + self.off(0), p + self.off(1));
        self.child_indicator_bits_.lemma_img_one(&o.child_indicator_bits_, m, w, p + self.off(1));
        lemma_agree_join(m, w, p, p + self.off(1), p + self.off(2));
        self.louds_bits_.lemma_img_one(&o.louds_bits_, m, w, p + self.off(2));
        lemma_agree_join(m, w, p, p + self.off(2), p + self.off(3));
        self.suffixes_.lemma_img_one(&o.suffixes_, m, w, p + self.off(3));
        lemma_agree_join(m, w, p, p + self.off(3), p + self.off(4));
    }
    pub proof fn lemma_small(&self, t: Tr)
        requires self.holds(t),
        ensures 0 <= self.labels_.isz() < 0x3100_0000, al8(self.labels_.isz()), 0 <= self.child_indicator_bits_.isz() < 0x3100_0000, al8(self.child_indicator_bits_.isz()), 0 <= self.louds_bits_.isz() < 0x3100_0000, al8(self.louds_bits_.isz()), 0 <= self.suffixes_.isz() < 0x3100_0000, al8(self.suffixes_.isz()), self.louds_bits_.fits(),
            self.labels_.wf(), self.child_indicator_bits_.wf(), self.louds_bits_.wf(), self.suffixes_.wf(), self.level_cuts_@.len() == self.height_ <= 0xff_fff2,
            self.isz() == self.off(4), al8(self.isz()), up8(self.isz()) == self.isz(), al8(self.off(0)), al8(self.off(1)), al8(self.off(2)), al8(self.off(3)), al8(self.off(4)), 0 <= self.isz() < 0x4_0000_0000,
    {
        broadcast use lemma_up8;
        reveal(LoudsSparse::isz);
        t.lemma_sizes(); 
        lemma_up8_add(self.head(), 0);
        self.labels_.lemma_isz();
        self.child_indicator_bits_.lemma_isz();
        self.louds_bits_.lemma_isz();
        self.suffixes_.lemma_isz();
        lemma_up8_add(self.off(0), self.labels_.isz());
        lemma_up8_add(self.off(1), self.child_indicator_bits_.isz());
        lemma_up8_add(self.off(2), self.louds_bits_.isz());
        lemma_up8_add(self.off(3), self.suffixes_.isz());
    }
    /// equal contents hold the same trie
    pub proof fn lemma_same(&self, o: &LoudsSparse, t: Tr)
        requires self.same(o), o.holds(t),
        ensures self.holds(t),
    {
        reveal(LoudsSparse::same);
        self.labels_.lemma_same(&o.labels_);
        self.child_indicator_bits_.lemma_same(&o.child_indicator_bits_);
        self.louds_bits_.lemma_same(&o.louds_bits_);
        self.suffixes_.lemma_same(&o.suffixes_);
    }
}

=== fn LoudsSparse::new_1
--- ghost
gt: Tr
--- spec
requires builder.made(gt),
ensures r.holds(gt),
--- body-start
proof { builder.lemma_made(gt); gt.lemma_sizes(); lemma_flen_mono(gt.rlab(), gt.s, gt.s, gt.h); assert(builder.lvl_ok(gt.s)); assert(builder.lv(gt.s) == gt.v(gt.s)); assert(gt.ns(0, gt.s + 1) == gt.ns(0, gt.s) + gt.v(gt.s).nodes); assert(gt.ns(0, 0) == 0); gt.lemma_root(); assert(gt.ns(0, 1) == gt.ns(0, 0) + gt.v(0).nodes); if gt.s >= 1 { gt.lemma_ns_split(0, 1, gt.s); }
    let nb = Seq::new(gt.h as nat, |l: int| builder.items(l) as u32);
    assert forall|l: int| 0 <= l < gt.h implies #[trigger] nb[l] == builder.items(l) by { assert(builder.lvl_ok(l)); }
    builder.lemma_made_bits(gt, gt.s, nb); }
--- loop 1
invariant builder.made(gt), gt.ok(), forall|l: int| #[trigger] builder.lv(l) == gt.v(l), this.height_ == gt.h, this.start_level_ == gt.s, level <= gt.s,
    forall|l: int| 0 <= l <= gt.h ==> 0 <= #[trigger] gt.ns(0, l) <= 0xff_0000,
    this.node_count_dense_ == gt.ns(0, level as int),
decreases gt.s - level,
--- loop 1 start
proof { let l = level as int; assert(builder.lv(l) == gt.v(l)); assert(builder.lvl_ok(l)); assert(gt.ns(0, l + 1) == gt.ns(0, l) + gt.v(l).nodes); }
--- loop 2
invariant builder.made(gt), gt.ok(), this.height_ == gt.h, level <= gt.h, num_items_per_level@.len() == level,
    forall|l: int| 0 <= l < level ==> #[trigger] num_items_per_level@[l] == builder.items(l),
decreases gt.h - level,
--- loop 2 start
proof { assert(builder.lvl_ok(level as int)); }
--- before loop 3
let ghost hold0 = this;
--- loop 3
invariant gt.ok(), this.height_ == gt.h, this.start_level_ == gt.s, level <= gt.s, this.level_cuts_@.len() == gt.h,
    this.node_count_dense_ == hold0.node_count_dense_, this.child_count_dense_ == hold0.child_count_dense_, this.labels_ == hold0.labels_,
decreases gt.s - level,
--- before loop 4
let ghost hold = this;
--- loop 4
invariant gt.ok(), builder.made(gt), this.height_ == gt.h, this.start_level_ == gt.s, gt.s <= level <= gt.h, this.level_cuts_@.len() == gt.h, num_items_per_level@.len() == gt.h,
    this.node_count_dense_ == hold.node_count_dense_, this.child_count_dense_ == hold.child_count_dense_, this.labels_ == hold.labels_,
decreases gt.h - level,
--- after loop 4
proof { builder.lemma_made_bits(gt, gt.s, num_items_per_level@); }
--- loop 5
invariant builder.made(gt), gt.ok(), this.height_ == gt.h, level <= gt.h, num_suffix_bits_per_level@.len() == level, suffix_len == builder.slen(),
    forall|l: int| 0 <= l < level ==> #[trigger] num_suffix_bits_per_level@[l] == builder.suffix_counts_@[l] * builder.slen(),
decreases gt.h - level,
--- loop 5 start
proof { let l = level as int; let a = builder.suffix_counts_@[l] as int; assert(builder.lvl_ok(l)); assert(0 <= a * builder.slen() <= 64 * a) by (nonlinear_arith) requires 0 <= builder.slen() <= 64, a >= 0; }
--- after loop 5
proof { builder.lemma_made_sfx(gt, gt.s, gt.h, num_suffix_bits_per_level@);
    let x = flen(gt.rsfx(), gt.s, gt.h);
    assert(builder.slen() == 0 ==> x * builder.slen() == 0) by (nonlinear_arith); 
    assert forall|v: &BitvectorSuffix| v.wf() && v.type_ == builder.suffix_type_ && v.hash_suffix_len_ == builder.hash_suffix_len_ && v.real_suffix_len_ == builder.real_suffix_len_ && v.type_ != 0
        && v.base.num_bits_ == usum(num_suffix_bits_per_level@, gt.s, gt.h)
        && (forall|i: int| 0 <= i < v.base.num_bits_ ==> #[trigger] v.base.at(i) == catbit(builder.suffixes_@, num_suffix_bits_per_level@, gt.s, gt.h, i)) implies #[trigger] sfx_holds(v, gt.c, gt.sfxs()) by {
        builder.lemma_made_holds(gt, gt.s, gt.h, num_suffix_bits_per_level@, v);
    } }

=== fn LoudsSparse::getChildNodeNum
--- ghost
gt: Tr
--- spec
requires self.holds(gt), pos < gt.total(),
ensures r == cnt(gt.chs(), pos + 1) + gt.ns(0, gt.s + 1) - 1,
--- body-start
proof { self.lemma_ch_cnt(gt, pos + 1); gt.lemma_sizes(); lemma_cnt_bounds(gt.chs(), pos + 1); self.lemma_ones(gt); }

=== fn LoudsSparse::getFirstLabelPos
--- ghost
gt: Tr
--- spec
requires self.holds(gt), gt.ns(0, gt.s) <= node_num < gt.ns(0, gt.h),
ensures r < gt.total(), gt.los()[r as int], cnt(gt.los(), r + 1) == node_num + 1 - gt.ns(0, gt.s),
--- body-start
proof { self.lemma_ones(gt); assert(self.louds_bits_.at(0) == gt.los()[0]); }
--- before return *
proof { assert forall|r: int| 0 <= r < gt.total() implies #[trigger] self.louds_bits_.cnt(r + 1) == cnt(gt.los(), r + 1) && self.louds_bits_.at(r) == gt.los()[r] by { self.lemma_lo_cnt(gt, r + 1); } }

=== fn LoudsSparse::getLastLabelPos
--- ghost
gt: Tr
--- spec
requires self.holds(gt), gt.ns(0, gt.s) <= node_num < gt.ns(0, gt.h),
ensures r < gt.total(),
    node_num + 1 == gt.ns(0, gt.h) ==> r == gt.total() - 1,
    node_num + 1 < gt.ns(0, gt.h) ==> r + 1 < gt.total() && gt.los()[r + 1] && cnt(gt.los(), r + 2) == node_num + 2 - gt.ns(0, gt.s),
--- body-start
proof { self.lemma_ones(gt); assert(self.louds_bits_.at(0) == gt.los()[0]); assert forall|r: int| 0 <= r < gt.total() implies #[trigger] cnt(gt.los(), r + 1) <= r + 1 by { lemma_cnt_bounds(gt.los(), r + 1); }
    assert forall|r: int| 0 <= r < gt.total() implies #[trigger] self.louds_bits_.cnt(r + 1) == cnt(gt.los(), r + 1) && self.louds_bits_.at(r) == gt.los()[r] by { self.lemma_lo_cnt(gt, r + 1); } }

=== fn LoudsSparse::getSuffixPos
--- ghost
gt: Tr
--- spec
requires self.holds(gt), pos < gt.total(),
ensures r == pos - cnt(gt.chs(), pos + 1) || (r == 0xffff_ffff && cnt(gt.chs(), pos + 1) == pos + 1),
--- body-start
proof { self.lemma_ch_cnt(gt, pos + 1); gt.lemma_sizes(); lemma_cnt_bounds(gt.chs(), pos + 1); }

=== fn LoudsSparse::nodeSize
--- ghost
gt: Tr
--- spec
requires self.holds(gt), pos < gt.total(), gt.los()[pos as int],
ensures 1 <= r <= gt.total() - pos,
    forall|i: int| pos < i < pos + r ==> !#[trigger] gt.los()[i],
    pos + r < gt.total() ==> gt.los()[pos + r],
--- body-start
proof { gt.lemma_sizes(); assert(self.louds_bits_.at(pos as int) == gt.los()[pos as int]);
    assert forall|i: int| 0 <= i < gt.total() implies self.louds_bits_.base.at(i) == #[trigger] gt.los()[i] by { assert(self.louds_bits_.at(i) == gt.los()[i]); } }

=== fn LoudsSparse::isEndofNode
--- ghost
gt: Tr
--- spec
requires self.holds(gt), pos < gt.total(),
ensures r == (pos + 1 == gt.total() || gt.los()[pos + 1]),
--- body-start
proof { gt.lemma_sizes(); if pos + 1 < gt.total() { assert(self.louds_bits_.at(pos + 1) == gt.los()[pos + 1]); } }

=== fn LoudsSparse::lookupKey
--- ghost
gt: Tr
--- spec
requires self.holds(gt), key.b@.len() <= 0x7fff_ffff,
    exists|j: int| gt.has(j, gt.s) && pre(gt.ks[j], key.b@, gt.s) && gt.gn(j, gt.s) == in_node_num,
ensures r == gt.finds(key.b@),
--- body-start
let ghost q = key.b@;
let ghost mut ga: int;
let ghost mut gb: int;
proof {
    let j = choose|j: int| gt.has(j, gt.s) && pre(gt.ks[j], key.b@, gt.s) && gt.gn(j, gt.s) == in_node_num;
    let r = gt.lemma_enter(j, gt.s, q);
    ga = r.0; gb = r.1;
    gt.lemma_gn(ga, gt.s);
    gt.lemma_sizes();
}
--- before loop 1
proof { gt.lemma_find(ga, gb, gt.s, pos as int); }
--- loop 1
invariant self.holds(gt), q == key.b@, key.b@.len() <= 0x7fff_ffff, gt.s <= level, level <= q.len(), level <= 0x7fff_ffff,
    gt.node(ga, gb, level as int), pre(gt.ks[ga], q, level as int), pos == gt.fp(ga, level as int),
decreases q.len() - level,
--- loop 1 start
let ghost l = level as int;
proof { gt.lemma_node(ga, gb, l); self.lemma_run(gt, ga, gb, l); gt.lemma_sizes();
    assert forall|n: int| 1 <= n <= gt.total() - gt.fp(ga, l) && (forall|i: int| gt.fp(ga, l) < i < gt.fp(ga, l) + n ==> !#[trigger] gt.los()[i]) && (gt.fp(ga, l) + n < gt.total() ==> gt.los()[gt.fp(ga, l) + n])
        implies #[trigger] self.labels_.run(gt.fp(ga, l), n) && n == gt.fp(gb, l) - gt.fp(ga, l) + 1 by { gt.lemma_node_size(ga, gb, l, n); } }
--- before return 1
proof {
    assert forall|p: int| gt.rs(ga, gb, l) <= p <= gt.fp(gb, l) implies #[trigger] gt.labs()[p] != q[l] by { assert(self.labels_.at(p) == gt.labs()[p]); }
    gt.lemma_miss(ga, gb, l, q);
}
--- after if 1
let ghost gi;
proof {
    assert(self.labels_.at(pos as int) == gt.labs()[pos as int]);
    gi = gt.lemma_step(ga, gb, l, pos as int, q);
    assert(self.child_indicator_bits_.at(pos as int) == gt.chs()[pos as int]);
}
--- if 2 then
proof { gt.lemma_sfx_pos(gi); self.lemma_sfx_pos(gt, gi); }
--- after if 2
proof {
    gt.lemma_child_num(gi, l);
    let r = gt.lemma_enter(gi, l + 1, q);
    ga = r.0; gb = r.1;
    gt.lemma_gn(ga, l + 1);
}
--- loop 1 end
proof { gt.lemma_find(ga, gb, l + 1, pos as int); }
--- after loop 1
proof { let l = level as int; gt.lemma_end(ga, gb, l, q); gt.lemma_node(ga, gb, l); gt.lemma_sizes();
    assert(self.labels_.at(pos as int) == gt.labs()[pos as int]);
    assert(self.child_indicator_bits_.at(pos as int) == gt.chs()[pos as int]);
    if gt.ks[ga].len() == l { gt.lemma_sfx_pos(ga); self.lemma_sfx_pos(gt, ga); } }

=== fn LoudsSparse::getHeight
--- spec
ensures r == self.height_,

=== fn LoudsSparse::getStartLevel
--- spec
ensures r == self.start_level_,

=== fn LoudsSparse::moveToLeftInNextSubtrie
--- ghost
gt: Tr
ga: int
gb: int
gl: int
gq: Seq<u8>
gc: bool
gg: int
--- spec
requires self.holds(gt), old(iter).wf(gt), gt.node(ga, gb, gl), gt.s <= gl < gq.len(), pre(gt.ks[ga], gq, gl), gt.split(gq, gc, gg), label == gq[gl],
    old(iter).key_len_ == gl - gt.s, old(iter).path(gt, ga, gl - gt.s), !old(iter).is_at_terminator_,
    pos == gt.fp(ga, gl), node_size == gt.fp(gb, gl) - gt.fp(ga, gl) + 1,
    forall|x: int| gt.rs(ga, gb, gl) <= x <= gt.fp(gb, gl) ==> #[trigger] gt.labs()[x] != gq[gl],
ensures ga <= gg <= gb + 1, final(iter).same(old(iter)), gg <= gb ==> final(iter).at(gt, gg), gg == gb + 1 ==> final(iter).stands(gt, gg),
--- body-start
let ghost it = *iter;
proof {
    gt.lemma_node(ga, gb, gl); self.lemma_run(gt, ga, gb, gl); gt.lemma_sizes(); gt.lemma_at(ga, gl); gt.lemma_at(gb, gl);
    gt.lemma_node_size(ga, gb, gl, node_size as int);
    gt.lemma_split_node(ga, gb, gl, gq, gc, gg);
    assert forall|x: int| gt.fp(ga, gl) <= x <= gt.fp(gb, gl) implies #[trigger] gt.labs()[x] == self.labels_.at(x) by { }
    assert forall|x: int| gt.fp(ga, gl) <= x <= gt.fp(gb, gl) implies #[trigger] iter.trie_.labels_.at(x) == gt.labs()[x] by { }
}
--- before call append_u32 1
proof { let x = gt.lemma_seek_miss(ga, gb, gl, gq, gc, gg, false, 0); }
--- before call op_inc 1
let ghost gj = gb;
proof {
    gt.lemma_last(ga, gb, gl);
    iter.lemma_path_more(&it, gt, ga, gb, gl - gt.s);
}
--- before call append_u32 2
let ghost gi = gg;
proof { let x = gt.lemma_seek_miss(ga, gb, gl, gq, gc, gg, true, pos as int); gt.lemma_at(gg, gl); }
--- before call moveToLeftMostKey 1
proof {
    gt.lemma_at(gg, gt.s);
    iter.lemma_path_more(&it, gt, ga, gg, gl - gt.s);
}

=== fn LoudsSparse::compareSuffixGreaterThan
--- ghost
gt: Tr
gj: int
gc: bool
gg: int
--- spec
requires self.holds(gt), old(iter).wf(gt), 0 <= gj < gt.n(), gt.s <= leaf(gt.ks, gj), pos == gt.fp(gj, leaf(gt.ks, gj)), level == leaf(gt.ks, gj) + 1,
    pre(gt.ks[gj], key.b@, leaf(gt.ks, gj) + 1), key.b@.len() <= 0x7fff_ffff, gt.split(key.b@, gc, gg),
    old(iter).key_len_ == leaf(gt.ks, gj) + 1 - gt.s, old(iter).path(gt, gj, old(iter).key_len_ as int), !old(iter).is_at_terminator_,
ensures gg == gj || gg == gj + 1, final(iter).same(old(iter)), r ==> final(iter).at(gt, gj) && gt.hits(gj, key.b@), !r ==> gt.no_hits(key.b@) && gg == gj + 1 && final(iter).stands(gt, gg) && lexlt(gt.ks[gj], key.b@),
--- body-start
proof {
    let l = leaf(gt.ks, gj);
    let k = gt.ks[gj];
    let q = key.b@;
    lemma_dep(gt.ks, gj);
    gt.lemma_at(gj, l);
    gt.lemma_sizes();
    self.lemma_sfx_pos(gt, gj);
    lemma_mixed_real(k, gt.c.hl, l + 1, gt.c.rl);
    gt.lemma_cmp_sfx(gj, q);
    gt.lemma_seek_leaf(gj, q, gc, gg);
    if gt.cmpv(gj, q) < 0 { gt.lemma_no_hits(gj, l + 1, q); }
    lemma_low_real(k, l + 1, gt.c.rl); lemma_low_real(q, l + 1, gt.c.rl);
    lemma_passes(k, q, gc);
}

=== fn LoudsSparse::moveToKeyGreaterThan
--- ghost
gt: Tr
gx: int
gy: int
gg: int
--- spec
requires self.holds(gt), old(iter).wf(gt), gt.node(gx, gy, gt.s), pre(gt.ks[gx], key.b@, gt.s), gt.gn(gx, gt.s) == old(iter).start_node_num_,
    key.b@.len() <= 0x7fff_ffff, gt.split(key.b@, inclusive, gg), old(iter).gone(),
ensures gx <= gg <= gy + 1, final(iter).same(old(iter)), !r ==> (if gg <= gy { final(iter).at(gt, gg) } else { final(iter).gone() && final(iter).wf(gt) }),
    r ==> exists|j: int| gx <= j <= gy && gg - 1 <= j <= gg && gt.hits(j, key.b@) && #[trigger] final(iter).at(gt, j),
    !r ==> gt.no_hits(key.b@) && gt.skips(key.b@, gg),
--- body-start
let ghost gq = key.b@;
let ghost gc = inclusive;
let ghost mut ga: int = gx;
let ghost mut gb: int = gy;
proof {
    gt.lemma_gn(ga, gt.s);
    gt.lemma_sizes();
    gt.lemma_split_node(gx, gy, gt.s, gq, gc, gg);
}
--- before loop 1
proof { gt.lemma_find(ga, gb, gt.s, pos as int); }
--- loop 1
invariant self.holds(gt), gq == key.b@, key.b@.len() <= 0x7fff_ffff, gt.s <= level, level <= gq.len(), level <= 0x7fff_ffff, gc == inclusive,
    gt.node(ga, gb, level as int), pre(gt.ks[ga], gq, level as int), pos == gt.fp(ga, level as int), gt.split(gq, gc, gg),
    gx <= ga, gb <= gy, gt.node(gx, gy, gt.s), gx <= gg <= gy + 1, level == gt.s ==> ga == gx && gb == gy,
    iter.wf(gt), iter.same(old(iter)), !iter.is_at_terminator_, !iter.is_valid_, iter.key_len_ == level - gt.s, iter.path(gt, ga, level - gt.s),
    gt.gn(gx, gt.s) == old(iter).start_node_num_,
decreases gq.len() - level,
--- loop 1 start
let ghost gl = level as int;
let ghost it = *iter;
let ghost la = ga;
let ghost lb = gb;
proof { gt.lemma_node(ga, gb, gl); self.lemma_run(gt, ga, gb, gl); gt.lemma_sizes();
    gt.lemma_split_node(ga, gb, gl, gq, gc, gg);
    assert forall|n: int| 1 <= n <= gt.total() - gt.fp(ga, gl) && (forall|i: int| gt.fp(ga, gl) < i < gt.fp(ga, gl) + n ==> !#[trigger] gt.los()[i]) && (gt.fp(ga, gl) + n < gt.total() ==> gt.los()[gt.fp(ga, gl) + n])
        implies #[trigger] self.labels_.run(gt.fp(ga, gl), n) && n == gt.fp(gb, gl) - gt.fp(ga, gl) + 1 by { gt.lemma_node_size(ga, gb, gl, n); } }
--- if 1 then
proof {
    assert forall|p: int| gt.rs(ga, gb, gl) <= p <= gt.fp(gb, gl) implies #[trigger] gt.labs()[p] != gq[gl] by { assert(self.labels_.at(p) == gt.labs()[p]); }
    if gb < gy { assert(dep(gt.ks, gb + 1) >= gt.s); }
    gt.lemma_miss(ga, gb, gl, gq); gt.lemma_skips_miss(gq, gg);
}
--- after if 1
let ghost gj;
proof {
    assert(self.labels_.at(pos as int) == gt.labs()[pos as int]);
    let i = gt.lemma_step(ga, gb, gl, pos as int, gq);
    gj = i;
    gt.lemma_at(i, gl);
    gt.lemma_in_pre(ga, gb, gl, i, gq);
    assert(self.child_indicator_bits_.at(pos as int) == gt.chs()[pos as int]);
}
--- before if 2
proof {
    iter.lemma_path_more(&it, gt, ga, gj, gl - gt.s);
    if gj < gy { assert(dep(gt.ks, gj + 1) >= gt.s); }
}
--- after if 2
proof {
    gt.lemma_child_num(gj, gl);
    let r = gt.lemma_enter(gj, gl + 1, gq);
    ga = r.0; gb = r.1;
    gt.lemma_gn(ga, gl + 1);
    gt.lemma_at(gj, gl + 1);
}
--- loop 1 end
proof {
    gt.lemma_find(ga, gb, gl + 1, pos as int);
    gt.lemma_deeper(la, lb, gl, ga, gb, gj);
    iter.lemma_path(gt, gj, ga, gl + 1 - gt.s);
}
--- before if 3
let ghost it = *iter;
proof {
    let l = level as int;
    gt.lemma_seek_end(ga, gb, l, gq, gc, gg); gt.lemma_skips_end(ga, gb, l, gq, gc, gg); gt.lemma_no_hits(ga, l, gq);
    gt.lemma_end(ga, gb, l, gq); gt.lemma_node(ga, gb, l); gt.lemma_sizes();
    gt.lemma_at(ga, l);
    assert(self.labels_.at(pos as int) == gt.labs()[pos as int]);
    assert(self.child_indicator_bits_.at(pos as int) == gt.chs()[pos as int]);
}
--- before call op_inc 1
let ghost gj = ga;
proof { iter.lemma_path_more(&it, gt, ga, ga, iter.key_len_ - 1); }
--- after if 3
let ghost gi = ga;
proof { gt.lemma_at(ga, level as int); gt.lemma_at(ga, gt.s); }

=== fn LoudsSparse::countLeavesBefore
--- ghost
gt: Tr
gj: int
--- spec
requires self.holds(gt), iter.wf(gt), 0 <= gj < gt.n(),
    iter.is_valid_ ==> iter.at(gt, gj),
    !iter.is_valid_ ==> leaf(gt.ks, gj) < gt.s && in_node_num == gt.nnext(gj, gt.s),
ensures r == gt.lsum(gj, gt.s, gt.h), r <= gt.h * 0xff_0000,
--- body-start
proof { gt.lemma_sizes(); lemma_dep(gt.ks, gj); self.lemma_ones(gt); }
--- loop 1
invariant self.holds(gt), iter.wf(gt), 0 <= gj < gt.n(), level <= gt.h - gt.s, gt.s < gt.h <= 0xff_fff2, self.height_ == gt.h, self.start_level_ == gt.s,
    self.louds_bits_.num_ones_ == gt.ns(gt.s, gt.h), gt.ns(0, gt.h) == gt.ns(0, gt.s) + gt.ns(gt.s, gt.h), gt.total() <= 0xff_0000, 0 <= gt.ns(0, gt.s) <= gt.ns(0, gt.s + 1) <= 0xff_0000,
    self.node_count_dense_ == gt.ns(0, gt.s), self.child_count_dense_ == gt.ns(0, gt.s + 1) - 1, self.louds_bits_.n() == gt.total(), self.child_indicator_bits_.n() == gt.total(),
    iter.is_valid_ ==> iter.at(gt, gj), !iter.is_valid_ ==> leaf(gt.ks, gj) < gt.s,
    dep(gt.ks, gj) <= leaf(gt.ks, gj), leaf(gt.ks, gj) >= 0,
    count == gt.lsum(gj, gt.s, gt.s + level), count <= level * 0xff_0000,
    leaf(gt.ks, gj) < gt.s + level ==> node_num == gt.nnext(gj, gt.s + level),
decreases gt.h - gt.s - level,
--- loop 1 start
proof {
    let l = gt.s + level;
    let p = gt.spos(gj, l);
    gt.lemma_spos(gj, l);
    self.lemma_ch_cnt(gt, p);
    self.lemma_ones(gt);
    if leaf(gt.ks, gj) < l {
        self.lemma_lo_cnt(gt, gt.total());
        if p < gt.total() {
            lemma_cnt_mono(gt.los(), p + 1, gt.total());
            lemma_cnt_bounds(gt.los(), p);
            assert forall|r: int| 0 <= r < gt.total() && gt.los()[r] && #[trigger] cnt(gt.los(), r + 1) == cnt(gt.los(), p + 1) implies r == p by { lemma_cnt_rank(gt.los(), r, p); }
        }
    }
}
--- before call rank 1
proof {
    let l = gt.s + level;
    gt.lemma_ns(gt.h);
    if leaf(gt.ks, gj) >= l { assert(iter.pos_in_trie_@[level as int] == gt.fp(gj, gt.s + level)); assert(gt.has(gj, l)); assert(pos == gt.spos(gj, l)); }
    else {
        let p = gt.spos(gj, l);
        assert(cnt(gt.los(), gt.total()) == gt.ns(gt.s, gt.h));
        if p < gt.total() {
            assert(cnt(gt.los(), p + 1) == cnt(gt.los(), p) + 1);
            assert(cnt(gt.los(), pos + 1) == cnt(gt.los(), p + 1));
            assert(pos == p);
        }
        assert(pos == gt.spos(gj, l));
    }
}

=== fn LoudsSparse::approxCount
--- ghost
gt: Tr
gi: int
gj: int
--- spec
requires self.holds(gt), iter_left.wf(gt), iter_right.wf(gt), 0 <= gi < gt.n(), 0 <= gj < gt.n(),
    iter_left.is_valid_ ==> iter_left.at(gt, gi),
    !iter_left.is_valid_ ==> leaf(gt.ks, gi) < gt.s && in_node_num_left == gt.nnext(gi, gt.s),
    iter_right.is_valid_ ==> iter_right.at(gt, gj),
    !iter_right.is_valid_ ==> leaf(gt.ks, gj) < gt.s && in_node_num_right == gt.nnext(gj, gt.s),
ensures r == kcnt(gt.ks, gi + 1, gj, gt.s, gt.h),
--- body-start
proof { gt.lemma_part_count(gi, gj, gt.s, gt.h); lemma_dep(gt.ks, gi); gt.lemma_all(); if leaf(gt.ks, gi) >= gt.s { gt.all().lemma_at(gi, leaf(gt.ks, gi)); } assert(gt.h * 0xff_0000 <= 0xffff_ffff_ffff) by (nonlinear_arith) requires gt.h <= 0xff_fff2; }
--- before call countLeavesBefore 1
let ghost oj = gj;
let ghost gj = gi;
--- before call countLeavesBefore 2
let ghost gj = oj;

=== fn LoudsSparse::new_0
--- spec

=== fn LoudsSparse::serializedSize
--- ghost
gt: Tr
--- spec
requires self.holds(gt),
ensures r == self.isz(),
--- body-start
hide(LoudsSparse::holds); hide(BitvectorRank::wf); hide(BitvectorSelect::wf); hide(BitvectorSuffix::wf); hide(LabelVector::wf);
proof { reveal(LoudsSparse::isz); }
proof { self.lemma_small(gt); }

=== fn LoudsSparse::serialize
--- ghost
gt: Tr
--- spec
requires self.holds(gt), al8(*old(dst) as int), *old(dst) + self.isz() <= 0xffff_ffff_0000, blank(old(dst_mem)@, *old(dst) as int, *old(dst) + self.isz()),
ensures *final(dst) == *old(dst) + self.isz(), self.img(final(dst_mem)@, *old(dst) as int), same_outside(final(dst_mem)@, old(dst_mem)@, *old(dst) as int, self.isz()),
--- body-start
hide(LoudsSparse::holds); hide(BitvectorRank::wf); hide(BitvectorSelect::wf); hide(BitvectorSuffix::wf); hide(LabelVector::wf);
proof { broadcast use lemma_up8; lemma_up8_add(*dst as int, 16 + 4 * self.level_cuts_@.len() as int); lemma_up8_add(*dst as int, self.off(0)); lemma_up8_add(*dst as int, self.off(1)); lemma_up8_add(*dst as int, self.off(2)); lemma_up8_add(*dst as int, self.off(3)); lemma_up8_add(*dst as int, self.off(4)); }
proof { reveal(LoudsSparse::isz); reveal(LoudsSparse::img); }
broadcast use {elsewhere, img_else, sizes};
proof { self.lemma_small(gt); }
proof { let m = dst_mem@; let p = *dst as int; let e = p + self.isz(); lemma_blank_sub(m, p, e, p + 16 + 4 * self.level_cuts_@.len(), p + self.head()); lemma_blank_sub(m, p, e, p + self.off(0), p + self.off(1)); lemma_blank_sub(m, p, e, p + self.off(1), p + self.off(2)); lemma_blank_sub(m, p, e, p + self.off(2), p + self.off(3)); lemma_blank_sub(m, p, e, p + self.off(3), p + self.off(4)); }
--- body-end
proof { assert(same_outside(dst_mem@, old(dst_mem)@, *old(dst) as int, self.isz())) by { reveal(same_outside); } }

=== fn LoudsSparse::deSerialize
--- ghost
gt: Tr
gs: LoudsSparse
--- spec
requires gs.holds(gt), al8(*old(src) as int), *old(src) + gs.isz() <= 0xffff_ffff_0000, gs.img(src_mem@, *old(src) as int),
ensures *final(src) == *old(src) + gs.isz(), r.same(&gs), r.holds(gt),
--- body-start
hide(LoudsSparse::holds); hide(BitvectorRank::wf); hide(BitvectorSelect::wf); hide(BitvectorSuffix::wf); hide(LabelVector::wf);
proof { broadcast use lemma_up8; lemma_up8_add(*src as int, 16 + 4 * gs.level_cuts_@.len() as int); lemma_up8_add(*src as int, gs.off(0)); lemma_up8_add(*src as int, gs.off(1)); lemma_up8_add(*src as int, gs.off(2)); lemma_up8_add(*src as int, gs.off(3)); lemma_up8_add(*src as int, gs.off(4)); }
broadcast use stored_in;
proof { reveal(LoudsSparse::isz); reveal(LoudsSparse::img); reveal(LoudsSparse::same); }
proof { gs.lemma_small(gt); }
--- before call deSerialize 1
let ghost gv = gs.labels_;
--- before call deSerialize 2
let ghost gr = gs.child_indicator_bits_;
--- before call deSerialize 3
let ghost gl = gs.louds_bits_;
--- before call deSerialize 4
let ghost gx = gs.suffixes_;
--- before return *
proof { louds_sparse.lemma_same(&gs, gt); }

=== fn LoudsSparse::getMemoryUsage
--- ghost
gt: Tr
--- spec
requires self.holds(gt),
--- body-start
proof { self.lemma_small(gt); }
