=== mod LoudsDense
impl LoudsDense {
    /// the dense levels of trie t
    pub open spec fn holds(&self, t: Tr) -> bool {
        &&& t.ok()
        &&& self.height_ == t.s && self.level_cuts_@.len() == t.s
        &&& self.label_bitmaps_.wf() && self.label_bitmaps_.n() == 256 * t.dn()
        &&& forall|i: int| 0 <= i < 256 * t.dn() ==> #[trigger] self.label_bitmaps_.at(i) == t.dls()[i]
        &&& self.child_indicator_bitmaps_.wf() && self.child_indicator_bitmaps_.n() == 256 * t.dn()
        &&& forall|i: int| 0 <= i < 256 * t.dn() ==> #[trigger] self.child_indicator_bitmaps_.at(i) == t.dcs()[i]
        &&& self.prefixkey_indicator_bits_.wf() && self.prefixkey_indicator_bits_.n() == t.dn()
        &&& forall|i: int| 0 <= i < t.dn() ==> #[trigger] self.prefixkey_indicator_bits_.at(i) == t.dps()[i]
        &&& self.suffixes_.wf() && self.suffixes_.whole()
        &&& t.s > 0 ==> sfx_holds(&self.suffixes_, t.c, t.dsfx())
    }
    /// set bits among the first p
    pub proof fn lemma_cnts(&self, t: Tr, p: int)
        requires self.holds(t), 0 <= p <= 256 * t.dn(),
        ensures self.label_bitmaps_.cnt(p) == cnt(t.dls(), p), self.child_indicator_bitmaps_.cnt(p) == cnt(t.dcs(), p),
            0 <= cnt(t.dcs(), p) <= cnt(t.dls(), p) <= p, t.dls().len() == 256 * t.dn(), t.dcs().len() == 256 * t.dn(), 0 <= t.dn() <= 0xff_0000,
    {
        t.lemma_dsizes();
        assert forall|i: int| 0 <= i < p implies self.label_bitmaps_.base.bits()[i] == t.dls()[i] by { assert(self.label_bitmaps_.at(i) == t.dls()[i]); }
        assert forall|i: int| 0 <= i < p implies self.child_indicator_bitmaps_.base.bits()[i] == t.dcs()[i] by { assert(self.child_indicator_bitmaps_.at(i) == t.dcs()[i]); }
        lemma_cnt_prefix(self.label_bitmaps_.base.bits(), t.dls(), p);
        lemma_cnt_prefix(self.child_indicator_bitmaps_.base.bits(), t.dcs(), p);
        t.lemma_dsub();
        lemma_cnt_sub(t.dcs(), t.dls(), p);
        lemma_cnt_bounds(t.dls(), p);
    }
    pub proof fn lemma_pcnt(&self, t: Tr, p: int)
        requires self.holds(t), 0 <= p <= t.dn(),
        ensures self.prefixkey_indicator_bits_.cnt(p) == cnt(t.dps(), p), 0 <= cnt(t.dps(), p) <= p, t.dps().len() == t.dn(), 0 <= t.dn() <= 0xff_0000,
    {
        t.lemma_dsizes();
        assert forall|i: int| 0 <= i < p implies self.prefixkey_indicator_bits_.base.bits()[i] == t.dps()[i] by { assert(self.prefixkey_indicator_bits_.at(i) == t.dps()[i]); }
        lemma_cnt_prefix(self.prefixkey_indicator_bits_.base.bits(), t.dps(), p);
        lemma_cnt_bounds(t.dps(), p);
    }
}
impl SuRFBuilder {
    /// its dense bit vectors, written one after the other
    pub proof fn lemma_made_dense(&self, t: Tr, nb: Seq<u32>)
        requires self.made(t), nb.len() == t.s, forall|l: int| 0 <= l < t.s ==> #[trigger] nb[l] == 64 * self.bitmap_labels_@[l]@.len(),
        ensures self.dense_len(t.s),
            levels_ok(self.bitmap_labels_@, nb, 0, t.s), levels_ok(self.bitmap_child_indicator_bits_@, nb, 0, t.s),
            levels_ok(self.prefixkey_indicator_bits_@, self.node_counts_@, 0, t.s),
            usum(nb, 0, t.s) == 256 * t.dn(), usum(self.node_counts_@, 0, t.s) == t.dn(),
            forall|i: int| 0 <= i < 256 * t.dn() ==> #[trigger] catbit(self.bitmap_labels_@, nb, 0, t.s, i) == t.dls()[i],
            forall|i: int| 0 <= i < 256 * t.dn() ==> #[trigger] catbit(self.bitmap_child_indicator_bits_@, nb, 0, t.s, i) == t.dcs()[i],
            forall|i: int| 0 <= i < t.dn() ==> #[trigger] catbit(self.prefixkey_indicator_bits_@, self.node_counts_@, 0, t.s, i) == t.dps()[i],
    {
        let lb = self.bitmap_labels_@;
        let cb = self.bitmap_child_indicator_bits_@;
        let pb = self.prefixkey_indicator_bits_@;
        let nc = self.node_counts_@;
        let s = t.s;
        self.lemma_made(t);
        t.lemma_dsizes();
        assert forall|l: int| 0 <= l < s implies #[trigger] bit_rows(lb, nb)(l) == t.rdl()(l) && bit_rows(cb, nb)(l) == t.rdc()(l) && bit_rows(pb, nc)(l) == t.rdp()(l)
            && level_ok(lb[l]@, nb[l] as int) && level_ok(cb[l]@, nb[l] as int) && level_ok(pb[l]@, nc[l] as int) by {
            let x = t.v(l);
            assert(self.lv(l) == x);
            assert(self.dense_at(l, self.items(l)));
            lemma_dlens(x, l, x.lab.len() as int);
            assert(x.nodes == nc[l]);
            assert(nb[l] == 256 * x.nodes);
            assert(bit_rows(lb, nb)(l) =~= t.rdl()(l));
            assert(bit_rows(cb, nb)(l) =~= t.rdc()(l));
            assert(bit_rows(pb, nc)(l) =~= t.rdp()(l));
        }
        assert forall|l: int| 0 <= l < s implies #[trigger] bit_rows(cb, nb)(l) == t.rdc()(l) by { assert(bit_rows(lb, nb)(l) == t.rdl()(l)); }
        assert forall|l: int| 0 <= l < s implies #[trigger] bit_rows(pb, nc)(l) == t.rdp()(l) by { assert(bit_rows(lb, nb)(l) == t.rdl()(l)); }
        assert forall|l: int| 0 <= l < s implies level_ok((#[trigger] lb[l])@, nb[l] as int) by { assert(bit_rows(lb, nb)(l) == t.rdl()(l)); }
        assert forall|l: int| 0 <= l < s implies level_ok((#[trigger] cb[l])@, nb[l] as int) by { assert(bit_rows(lb, nb)(l) == t.rdl()(l)); }
        assert forall|l: int| 0 <= l < s implies level_ok((#[trigger] pb[l])@, nc[l] as int) by { assert(bit_rows(lb, nb)(l) == t.rdl()(l)); }
        lemma_fcat_ext(bit_rows(lb, nb), t.rdl(), 0, s);
        lemma_fcat_ext(bit_rows(cb, nb), t.rdc(), 0, s);
        lemma_fcat_ext(bit_rows(pb, nc), t.rdp(), 0, s);
        lemma_catbit_flat(lb, nb, 0, s, 0);
        lemma_catbit_flat(pb, nc, 0, s, 0);
        t.lemma_dlen(s);
        assert forall|i: int| 0 <= i < 256 * t.dn() implies #[trigger] catbit(lb, nb, 0, s, i) == t.dls()[i] by { lemma_catbit_flat(lb, nb, 0, s, i); }
        assert forall|i: int| 0 <= i < 256 * t.dn() implies #[trigger] catbit(cb, nb, 0, s, i) == t.dcs()[i] by { lemma_catbit_flat(cb, nb, 0, s, i); }
        assert forall|i: int| 0 <= i < t.dn() implies #[trigger] catbit(pb, nc, 0, s, i) == t.dps()[i] by { lemma_catbit_flat(pb, nc, 0, s, i); }
    }
}
impl LoudsDense {
    /// size of its image in memory, the image at p, equal contents
    pub open spec fn head(&self) -> int { up8((4 + 4 * self.level_cuts_@.len()) as int) }
    #[verifier::opaque] pub open spec fn isz(&self) -> int { self.head() + self.label_bitmaps_.isz() + self.child_indicator_bitmaps_.isz() + self.prefixkey_indicator_bits_.isz() + self.suffixes_.isz() }
    pub open spec fn off(&self, k: int) -> int { if k == 0 { self.head() } else if k == 1 { self.head() + self.label_bitmaps_.isz() } else if k == 2 { self.head() + self.label_bitmaps_.isz() + self.child_indicator_bitmaps_.isz() } else if k == 3 { self.head() + self.label_bitmaps_.isz() + self.child_indicator_bitmaps_.isz() + self.prefixkey_indicator_bits_.isz() } else { self.isz() } }
    #[verifier::opaque] pub open spec fn img(&self, m: Seq<u8>, p: int) -> bool {
        &&& at32(m, p, self.height_)
        &&& at32s(m, p + 4, self.level_cuts_@)
        &&& blank(m, p + 4 + 4 * self.level_cuts_@.len(), p + self.head())
        &&& self.label_bitmaps_.img(m, p + self.off(0))
        &&& self.child_indicator_bitmaps_.img(m, p + self.off(1))
        &&& self.prefixkey_indicator_bits_.img(m, p + self.off(2))
        &&& self.suffixes_.img(m, p + self.off(3))
    }
    #[verifier::opaque] pub open spec fn same(&self, o: &LoudsDense) -> bool {
        &&& self.height_ == o.height_ && self.level_cuts_@ =~= o.level_cuts_@
        &&& self.label_bitmaps_.same(&o.label_bitmaps_) && self.child_indicator_bitmaps_.same(&o.child_indicator_bitmaps_) && self.prefixkey_indicator_bits_.same(&o.prefixkey_indicator_bits_) && self.suffixes_.same(&o.suffixes_)
    }
    pub broadcast proof fn lemma_img_else(&self, m: Seq<u8>, w: Seq<u8>, q: int, n: int, p: int)
        requires #[trigger] same_outside(w, m, q, n), p + self.isz() <= q || q + n <= p, #[trigger] self.img(m, p), 0 <= p, 0 <= n,
        ensures self.img(w, p),
    {
        broadcast use lemma_up8;
        reveal(LoudsDense::isz); reveal(LoudsDense::img); reveal(LoudsDense::same);
        broadcast use {elsewhere, img_else, sizes};
    }
    pub proof fn lemma_img_one(&self, o: &LoudsDense, m: Seq<u8>, w: Seq<u8>, p: int)
        requires self.same(o), self.img(m, p), o.img(w, p),
        ensures agree(m, w, p, p + self.isz()), self.isz() == o.isz(),
    {
        broadcast use lemma_up8;
        reveal(LoudsDense::isz); reveal(LoudsDense::img); reveal(LoudsDense::same);
        broadcast use {one, sizes};
        let x = 4 * self.level_cuts_@.len() as int;
        lemma_agree_join(m, w, p, p + 4, p + 4 + x);
        lemma_agree_join(m, w, p, p + 4 + x, p + self.head());
        self.label_bitmaps_.lemma_img_one(&o.label_bitmaps_, m, w, p + self.off(0));
        lemma_agree_join(m, w, p, p + self.off(0), p + self.off(1));
        self.child_indicator_bitmaps_.lemma_img_one(&o.child_indicator_bitmaps_, m, w, p + self.off(1));
        lemma_agree_join(m, w, p, p + self.off(1), p + self.off(2));
        self.prefixkey_indicator_bits_.lemma_img_one(&o.prefixkey_indicator_bits_, m, w, p + self.off(2));
        lemma_agree_join(m, w, p, p + self.off(2), p + self.off(3));
        self.suffixes_.lemma_img_one(&o.suffixes_, m, w, p + self.off(3));
        lemma_agree_join(m, w, p, p + self.off(3), p + self.off(4));
    }
    pub proof fn lemma_small(&self, t: Tr)
        requires self.holds(t),
        ensures 0 <= self.label_bitmaps_.isz() < 0x3100_0000, al8(self.label_bitmaps_.isz()), 0 <= self.child_indicator_bitmaps_.isz() < 0x3100_0000, al8(self.child_indicator_bitmaps_.isz()), 0 <= self.prefixkey_indicator_bits_.isz() < 0x3100_0000, al8(self.prefixkey_indicator_bits_.isz()), 0 <= self.suffixes_.isz() < 0x3100_0000, al8(self.suffixes_.isz()),
            self.label_bitmaps_.wf(), self.child_indicator_bitmaps_.wf(), self.prefixkey_indicator_bits_.wf(), self.suffixes_.wf(), self.level_cuts_@.len() == self.height_ <= 0xff_fff2,
            self.isz() == self.off(4), al8(self.isz()), up8(self.isz()) == self.isz(), al8(self.off(0)), al8(self.off(1)), al8(self.off(2)), al8(self.off(3)), al8(self.off(4)), 0 <= self.isz() < 0x4_0000_0000,
    {
        broadcast use lemma_up8;
        reveal(LoudsDense::isz);
        t.lemma_sizes(); t.lemma_dsizes();
        lemma_up8_add(self.head(), 0);
        self.label_bitmaps_.lemma_isz();
        self.child_indicator_bitmaps_.lemma_isz();
        self.prefixkey_indicator_bits_.lemma_isz();
        self.suffixes_.lemma_isz();
        lemma_up8_add(self.off(0), self.label_bitmaps_.isz());
        lemma_up8_add(self.off(1), self.child_indicator_bitmaps_.isz());
        lemma_up8_add(self.off(2), self.prefixkey_indicator_bits_.isz());
        lemma_up8_add(self.off(3), self.suffixes_.isz());
    }
    /// equal contents hold the same trie
    pub proof fn lemma_same(&self, o: &LoudsDense, t: Tr)
        requires self.same(o), o.holds(t),
        ensures self.holds(t),
    {
        reveal(LoudsDense::same);
        self.label_bitmaps_.lemma_same(&o.label_bitmaps_);
        self.child_indicator_bitmaps_.lemma_same(&o.child_indicator_bitmaps_);
        self.prefixkey_indicator_bits_.lemma_same(&o.prefixkey_indicator_bits_);
        self.suffixes_.lemma_same(&o.suffixes_);
    }
}

=== fn LoudsDense::new_1
--- ghost
gt: Tr
--- spec
requires builder.made(gt),
ensures r.holds(gt),
--- body-start
proof { builder.lemma_made(gt); gt.lemma_dsizes(); gt.lemma_dlen(gt.s); gt.lemma_dsfx_len(); }
--- loop 1
invariant builder.made(gt), gt.ok(), this.height_ == gt.s, level <= gt.s, num_bits_per_level@.len() == level, builder.dense_len(gt.s),
    forall|l: int| 0 <= l < level ==> #[trigger] num_bits_per_level@[l] == 64 * builder.bitmap_labels_@[l]@.len(),
    forall|l: int| 0 <= l < gt.s ==> (#[trigger] builder.bitmap_labels_@[l])@.len() < 0x400_0000,
decreases gt.s - level,
--- before loop 1
proof {
    assert(builder.dense_ok());
    assert forall|l: int| 0 <= l < gt.s implies (#[trigger] builder.bitmap_labels_@[l])@.len() < 0x400_0000 by {
        assert(builder.lv(l) == gt.v(l)); assert(builder.lvl_ok(l)); assert(builder.dense_at(l, builder.items(l)));
        lemma_dlens(gt.v(l), l, gt.v(l).lab.len() as int);
        gt.lemma_sizes(); lemma_tl_len(gt.ks, gt.c, gt.n(), l);
    }
}
--- after loop 1
proof { builder.lemma_made_dense(gt, num_bits_per_level@); assert(usum(num_bits_per_level@, 0, 0) == 0); }
--- loop 2
invariant gt.ok(), this.height_ == gt.s, level <= gt.s, this.level_cuts_@.len() == gt.s, num_bits_per_level@.len() == gt.s,
    bit_count == usum(num_bits_per_level@, 0, level as int), usum(num_bits_per_level@, 0, gt.s) <= 0xff00_0000,
decreases gt.s - level,
--- loop 2 start
proof { lemma_usum_mono(num_bits_per_level@, 0, level + 1, gt.s); lemma_usum_mono(num_bits_per_level@, 0, level as int, gt.s); }
--- loop 3
invariant builder.made(gt), gt.ok(), this.height_ == gt.s, level <= gt.s, num_suffix_bits_per_level@.len() == level, suffix_len == builder.slen(),
    forall|l: int| 0 <= l < level ==> #[trigger] num_suffix_bits_per_level@[l] == builder.suffix_counts_@[l] * builder.slen(),
decreases gt.s - level,
--- loop 3 start
proof { let l = level as int; let a = builder.suffix_counts_@[l] as int; assert(builder.lvl_ok(l)); assert(0 <= a * builder.slen() <= 64 * a) by (nonlinear_arith) requires 0 <= builder.slen() <= 64, a >= 0; }
--- after loop 3
proof { builder.lemma_made_sfx(gt, 0, gt.s, num_suffix_bits_per_level@);
    let x = flen(gt.rsfx(), 0, gt.s);
    assert(builder.slen() == 0 ==> x * builder.slen() == 0) by (nonlinear_arith);
    assert forall|v: &BitvectorSuffix| v.wf() && v.type_ == builder.suffix_type_ && v.hash_suffix_len_ == builder.hash_suffix_len_ && v.real_suffix_len_ == builder.real_suffix_len_ && v.type_ != 0
        && v.base.num_bits_ == usum(num_suffix_bits_per_level@, 0, gt.s)
        && (forall|i: int| 0 <= i < v.base.num_bits_ ==> #[trigger] v.base.at(i) == catbit(builder.suffixes_@, num_suffix_bits_per_level@, 0, gt.s, i)) implies #[trigger] sfx_holds(v, gt.c, gt.dsfx()) by {
        builder.lemma_made_holds(gt, 0, gt.s, num_suffix_bits_per_level@, v);
    } }

--- body-end
proof {
    assert(this.label_bitmaps_.n() == 256 * gt.dn() && this.label_bitmaps_.wf());
    assert(this.child_indicator_bitmaps_.n() == 256 * gt.dn() && this.child_indicator_bitmaps_.wf());
    assert(this.prefixkey_indicator_bits_.n() == gt.dn() && this.prefixkey_indicator_bits_.wf());
    assert forall|i: int| 0 <= i < 256 * gt.dn() implies #[trigger] this.label_bitmaps_.at(i) == gt.dls()[i] by { }
    assert forall|i: int| 0 <= i < 256 * gt.dn() implies #[trigger] this.child_indicator_bitmaps_.at(i) == gt.dcs()[i] by { }
    assert forall|i: int| 0 <= i < gt.dn() implies #[trigger] this.prefixkey_indicator_bits_.at(i) == gt.dps()[i] by { }
    assert(this.suffixes_.wf());
    assert(gt.s > 0 && gt.c.ty != 0 ==> sfx_holds(&this.suffixes_, gt.c, gt.dsfx()));
    assert(this.suffixes_.slen() == 0 ==> this.suffixes_.whole());
    assert(gt.s == 0 || gt.c.ty == 0 ==> this.suffixes_.slen() == 0);
    assert(this.suffixes_.whole());
    assert(gt.s > 0 ==> sfx_holds(&this.suffixes_, gt.c, gt.dsfx()));
}

=== fn LoudsDense::getHeight
--- spec
ensures r == self.height_,

=== fn LoudsDense::getChildNodeNum
--- ghost
gt: Tr
--- spec
requires self.holds(gt), pos < 256 * gt.dn(),
ensures r == cnt(gt.dcs(), pos + 1),
--- body-start
proof { self.lemma_cnts(gt, pos + 1); }

=== fn LoudsDense::getSuffixPos
--- ghost
gt: Tr
--- spec
requires self.holds(gt), pos < 256 * gt.dn(),
ensures ({
    let f = cnt(gt.dls(), pos + 1) - cnt(gt.dcs(), pos + 1) + cnt(gt.dps(), pos as int / 256 + 1) - 1 - if is_prefix_key && gt.dls()[pos as int] && !gt.dcs()[pos as int] { 1int } else { 0 };
    r == f || (f < 0 && r == f + 0x1_0000_0000)
}),
--- body-start
proof { self.lemma_cnts(gt, pos + 1); self.lemma_pcnt(gt, pos as int / 256 + 1);
    assert(self.label_bitmaps_.at(pos as int) == gt.dls()[pos as int]);
    assert(self.child_indicator_bitmaps_.at(pos as int) == gt.dcs()[pos as int]); }

=== fn LoudsDense::lookupKey
--- ghost
gt: Tr
--- spec
requires self.holds(gt), key.b@.len() <= 0x7fff_ffff, *old(out_node_num) == 0,
ensures
    *final(out_node_num) == 0 && gt.s > 0 ==> r == gt.finds(key.b@),
    *final(out_node_num) != 0 || gt.s == 0 ==> r && exists|j: int| gt.has(j, gt.s) && pre(gt.ks[j], key.b@, gt.s) && gt.gn(j, gt.s) == *final(out_node_num),
--- body-start
let ghost q = key.b@;
let ghost mut ga: int = 0;
let ghost mut gb: int = gt.n() - 1;
proof { gt.lemma_all(); gt.all().lemma_root(); assert(gt.node(0, gb, 0)); gt.lemma_dsizes(); }
--- loop 1
invariant self.holds(gt), q == key.b@, key.b@.len() <= 0x7fff_ffff, level <= gt.s, level <= q.len(), *out_node_num == 0,
    gt.node(ga, gb, level as int), pre(gt.ks[ga], q, level as int), node_num == gt.gn(ga, level as int),
    0 <= gt.dn() <= 0xff_0000, level > 0 ==> node_num > 0,
decreases gt.s - level,
--- loop 1 start
let ghost l = level as int;
proof { gt.lemma_dgn(ga, l); gt.lemma_dsizes(); gt.lemma_dsfx_len(); }
--- before if 1
proof {
    if l == q.len() {
        gt.lemma_dend(ga, gb, l, q);
        assert(self.prefixkey_indicator_bits_.at(node_num as int) == gt.dps()[node_num as int]);
        assert(self.label_bitmaps_.at(pos as int) == gt.dls()[pos as int]);
        assert(pos as int / 256 == node_num);
        if gt.ks[ga].len() == l { gt.lemma_dsfx_term(ga, gb, l, pos as int); lemma_cnt_bounds(gt.dls(), pos + 1);
            let f = cnt(gt.dls(), pos + 1) - cnt(gt.dcs(), pos + 1) + cnt(gt.dps(), gt.gn(ga, l) + 1) - 1 - if gt.dls()[pos as int] && !gt.dcs()[pos as int] { 1int } else { 0 };
            lemma_sfx_holds(&self.suffixes_, gt.c, gt.dsfx(), f); }
    }
}
--- before if 3
proof {
    assert(self.label_bitmaps_.at(pos as int) == gt.dls()[pos as int]);
    assert(self.child_indicator_bitmaps_.at(pos as int) == gt.dcs()[pos as int]);
    assert(pos as int / 256 == node_num);
    if !gt.dls()[pos as int] { gt.lemma_dmiss(ga, gb, l, q); }
}
--- after if 3
let ghost gi;
proof {
    gi = gt.lemma_dstep(ga, gb, l, q);
    if leaf(gt.ks, gi) == l {
        gt.lemma_dsfx(gi);
        let f = cnt(gt.dls(), pos + 1) - cnt(gt.dcs(), pos + 1) + cnt(gt.dps(), gt.gn(gi, l) + 1) - 1;
        lemma_sfx_holds(&self.suffixes_, gt.c, gt.dsfx(), f);
    } else {
        gt.lemma_dchild(gi, l);
    }
}
--- loop 1 end
proof {
    let r = gt.lemma_enter(gi, l + 1, q);
    ga = r.0; gb = r.1;
    gt.lemma_all(); gt.all().lemma_gn(ga, l + 1);
    gt.lemma_ns_split(0, 1, l + 1);
    gt.lemma_dsizes();
    gt.all().lemma_at(ga, l + 1);
}

=== fn LoudsDense::getNextPos
--- ghost
gt: Tr
--- spec
requires self.holds(gt), pos < 256 * gt.dn(),
ensures pos < r <= 256 * gt.dn(), forall|x: int| pos < x < r ==> !#[trigger] gt.dls()[x], r < 256 * gt.dn() ==> gt.dls()[r as int],
--- body-start
proof { gt.lemma_dsizes(); assert forall|x: int| 0 <= x < 256 * gt.dn() implies #[trigger] gt.dls()[x] == self.label_bitmaps_.base.at(x) by { assert(self.label_bitmaps_.at(x) == gt.dls()[x]); } }

=== fn LoudsDense::getPrevPos
--- ghost
gt: Tr
--- spec
requires self.holds(gt), pos <= 256 * gt.dn(),
ensures *final(is_out_of_bound) ==> forall|x: int| 0 <= x < pos ==> !#[trigger] gt.dls()[x],
    !*final(is_out_of_bound) ==> r < pos && gt.dls()[r as int] && forall|x: int| r < x < pos ==> !#[trigger] gt.dls()[x],
--- body-start
proof { gt.lemma_dsizes(); assert forall|x: int| 0 <= x < 256 * gt.dn() implies #[trigger] gt.dls()[x] == self.label_bitmaps_.base.at(x) by { assert(self.label_bitmaps_.at(x) == gt.dls()[x]); } }

=== fn LoudsDense::compareSuffixGreaterThan
--- ghost
gt: Tr
gj: int
gc: bool
gg: int
--- spec
requires self.holds(gt), old(iter).wf(gt), 0 <= gj < gt.n(), leaf(gt.ks, gj) < gt.s, gt.ks[gj].len() > leaf(gt.ks, gj), pos == gt.dpos(gj, leaf(gt.ks, gj)), level == leaf(gt.ks, gj) + 1,
    pre(gt.ks[gj], key.b@, leaf(gt.ks, gj) + 1), key.b@.len() <= 0x7fff_ffff, gt.split(key.b@, gc, gg),
    old(iter).key_len_ == leaf(gt.ks, gj) + 1, old(iter).path(gt, gj, old(iter).key_len_ as int), !old(iter).is_at_prefix_key_,
ensures gg == gj || gg == gj + 1, final(iter).trie_ == old(iter).trie_, final(iter).wf(gt), r ==> final(iter).on(gt, gj) && gt.hits(gj, key.b@),
    !r ==> gt.no_hits(key.b@) && gg == gj + 1 && lexlt(gt.ks[gj], key.b@) && (gg < gt.n() ==> final(iter).on(gt, gg) && (leaf(gt.ks, gg) >= gt.s ==> final(iter).left())) && (gg >= gt.n() ==> !final(iter).is_valid_),
--- body-start
let ghost ga; let ghost gb;
proof {
    let l = leaf(gt.ks, gj);
    let k = gt.ks[gj];
    let q = key.b@;
    lemma_dep(gt.ks, gj);
    gt.lemma_dsizes();
    gt.lemma_dsfx_len();
    gt.lemma_dsfx(gj);
    let f = cnt(gt.dls(), pos + 1) - cnt(gt.dcs(), pos + 1) + cnt(gt.dps(), gt.gn(gj, l) + 1) - 1;
    assert(pos as int / 256 == gt.gn(gj, l));
    lemma_sfx_holds(&self.suffixes_, gt.c, gt.dsfx(), f);
    lemma_mixed_real(k, gt.c.hl, l + 1, gt.c.rl);
    gt.lemma_cmp_sfx(gj, q);
    gt.lemma_seek_leaf(gj, q, gc, gg);
    if gt.cmpv(gj, q) < 0 { gt.lemma_no_hits(gj, l + 1, q); }
    lemma_low_real(k, l + 1, gt.c.rl); lemma_low_real(q, l + 1, gt.c.rl);
    lemma_passes(k, q, gc);
    let r = gt.lemma_tail_leaf(gj);
    ga = r.0; gb = r.1;
    assert(gj <= gb && ga <= gj);
    gt.lemma_dnode(ga, gb, l, ga, gj);
    iter.lemma_path(iter, gt, gj, ga, l);
    assert(iter.pos_in_trie_@[l] == gt.dpos(gj, l));
}

=== fn LoudsDense::moveToKeyGreaterThan
--- attr
#[verifier::rlimit(60)]
--- ghost
gt: Tr
gg: int
--- spec
requires self.holds(gt), old(iter).wf(gt), old(iter).key_len_ == 0, !old(iter).is_at_prefix_key_, !old(iter).is_valid_, key.b@.len() <= 0x7fff_ffff, gt.split(key.b@, inclusive, gg),
ensures final(iter).trie_ == old(iter).trie_, final(iter).wf(gt),
    !final(iter).is_valid_ ==> gg == gt.n() && !r && gt.no_hits(key.b@) && gt.skips(key.b@, gg),
    final(iter).is_valid_ && !final(iter).is_search_complete_ ==> exists|a: int, b: int| #[trigger] gt.node(a, b, gt.s) && pre(gt.ks[a], key.b@, gt.s) && final(iter).on(gt, a),
    final(iter).is_valid_ && final(iter).is_search_complete_ && !r ==> gg < gt.n() && dep(gt.ks, gg) < gt.s && gt.skips(key.b@, gg) && gt.no_hits(key.b@) && final(iter).on(gt, gg) && (leaf(gt.ks, gg) >= gt.s ==> final(iter).left()),
    final(iter).is_valid_ && final(iter).is_search_complete_ && r ==> exists|j: int| gg - 1 <= j <= gg && leaf(gt.ks, j) < gt.s && #[trigger] final(iter).on(gt, j) && gt.hits(j, key.b@),
--- body-start
let ghost gq = key.b@;
let ghost gc = inclusive;
let ghost mut ga: int = 0;
let ghost mut gb: int = gt.n() - 1;
proof { gt.lemma_all(); gt.all().lemma_root(); assert(gt.node(0, gb, 0)); gt.lemma_dsizes(); }
--- loop 1
invariant self.holds(gt), gq == key.b@, gc == inclusive, key.b@.len() <= 0x7fff_ffff, level <= gt.s, level <= gq.len(), gt.split(gq, gc, gg), 
    gt.node(ga, gb, level as int), pre(gt.ks[ga], gq, level as int), node_num == gt.gn(ga, level as int),
    0 <= gt.dn() <= 0xff_0000, level > 0 ==> node_num > 0,
    iter.wf(gt), iter.trie_ == old(iter).trie_, iter.key_len_ == level, iter.path(gt, ga, level as int), !iter.is_at_prefix_key_, !iter.is_valid_,
decreases gt.s - level,
--- loop 1 start
let ghost gl = level as int;
let ghost it = *iter;
let ghost gf;
let ghost gi = ga;
proof { gt.lemma_dgn(ga, gl); gt.lemma_dsizes(); gt.lemma_dsfx_len();
    gf = gt.lemma_tail_first(ga, gb, gl);
    gt.lemma_dnext(ga, gb, gl, -1, gf);
    gt.lemma_dpre(ga, gb, gl);
    assert(self.prefixkey_indicator_bits_.at(gt.gn(ga, gl)) == gt.dps()[gt.gn(ga, gl)]);
    assert(self.prefixkey_indicator_bits_.base.at(gt.gn(ga, gl)) == self.prefixkey_indicator_bits_.at(gt.gn(ga, gl)));
    assert(gt.all().node(ga, gb, gl)) by { gt.lemma_all(); }
    gt.lemma_all();
    if gl == gq.len() { gt.all().lemma_seek_end(ga, gb, gl, gq, gc, gg); gt.all().lemma_skips_end(ga, gb, gl, gq, gc, gg); gt.lemma_no_hits(ga, gl, gq); lemma_dep(gt.ks, ga); }
}
--- if 1 then
proof {
    assert(self.label_bitmaps_.at(pos as int) == gt.dls()[pos as int]);
    assert(self.label_bitmaps_.base.at(pos as int) == self.label_bitmaps_.at(pos as int));
}
--- before if 2
proof { lemma_dep(gt.ks, gf); iter.lemma_path_more(&it, gt, ga, gf, gl); assert(iter.path(gt, gf, gl + 1)); }
--- before if 4
proof {
    assert(pos == gt.d0(ga, gl) + gq[gl]);
    gt.lemma_dbit(ga, gb, gl, gq[gl] as int);
    assert(self.label_bitmaps_.at(pos as int) == gt.dls()[pos as int]);
    assert(self.label_bitmaps_.base.at(pos as int) == self.label_bitmaps_.at(pos as int));
    assert(self.child_indicator_bitmaps_.at(pos as int) == gt.dcs()[pos as int]);
    assert(self.child_indicator_bitmaps_.base.at(pos as int) == self.child_indicator_bitmaps_.at(pos as int));
    if !gt.dls()[pos as int] {
        gt.lemma_tail_seek(ga, gb, gl, gq, gc, gg); gt.lemma_tail_dep(ga, gb, gl, gq[gl] as int, gg);
        gt.lemma_dmiss(ga, gb, gl, gq); gt.lemma_skips_miss(gq, gg);
        iter.lemma_path(&it, gt, ga, ga, gl);
        assert(iter.rest(gt, ga, gb, gg));
    }
}
--- before if 5
let ghost gj;
proof {
    gj = gt.lemma_dstep(ga, gb, gl, gq);
    gt.lemma_dnode(ga, gb, gl, ga, gj);
    iter.lemma_path_more(&it, gt, ga, gj, gl);
    lemma_dep(gt.ks, gj);
    if leaf(gt.ks, gj) > gl { gt.lemma_dchild(gj, gl); }
}
--- loop 1 end
proof {
    let r = gt.lemma_enter(gj, gl + 1, gq);
    lemma_dep(gt.ks, r.0);
    assert(sh(gt.ks, r.0, gj, gl + 1));
    iter.lemma_path(iter, gt, gj, r.0, gl + 1);
    ga = r.0; gb = r.1;
    gt.all().lemma_gn(ga, gl + 1);
    gt.lemma_ns_split(0, 1, gl + 1);
    gt.all().lemma_at(ga, gl + 1);
}
--- after loop 1
proof { lemma_dep(gt.ks, ga); }

=== fn LoudsDense::rankBefore
--- spec
requires bits.wf(), pos <= bits.n(),
ensures r == bits.cnt(pos as int), r <= pos,

=== fn LoudsDense::countLeavesBefore
--- ghost
gt: Tr
gj: int
--- spec
requires self.holds(gt), iter.on(gt, gj),
ensures r == gt.lsum(gj, 0, gt.s), r <= gt.s * 0xff_0000,
    gt.s == 0 ==> *final(out_node_num) == 0,
    leaf(gt.ks, gj) < gt.s ==> *final(out_node_num) == gt.nnext(gj, gt.s),
--- body-start
proof { gt.lemma_dsizes(); lemma_dep(gt.ks, gj); }
--- loop 1
invariant self.holds(gt), iter.on(gt, gj), level <= gt.s, gt.s <= 0xffff_ffff, self.height_ == gt.s,
    count == gt.lsum(gj, 0, level as int), count <= level * 0xff_0000,
    level > 0 && dep(gt.ks, gj) < level ==> node_num == gt.nnext(gj, level as int),
    dep(gt.ks, gj) <= leaf(gt.ks, gj), leaf(gt.ks, gj) >= 0,
    level == 0 ==> node_num == 0,
    level > 0 ==> node_num <= 0xff_0000,
decreases gt.s - level,
--- loop 1 start
proof { iter.lemma_counts(gt, gj, level as int, self); }

=== fn LoudsDense::approxCount
--- ghost
gt: Tr
gi: int
gj: int
--- spec
requires self.holds(gt), iter_left.on(gt, gi), iter_right.on(gt, gj),
ensures r == kcnt(gt.ks, gi + 1, gj, 0, gt.s),
    gt.s == 0 ==> *final(out_node_num_left) == 0 && *final(out_node_num_right) == 0,
    leaf(gt.ks, gi) < gt.s ==> *final(out_node_num_left) == gt.nnext(gi, gt.s),
    leaf(gt.ks, gj) < gt.s ==> *final(out_node_num_right) == gt.nnext(gj, gt.s),
--- body-start
proof { gt.lemma_part_count(gi, gj, 0, gt.s); lemma_dep(gt.ks, gi); assert(gt.s * 0xff_0000 <= 0xffff_ffff_ffff) by (nonlinear_arith) requires gt.s <= 0xff_fff2; }
--- before call countLeavesBefore 1
let ghost oj = gj;
let ghost gj = gi;
--- before call countLeavesBefore 2
let ghost gj = oj;

=== fn LoudsDense::new_0
--- spec

=== fn LoudsDense::serializedSize
--- ghost
gt: Tr
--- spec
requires self.holds(gt),
ensures r == self.isz(),
--- body-start
hide(LoudsDense::holds); hide(BitvectorRank::wf); hide(BitvectorSuffix::wf);
proof { reveal(LoudsDense::isz); }
proof { self.lemma_small(gt); }

=== fn LoudsDense::serialize
--- ghost
gt: Tr
--- spec
requires self.holds(gt), al8(*old(dst) as int), *old(dst) + self.isz() <= 0xffff_ffff_0000, blank(old(dst_mem)@, *old(dst) as int, *old(dst) + self.isz()),
ensures *final(dst) == *old(dst) + self.isz(), self.img(final(dst_mem)@, *old(dst) as int), same_outside(final(dst_mem)@, old(dst_mem)@, *old(dst) as int, self.isz()),
--- body-start
hide(LoudsDense::holds); hide(BitvectorRank::wf); hide(BitvectorSuffix::wf);
proof { broadcast use lemma_up8; lemma_up8_add(*dst as int, 4 + 4 * self.level_cuts_@.len() as int); lemma_up8_add(*dst as int, self.off(0)); lemma_up8_add(*dst as int, self.off(1)); lemma_up8_add(*dst as int, self.off(2)); lemma_up8_add(*dst as int, self.off(3)); lemma_up8_add(*dst as int, self.off(4)); }
proof { reveal(LoudsDense::isz); reveal(LoudsDense::img); }
broadcast use {elsewhere, img_else, sizes};
proof { self.lemma_small(gt); }
proof { let m = dst_mem@; let p = *dst as int; let e = p + self.isz(); lemma_blank_sub(m, p, e, p + 4 + 4 * self.level_cuts_@.len(), p + self.head()); lemma_blank_sub(m, p, e, p + self.off(0), p + self.off(1)); lemma_blank_sub(m, p, e, p + self.off(1), p + self.off(2)); lemma_blank_sub(m, p, e, p + self.off(2), p + self.off(3)); lemma_blank_sub(m, p, e, p + self.off(3), p + self.off(4)); }
--- body-end
proof { assert(same_outside(dst_mem@, old(dst_mem)@, *old(dst) as int, self.isz())) by { reveal(same_outside); } }

=== fn LoudsDense::deSerialize
--- ghost
gt: Tr
gd: LoudsDense
--- spec
requires gd.holds(gt), al8(*old(src) as int), *old(src) + gd.isz() <= 0xffff_ffff_0000, gd.img(src_mem@, *old(src) as int),
ensures *final(src) == *old(src) + gd.isz(), r.same(&gd), r.holds(gt),
--- body-start
hide(LoudsDense::holds); hide(BitvectorRank::wf); hide(BitvectorSuffix::wf);
proof { broadcast use lemma_up8; lemma_up8_add(*src as int, 4 + 4 * gd.level_cuts_@.len() as int); lemma_up8_add(*src as int, gd.off(0)); lemma_up8_add(*src as int, gd.off(1)); lemma_up8_add(*src as int, gd.off(2)); lemma_up8_add(*src as int, gd.off(3)); lemma_up8_add(*src as int, gd.off(4)); }
broadcast use stored_in;
proof { reveal(LoudsDense::isz); reveal(LoudsDense::img); reveal(LoudsDense::same); }
proof { gd.lemma_small(gt); }
--- before call deSerialize 1
let ghost gr = gd.label_bitmaps_;
--- before call deSerialize 2
let ghost gr = gd.child_indicator_bitmaps_;
--- before call deSerialize 3
let ghost gr = gd.prefixkey_indicator_bits_;
--- before call deSerialize 4
let ghost gx = gd.suffixes_;
--- before return *
proof { louds_dense.lemma_same(&gd, gt); }

=== fn LoudsDense::getMemoryUsage
--- ghost
gt: Tr
--- spec
requires self.holds(gt),
