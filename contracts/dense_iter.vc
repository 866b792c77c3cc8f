=== fn LoudsDense_Iter::new_0
--- spec
ensures !r.is_valid_,

=== fn LoudsDense_Iter::new_1
--- spec
requires trie.height_ <= 0xffff_ffff,
ensures r.trie_ == trie, !r.is_valid_, !r.is_search_complete_, !r.is_move_left_complete_, !r.is_move_right_complete_, r.send_out_node_num_ == 0, r.key_len_ == 0, !r.is_at_prefix_key_,
    r.key_@.len() == trie.height_, r.pos_in_trie_@.len() == r.key_@.len(),
--- loop 1
invariant this.trie_ == trie, !this.is_valid_, !this.is_search_complete_, !this.is_move_left_complete_, !this.is_move_right_complete_, this.send_out_node_num_ == 0, this.key_len_ == 0, !this.is_at_prefix_key_,
    level <= trie.height_ <= 0xffff_ffff, 
    this.key_@.len() == level, this.pos_in_trie_@.len() == this.key_@.len(),
decreases trie.height_ - level,

=== mod LoudsDense_Iter
impl LoudsDense_Iter {
    pub open spec fn wf(&self, t: Tr) -> bool {
        &&& self.trie_.holds(t)
        &&& self.key_@.len() == t.s && self.pos_in_trie_@.len() == t.s && self.key_len_ <= t.s
    }
    /// the first m items are those of key j
    pub open spec fn path(&self, t: Tr, j: int, m: int) -> bool {
        &&& 0 <= j < t.n() && 0 <= m <= t.s && m <= leaf(t.ks, j) + 1 && m <= t.ks[j].len()
        &&& forall|i: int| 0 <= i < m ==> #[trigger] self.pos_in_trie_@[i] == t.dpos(j, i)
        &&& forall|i: int| 0 <= i < m ==> #[trigger] self.key_@[i] == t.ks[j][i]
    }
    pub open spec fn done(&self) -> bool { self.is_search_complete_ && self.is_move_left_complete_ && self.is_move_right_complete_ }
    pub open spec fn left(&self) -> bool { self.is_search_complete_ && !self.is_move_left_complete_ && self.is_move_right_complete_ }
    pub open spec fn right(&self) -> bool { self.is_search_complete_ && self.is_move_left_complete_ && !self.is_move_right_complete_ }
    /// it stands on key j, or on its part in the dense levels
    pub open spec fn on(&self, t: Tr, j: int) -> bool {
        &&& self.wf(t) && self.is_valid_ && 0 <= j < t.n()
        &&& if leaf(t.ks, j) < t.s {
                &&& self.done() && self.key_len_ == leaf(t.ks, j) + 1
                &&& self.is_at_prefix_key_ == (t.ks[j].len() == leaf(t.ks, j))
                &&& self.path(t, if t.ks[j].len() == leaf(t.ks, j) { j + 1 } else { j }, self.key_len_ as int)
            } else {
                &&& !self.done() && !self.is_at_prefix_key_ && self.key_len_ == t.s
                &&& self.path(t, j, t.s)
                &&& self.send_out_node_num_ == t.gn(j, t.s)
            }
    }
    /// the key after those it is through with is g
    pub open spec fn rest(&self, t: Tr, a: int, b: int, g: int) -> bool {
        &&& self.wf(t) && 0 <= g <= t.n()
        &&& if self.key_len_ == 0 { g == t.n() && t.s == 0 }
            else if self.is_at_prefix_key_ { g < t.n() && self.path(t, g, self.key_len_ as int) && dep(t.ks, g) <= self.key_len_ - 1 }
            else { self.path(t, a, self.key_len_ - 1) && self.pos_in_trie_@[self.key_len_ - 1] >= t.d0(a, self.key_len_ - 1) && t.tail(a, b, self.key_len_ - 1, self.pos_in_trie_@[self.key_len_ - 1] - t.d0(a, self.key_len_ - 1), g) }
    }
    pub open spec fn kept_flags(&self, o: &LoudsDense_Iter) -> bool {
        self.is_valid_ == o.is_valid_ && self.is_search_complete_ == o.is_search_complete_ && self.is_move_left_complete_ == o.is_move_left_complete_
            && self.is_move_right_complete_ == o.is_move_right_complete_ && self.send_out_node_num_ == o.send_out_node_num_ && self.is_at_prefix_key_ == o.is_at_prefix_key_
    }
    pub proof fn lemma_path(&self, o: &LoudsDense_Iter, t: Tr, i: int, j: int, m: int)
        requires t.ok(), o.path(t, i, m), 0 <= j < t.n(), i <= j ==> sh(t.ks, i, j, m), j <= i ==> sh(t.ks, j, i, m), m <= t.ks[j].len(), m <= leaf(t.ks, j) + 1,
            forall|x: int| 0 <= x < m ==> #[trigger] self.pos_in_trie_@[x] == o.pos_in_trie_@[x],
            forall|x: int| 0 <= x < m ==> #[trigger] self.key_@[x] == o.key_@[x],
        ensures self.path(t, j, m),
    {
        assert forall|x: int| 0 <= x < m implies #[trigger] self.pos_in_trie_@[x] == t.dpos(j, x) && self.key_@[x] == t.ks[j][x] by {
            if i <= j { t.lemma_same_path(i, j, m - 1, x); } else { t.lemma_same_path(j, i, m - 1, x); }
            assert(o.pos_in_trie_@[x] == t.dpos(i, x));
            assert(o.key_@[x] == t.ks[i][x]);
        }
        assert forall|x: int| 0 <= x < m implies #[trigger] self.key_@[x] == t.ks[j][x] by { assert(self.pos_in_trie_@[x] == t.dpos(j, x)); }
    }
    /// one more item
    pub proof fn lemma_path_more(&self, o: &LoudsDense_Iter, t: Tr, i: int, j: int, m: int)
        requires t.ok(), o.path(t, i, m), 0 <= m < t.s, t.has(j, m), t.ks[j].len() > m, i <= j ==> sh(t.ks, i, j, m), j <= i ==> sh(t.ks, j, i, m),
            self.key_@.len() > m, self.key_@.len() == self.pos_in_trie_@.len(), o.key_@.len() == self.key_@.len(), o.pos_in_trie_@.len() == o.key_@.len(),
            self.key_@ == o.key_@.update(m, self.key_@[m]), self.pos_in_trie_@ == o.pos_in_trie_@.update(m, self.pos_in_trie_@[m]),
            self.key_@[m] == self.pos_in_trie_@[m] % 256, self.pos_in_trie_@[m] == t.dpos(j, m),
        ensures self.path(t, j, m + 1), self.key_@[m] == t.ks[j][m],
    {
        self.lemma_path(o, t, i, j, m);
        assert forall|x: int| 0 <= x < m + 1 implies #[trigger] self.pos_in_trie_@[x] == t.dpos(j, x) by { }
        assert forall|x: int| 0 <= x < m + 1 implies #[trigger] self.key_@[x] == t.ks[j][x] by { }
    }
    /// where counting the leaves before key j looks on level l
    pub open spec fn ends(&self, l: int) -> bool { self.is_at_prefix_key_ && l == self.key_len_ - 1 }
    pub open spec fn bits(&self, t: Tr, j: int, l: int) -> int {
        if l >= self.key_len_ { 256 * t.nnext(j, l) } else if self.ends(l) { self.pos_in_trie_@[l] / 256u32 * 256 } else { self.pos_in_trie_@[l] as int }
    }
    pub open spec fn nodes(&self, t: Tr, j: int, l: int) -> int {
        if l >= self.key_len_ { t.nnext(j, l) } else if self.ends(l) { self.pos_in_trie_@[l] / 256u32 + 0 } else { self.pos_in_trie_@[l] / 256u32 + 1 }
    }
    pub proof fn lemma_counts(&self, t: Tr, j: int, l: int, w: &LoudsDense)
        requires self.on(t, j), w.holds(t), 0 <= l < t.s,
        ensures ({
            let x = self.bits(t, j, l);
            let y = self.nodes(t, j, l);
            &&& 0 <= x <= 256 * t.dn() == w.label_bitmaps_.n() && w.child_indicator_bitmaps_.n() == 256 * t.dn() && 0 <= y <= t.dn() == w.prefixkey_indicator_bits_.n() && t.dn() <= 0xff_0000
            &&& w.child_indicator_bitmaps_.cnt(x) <= w.label_bitmaps_.cnt(x) && w.child_indicator_bitmaps_.cnt(x) < 0xff_0000
            &&& w.label_bitmaps_.cnt(x) - w.child_indicator_bitmaps_.cnt(x) + w.prefixkey_indicator_bits_.cnt(y) == flen(t.rsfx(), 0, l) + before(t.ks, t.c, j, l)
            &&& 0 <= flen(t.rsfx(), 0, l) + before(t.ks, t.c, j, l) <= 0xff_0000
            &&& dep(t.ks, j) <= l ==> w.child_indicator_bitmaps_.cnt(x) + 1 == t.nnext(j, l + 1)
            &&& l > leaf(t.ks, j) <==> l >= self.key_len_
        }),
    {
        let x = self.bits(t, j, l);
        let y = self.nodes(t, j, l);
        lemma_dep(t.ks, j);
        t.lemma_dsizes();
        t.lemma_dsfx_len();
        if l > leaf(t.ks, j) {
            t.lemma_dgone(j, l);
        } else {
            if self.is_at_prefix_key_ {
                lemma_dep(t.ks, j + 1);
                if l == leaf(t.ks, j) { lemma_ends(t.ks, j, l); lemma_same_node(t.ks, t.c, j, j + 1, l); t.lemma_dends(j, l); assert(self.pos_in_trie_@[l] == t.dpos(j + 1, l)); }
                else { self.lemma_path(self, t, j + 1, j, leaf(t.ks, j)); t.lemma_dgoes(j, l); assert(self.pos_in_trie_@[l] == t.dpos(j, l)); }
            } else { t.lemma_dgoes(j, l); assert(self.pos_in_trie_@[l] == t.dpos(j, l)); }
        }
        t.lemma_dcounts(j, l, x - 256 * t.ns(0, l), y - t.ns(0, l));
        w.lemma_cnts(t, x);
        w.lemma_pcnt(t, y);
        t.lemma_dlen(t.s);
        lemma_cnt_mono(t.dcs(), x, 256 * t.dn());
        lemma_fcnt(t.rdc(), 0, t.s);
        t.lemma_dfcnt(t.s);
        t.lemma_ns_split(0, 1, t.s + 1);
        t.lemma_ns_split(0, t.s + 1, t.h);
        t.lemma_sizes();
        lemma_flen_mono(t.rsfx(), 0, l, t.s);
        lemma_flen_mono(t.rsfx(), 0, l + 1, t.s);
        lemma_begins(t.ks, t.c, j, t.n(), l);
    }
    /// where the suffix of the key it stands on is
    pub proof fn lemma_on_sfx(&self, t: Tr, j: int)
        requires self.on(t, j), leaf(t.ks, j) < t.s,
        ensures ({
            let p = self.pos_in_trie_@[self.key_len_ - 1] as int;
            let x = self.is_at_prefix_key_;
            let f = cnt(t.dls(), p + 1) - cnt(t.dcs(), p + 1) + cnt(t.dps(), p / 256 + 1) - 1 - if x && t.dls()[p] && !t.dcs()[p] { 1int } else { 0 };
            &&& 0 <= p < 256 * t.dn()
            &&& 0 <= f < 0xff_0000
            &&& t.c.ty != 0 && t.c.hl + t.c.rl > 0 ==> self.trie_.suffixes_.has(f) && self.trie_.suffixes_.stored(f) == ksfx(t.ks, t.c, j)
        }),
    {
        let l = leaf(t.ks, j);
        let p = self.pos_in_trie_@[self.key_len_ - 1] as int;
        let f = cnt(t.dls(), p + 1) - cnt(t.dcs(), p + 1) + cnt(t.dps(), p / 256 + 1) - 1 - if self.is_at_prefix_key_ && t.dls()[p] && !t.dcs()[p] { 1int } else { 0 };
        lemma_dep(t.ks, j);
        t.lemma_dsfx_len();
        t.lemma_dsizes();
        if t.ks[j].len() == l {
            assert(self.path(t, j + 1, l + 1));
            assert(p == t.dpos(j + 1, l));
            lemma_dep(t.ks, j + 1);
            let r = t.lemma_node_of(j, l);
            lemma_ends(t.ks, j, l);
            t.lemma_dprev(r.0, r.1, l, j + 1);
            t.lemma_dsfx_term(r.0, r.1, l, p);
            assert(p / 256 == t.gn(j, l));
        } else {
            assert(p == t.dpos(j, l));
            t.lemma_dsfx(j);
            assert(p / 256 == t.gn(j, l));
        }
        lemma_sfx_holds(&self.trie_.suffixes_, t.c, t.dsfx(), f);
    }
    /// what the kept bytes of the key it stands on are
    pub open spec fn part(&self, t: Tr, j: int) -> int { if leaf(t.ks, j) < t.s { t.kend(j) } else { t.s } }
}

=== fn LoudsDense_Iter::clear
--- spec
ensures !final(self).is_valid_, final(self).key_len_ == 0, !final(self).is_at_prefix_key_, final(self).trie_ == old(self).trie_,
    final(self).key_ == old(self).key_, final(self).pos_in_trie_ == old(self).pos_in_trie_,

=== fn LoudsDense_Iter::isValid
--- spec
ensures r == self.is_valid_,

=== fn LoudsDense_Iter::isSearchComplete
--- spec
ensures r == self.is_search_complete_,

=== fn LoudsDense_Iter::isMoveLeftComplete
--- spec
ensures r == self.is_move_left_complete_,

=== fn LoudsDense_Iter::isMoveRightComplete
--- spec
ensures r == self.is_move_right_complete_,

=== fn LoudsDense_Iter::isComplete
--- spec
ensures r == self.done(),

=== fn LoudsDense_Iter::getSendOutNodeNum
--- spec
ensures r == self.send_out_node_num_,

=== fn LoudsDense_Iter::setSendOutNodeNum
--- spec
ensures final(self).send_out_node_num_ == node_num, final(self).trie_ == old(self).trie_, final(self).key_ == old(self).key_, final(self).pos_in_trie_ == old(self).pos_in_trie_,
    final(self).key_len_ == old(self).key_len_, final(self).is_valid_ == old(self).is_valid_, final(self).is_at_prefix_key_ == old(self).is_at_prefix_key_,
    final(self).is_search_complete_ == old(self).is_search_complete_, final(self).is_move_left_complete_ == old(self).is_move_left_complete_, final(self).is_move_right_complete_ == old(self).is_move_right_complete_,

=== fn LoudsDense_Iter::setFlags
--- spec
ensures final(self).is_valid_ == is_valid, final(self).is_search_complete_ == is_search_complete, final(self).is_move_left_complete_ == is_move_left_complete, final(self).is_move_right_complete_ == is_move_right_complete,
    final(self).trie_ == old(self).trie_, final(self).key_ == old(self).key_, final(self).pos_in_trie_ == old(self).pos_in_trie_,
    final(self).key_len_ == old(self).key_len_, final(self).is_at_prefix_key_ == old(self).is_at_prefix_key_, final(self).send_out_node_num_ == old(self).send_out_node_num_,

=== fn LoudsDense_Iter::setToEmptyPrefix
--- spec
ensures final(self).is_valid_, !final(self).done(), 
    final(self).trie_ == old(self).trie_, final(self).key_ == old(self).key_, final(self).pos_in_trie_ == old(self).pos_in_trie_,
    final(self).key_len_ == old(self).key_len_, final(self).is_at_prefix_key_ == old(self).is_at_prefix_key_, final(self).send_out_node_num_ == old(self).send_out_node_num_,

=== fn LoudsDense_Iter::append
--- spec
requires old(self).key_len_ < old(self).key_@.len(), old(self).pos_in_trie_@.len() == old(self).key_@.len(), old(self).key_len_ < 0x7fff_ffff,
ensures final(self).kept_flags(old(self)), final(self).trie_ == old(self).trie_,
    final(self).key_len_ == old(self).key_len_ + 1,
    final(self).key_@ == old(self).key_@.update(old(self).key_len_ as int, (pos % 256) as u8),
    final(self).pos_in_trie_@ == old(self).pos_in_trie_@.update(old(self).key_len_ as int, pos),

=== fn LoudsDense_Iter::set
--- spec
requires level < old(self).key_@.len(), old(self).pos_in_trie_@.len() == old(self).key_@.len(),
ensures final(self).kept_flags(old(self)), final(self).trie_ == old(self).trie_,
    final(self).key_len_ == old(self).key_len_,
    final(self).key_@ == old(self).key_@.update(level as int, (pos % 256) as u8),
    final(self).pos_in_trie_@ == old(self).pos_in_trie_@.update(level as int, pos),

=== fn LoudsDense_Iter::setToFirstLabelInRoot
--- ghost
gt: Tr
--- spec
requires old(self).wf(gt), gt.s > 0, old(self).key_len_ == 0, !old(self).is_at_prefix_key_,
ensures final(self).wf(gt), final(self).key_len_ == 1, final(self).path(gt, 0, 1), final(self).kept_flags(old(self)), final(self).trie_ == old(self).trie_,
--- body-start
let ghost it = *self;
let ghost tr = self.trie_;
proof {
    gt.lemma_all(); gt.all().lemma_root();
    gt.lemma_dsizes();
    let g = gt.lemma_tail_first(0, gt.n() - 1, 0);
    lemma_dep(gt.ks, 0);
    gt.lemma_dnext(0, gt.n() - 1, 0, -1, g);
    assert(gt.dls()[0] == tr.label_bitmaps_.at(0));
    assert(tr.label_bitmaps_.base.at(0) == tr.label_bitmaps_.at(0));
}
--- after if 1
proof {
    assert(self.pos_in_trie_@[0] == gt.dpos(0, 0));
    assert(it.path(gt, 0, 0));
    self.lemma_path_more(&it, gt, 0, 0, 0);
}

=== fn LoudsDense_Iter::setToLastLabelInRoot
--- ghost
gt: Tr
--- spec
requires old(self).wf(gt), gt.s > 0, old(self).key_len_ == 0, !old(self).is_at_prefix_key_,
ensures final(self).wf(gt), final(self).key_len_ == 1, final(self).path(gt, gt.n() - 1, 1), final(self).kept_flags(old(self)), final(self).trie_ == old(self).trie_,
--- body-start
let ghost it = *self;
proof {
    gt.lemma_all(); gt.all().lemma_root();
    gt.lemma_dsizes();
    gt.lemma_dlast(0, gt.n() - 1, 0);
}
--- body-end
proof {
    assert(self.pos_in_trie_@[0] == gt.dpos(gt.n() - 1, 0));
    assert(it.path(gt, gt.n() - 1, 0));
    self.lemma_path_more(&it, gt, gt.n() - 1, gt.n() - 1, 0);
}

=== fn LoudsDense_Iter::moveToLeftMostKey
--- ghost
gt: Tr
gi: int
--- spec
requires old(self).wf(gt), !old(self).is_at_prefix_key_, old(self).key_len_ > 0, old(self).path(gt, gi, old(self).key_len_ as int), dep(gt.ks, gi) <= old(self).key_len_ - 1,
ensures final(self).on(gt, gi), final(self).trie_ == old(self).trie_, leaf(gt.ks, gi) >= gt.s ==> final(self).left(),
--- body-start
let ghost tr = self.trie_;
proof {
    gt.lemma_dsizes();
    lemma_dep(gt.ks, gi);
    let l = self.key_len_ - 1;
    let x = gt.lemma_node_of(gi, l);
    let i = gt.lemma_dset(x.0, x.1, l, gi);
    assert(self.pos_in_trie_@[l] == gt.dpos(gi, l));
    assert(tr.child_indicator_bitmaps_.at(gt.dpos(gi, l)) == gt.dcs()[gt.dpos(gi, l)]);
    assert(tr.child_indicator_bitmaps_.base.at(gt.dpos(gi, l)) == tr.child_indicator_bitmaps_.at(gt.dpos(gi, l)));
}
--- loop 1
invariant self.wf(gt), self.trie_ == tr, self.trie_ == old(self).trie_, !self.is_at_prefix_key_, self.key_len_ > 0, self.path(gt, gi, self.key_len_ as int), dep(gt.ks, gi) <= level,
    level == self.key_len_ - 1, level < gt.s, pos == gt.dpos(gi, level as int), level < leaf(gt.ks, gi), gt.dn() <= 0xff_0000, gt.s <= 0x7fff_ffff,
decreases gt.s - level,
--- loop 1 start
let ghost it = *self;
let ghost l = level as int;
let ghost gx; let ghost gg;
proof {
    let r = gt.lemma_ddown(gi, l);
    gx = r.1;
    gt.lemma_dpre(gi, r.1, l + 1);
    gg = gt.lemma_tail_first(gi, r.1, l + 1);
    gt.lemma_dnext(gi, r.1, l + 1, -1, gg);
    let i = gt.lemma_dset(gi, r.1, l + 1, gg);
    lemma_dep(gt.ks, gi);
    gt.lemma_dgn(gi, l + 1);
    assert(gt.d0(gg, l + 1) == gt.d0(gi, l + 1));
    assert(tr.prefixkey_indicator_bits_.at(gt.gn(gi, l + 1)) == gt.dps()[gt.gn(gi, l + 1)]);
    assert(tr.prefixkey_indicator_bits_.base.at(gt.gn(gi, l + 1)) == tr.prefixkey_indicator_bits_.at(gt.gn(gi, l + 1)));
    assert(tr.child_indicator_bitmaps_.at(gt.dpos(gg, l + 1)) == gt.dcs()[gt.dpos(gg, l + 1)]);
    assert(tr.child_indicator_bitmaps_.base.at(gt.dpos(gg, l + 1)) == tr.child_indicator_bitmaps_.at(gt.dpos(gg, l + 1)));
}
--- before call setFlags 2
proof { self.lemma_path_more(&it, gt, gi, gg, l + 1); }
--- before if 3
proof { self.lemma_path_more(&it, gt, gi, gi, l + 1); }
--- after loop 1
proof { let r = gt.lemma_ddown(gi, level as int); lemma_dep(gt.ks, gi); }

=== fn LoudsDense_Iter::moveToRightMostKey
--- ghost
gt: Tr
gi: int
--- spec
requires old(self).wf(gt), !old(self).is_at_prefix_key_, old(self).key_len_ > 0, old(self).path(gt, gi, old(self).key_len_ as int), gi + 1 < gt.n() ==> dep(gt.ks, gi + 1) <= old(self).key_len_ - 1,
ensures final(self).on(gt, gi), final(self).trie_ == old(self).trie_, leaf(gt.ks, gi) >= gt.s ==> final(self).right(),
--- body-start
let ghost tr = self.trie_;
proof {
    gt.lemma_dsizes();
    lemma_dep(gt.ks, gi);
    let l = self.key_len_ - 1;
    let x = gt.lemma_node_of(gi, l);
    let i = gt.lemma_dset(x.0, x.1, l, gi);
    assert(self.pos_in_trie_@[l] == gt.dpos(gi, l));
    assert(tr.child_indicator_bitmaps_.at(gt.dpos(gi, l)) == gt.dcs()[gt.dpos(gi, l)]);
    assert(tr.child_indicator_bitmaps_.base.at(gt.dpos(gi, l)) == tr.child_indicator_bitmaps_.at(gt.dpos(gi, l)));
}
--- loop 1
invariant self.wf(gt), self.trie_ == tr, self.trie_ == old(self).trie_, !self.is_at_prefix_key_, self.key_len_ > 0, self.path(gt, gi, self.key_len_ as int), gi + 1 < gt.n() ==> dep(gt.ks, gi + 1) <= level,
    level == self.key_len_ - 1, level < gt.s, pos == gt.dpos(gi, level as int), level < leaf(gt.ks, gi), gt.dn() <= 0xff_0000, gt.s <= 0x7fff_ffff,
decreases gt.s - level,
--- loop 1 start
let ghost it = *self;
let ghost l = level as int;
proof {
    let r = gt.lemma_ddown(gi, l);
    gt.lemma_dlast(r.0, gi, l + 1);
    let i = gt.lemma_dset(r.0, gi, l + 1, gi);
    lemma_dep(gt.ks, gi);
    gt.lemma_dgn(gi, l + 1);
    assert(tr.child_indicator_bitmaps_.at(gt.dpos(gi, l + 1)) == gt.dcs()[gt.dpos(gi, l + 1)]);
    assert(tr.child_indicator_bitmaps_.base.at(gt.dpos(gi, l + 1)) == tr.child_indicator_bitmaps_.at(gt.dpos(gi, l + 1)));
}
--- before if 3
proof { self.lemma_path_more(&it, gt, gi, gi, l + 1); }
--- after loop 1
proof { let r = gt.lemma_ddown(gi, level as int); lemma_dep(gt.ks, gi); }

=== fn LoudsDense_Iter::op_inc
--- ghost
gt: Tr
ga: int
gb: int
gg: int
--- spec
requires old(self).rest(gt, ga, gb, gg),
ensures final(self).trie_ == old(self).trie_, final(self).wf(gt), gg >= gt.n() ==> !final(self).is_valid_, gg < gt.n() ==> final(self).on(gt, gg),
    gg < gt.n() && leaf(gt.ks, gg) >= gt.s ==> final(self).left(),
--- body-start
let ghost tr = self.trie_;
let ghost gi = gg;
let ghost mut xa = ga;
let ghost mut xb = gb;
proof { gt.lemma_dsizes();
    if self.key_len_ > 0 && !self.is_at_prefix_key_ {
        let l = self.key_len_ - 1;
        gt.lemma_dgn(ga, l);
        gt.lemma_dnext(ga, gb, l, self.pos_in_trie_@[l] - gt.d0(ga, l), gg);
        gt.lemma_dlast(ga, gb, l);
    }
}
--- loop 1
invariant self.wf(gt), self.trie_ == tr, self.trie_ == old(self).trie_, self.key_len_ > 0, !self.is_at_prefix_key_, self.path(gt, xa, self.key_len_ - 1),
    self.pos_in_trie_@[self.key_len_ - 1] == pos, gt.tail(xa, xb, self.key_len_ - 1, pos - gt.d0(xa, self.key_len_ - 1), gg), 0 <= gg <= gt.n(),
    gg > xb ==> next_pos >= gt.d0(xa, self.key_len_ - 1) + 256, gg <= xb ==> next_pos == gt.dpos(gg, self.key_len_ - 1) && gt.d0(gg, self.key_len_ - 1) == gt.d0(xa, self.key_len_ - 1),
    next_pos <= 256 * gt.dn(), gt.dn() <= 0xff_0000, gt.d0(xa, self.key_len_ - 1) <= pos < gt.d0(xa, self.key_len_ - 1) + 256,
ensures self.wf(gt), self.trie_ == tr, self.trie_ == old(self).trie_, self.key_len_ > 0, !self.is_at_prefix_key_, self.path(gt, xa, self.key_len_ - 1),
    gt.tail(xa, xb, self.key_len_ - 1, pos - gt.d0(xa, self.key_len_ - 1), gg), gg <= xb, next_pos == gt.dpos(gg, self.key_len_ - 1),
decreases self.key_len_,
--- loop 1 start
let ghost it = *self;
proof {
    let l = self.key_len_ - 1;
    assert(gg == xb + 1);
    if l > 0 {
        let r = gt.lemma_tail_up(xa, xb, l, xa);
        gt.lemma_dnode(r.0, r.1, l - 1, r.0, xa);
        gt.lemma_dnext(r.0, r.1, l - 1, gt.ks[xa][l - 1] as int, gg);
        gt.lemma_dlast(r.0, r.1, l - 1);
        assert(self.pos_in_trie_@[l - 1] == gt.dpos(xa, l - 1));
        lemma_dep(gt.ks, r.0);
        it.lemma_path(&it, gt, xa, r.0, l - 1);
        xa = r.0;
        xb = r.1;
    } else if gg < gt.n() { lemma_dep(gt.ks, gg); }
}
--- after loop 1
let ghost it = *self;
proof { gt.lemma_dnext(xa, xb, self.key_len_ - 1, pos - gt.d0(xa, self.key_len_ - 1), gg); }
--- before call moveToLeftMostKey 2
proof { self.lemma_path_more(&it, gt, xa, gg, self.key_len_ - 1); }

=== fn LoudsDense_Iter::op_dec
--- ghost
gt: Tr
gj: int
--- spec
requires old(self).wf(gt), 0 <= gj < gt.n(), old(self).key_len_ == 0 ==> gj == 0,
    old(self).key_len_ > 0 && !old(self).is_at_prefix_key_ ==> old(self).path(gt, gj, old(self).key_len_ as int) && dep(gt.ks, gj) <= old(self).key_len_ - 1,
    old(self).key_len_ > 0 && old(self).is_at_prefix_key_ ==> old(self).on(gt, gj),
ensures final(self).trie_ == old(self).trie_, final(self).wf(gt), gj == 0 ==> !final(self).is_valid_, gj > 0 ==> final(self).on(gt, gj - 1),
    gj > 0 && leaf(gt.ks, gj - 1) >= gt.s ==> final(self).right(),
--- body-start
let ghost tr = self.trie_;
let ghost gi = gj - 1;
let ghost it0 = *self;
proof { gt.lemma_dsizes(); lemma_dep(gt.ks, gj);
    if self.key_len_ > 0 && self.is_at_prefix_key_ { lemma_ends(gt.ks, gj, leaf(gt.ks, gj)); it0.lemma_path(&it0, gt, gj + 1, gj, self.key_len_ - 1); }
}
--- after if 2
proof {
    let l = self.key_len_ - 1;
    assert(self.path(gt, gj, self.key_len_ as int));
    assert(self.pos_in_trie_@[l] == gt.dpos(gj, l));
    gt.lemma_dback(gj, l);
}
--- loop 1
invariant self.wf(gt), self.trie_ == tr, self.trie_ == old(self).trie_, self.key_len_ > 0, !self.is_at_prefix_key_, self.path(gt, gj, self.key_len_ as int), dep(gt.ks, gj) <= self.key_len_ - 1,
    pos == gt.dpos(gj, self.key_len_ - 1), gt.dn() <= 0xff_0000, 0 <= gj < gt.n(),
    gt.beside(gj, self.key_len_ - 1) ==> prev_pos == gt.dpos(gj - 1, self.key_len_ - 1), !gt.beside(gj, self.key_len_ - 1) ==> prev_pos < gt.d0(gj, self.key_len_ - 1),
ensures self.wf(gt), self.trie_ == tr, self.trie_ == old(self).trie_, self.key_len_ > 0, !self.is_at_prefix_key_, self.path(gt, gj, self.key_len_ as int),
    gt.beside(gj, self.key_len_ - 1), prev_pos == gt.dpos(gj - 1, self.key_len_ - 1),
decreases self.key_len_,
--- loop 1 start
let ghost it = *self;
proof {
    let l = self.key_len_ - 1;
    gt.lemma_dback(gj, l);
    assert(tr.prefixkey_indicator_bits_.at(gt.gn(gj, l)) == gt.dps()[gt.gn(gj, l)]);
    assert(tr.prefixkey_indicator_bits_.base.at(gt.gn(gj, l)) == tr.prefixkey_indicator_bits_.at(gt.gn(gj, l)));
    if l > 0 { assert(self.pos_in_trie_@[l - 1] == gt.dpos(gj, l - 1)); if !gt.beside(gj, l) && !gt.dps()[gt.gn(gj, l)] { gt.lemma_dback(gj, l - 1); } }
}
--- after loop 1
let ghost it = *self;
proof { gt.lemma_dback(gj, self.key_len_ - 1); lemma_dep(gt.ks, gj - 1); it.lemma_path(&it, gt, gj, gj - 1, self.key_len_ - 1); }
--- before call moveToRightMostKey 1
proof { self.lemma_path_more(&it, gt, gj - 1, gj - 1, self.key_len_ - 1); }

=== fn LoudsDense_Iter::getKey
--- ghost
gt: Tr
gj: int
--- spec
requires self.is_valid_ ==> self.on(gt, gj),
ensures self.is_valid_ ==> r.b@ == gt.ks[gj].subrange(0, self.part(gt, gj)) && 0 <= self.part(gt, gj) <= gt.ks[gj].len(),
    !self.is_valid_ ==> r.b@.len() == 0,
--- body-start
proof {
    if self.is_valid_ {
        lemma_dep(gt.ks, gj);
        let n = self.part(gt, gj);
        let g = if gt.ks[gj].len() == leaf(gt.ks, gj) && leaf(gt.ks, gj) < gt.s { gj + 1 } else { gj };
        assert(self.path(gt, g, self.key_len_ as int));
        if g != gj { lemma_dep(gt.ks, gj + 1); lemma_sh(gt.ks, gj, gj + 1, leaf(gt.ks, gj)); }
        assert forall|i: int| 0 <= i < n implies #[trigger] self.key_@[i] == gt.ks[gj][i] by { assert(self.key_@[i] == gt.ks[g][i]); }
        assert(self.key_@.subrange(0, n) =~= gt.ks[gj].subrange(0, n));
    }
}

=== fn LoudsDense_Iter::getSuffix
--- ghost
gt: Tr
gj: int
--- spec
requires self.on(gt, gj),
ensures leaf(gt.ks, gj) < gt.s ==> r == gt.real_len() && *final(suffix) == gt.real(gj),
    leaf(gt.ks, gj) >= gt.s ==> r == 0 && *final(suffix) == 0,
--- body-start
proof {
    let l = leaf(gt.ks, gj);
    lemma_dep(gt.ks, gj);
    if l < gt.s {
        self.lemma_on_sfx(gt, gj);
        lemma_mixed_real(gt.ks[gj], gt.c.hl, l + 1, gt.c.rl);
        lemma_low_real(gt.ks[gj], l + 1, gt.c.rl);
    }
}

=== fn LoudsDense_Iter::getKeyWithSuffix
--- ghost
gt: Tr
gj: int
--- spec
requires self.on(gt, gj),
ensures leaf(gt.ks, gj) < gt.s ==> r.b@ == gt.kept(gj) + gt.real_bytes(gj) && *final(bitlen) == if gt.real(gj) > 0 { (gt.c.rl % 8) as u32 } else { *old(bitlen) },
    leaf(gt.ks, gj) >= gt.s ==> r.b@ == gt.ks[gj].subrange(0, gt.s) && *final(bitlen) == *old(bitlen),
--- body-start
proof {
    let l = leaf(gt.ks, gj);
    lemma_dep(gt.ks, gj);
    if l < gt.s {
        self.lemma_on_sfx(gt, gj);
        lemma_mixed_real(gt.ks[gj], gt.c.hl, l + 1, gt.c.rl);
        lemma_low_real(gt.ks[gj], l + 1, gt.c.rl);
    }
}
let ghost gk = gt.kept(gj);
--- loop 1
invariant suffix_len == gt.c.rl, 0 < gt.c.rl <= 64, pos % 8 == 0, pos < gt.c.rl + 8, suffix_str == 7 - pos / 8 || (pos == 64 && suffix_str == 0xffff_ffff_ffff_ffff),
    suffix_str_mem@.len() == 8, forall|i: int| 0 <= i < 8 ==> #[trigger] suffix_str_mem@[i] == byte_of(suffix, i), suffix == gt.real(gj) << ((64 - gt.c.rl) as u64),
    iter_key.b@ == gk + sfx_bytes(gt.real(gj), gt.c.rl).subrange(0, pos as int / 8),
decreases gt.c.rl + 8 - pos,
--- loop 1 start
let ghost before = iter_key.b@;
--- loop 1 end
proof {
    let z = sfx_bytes(gt.real(gj), gt.c.rl);
    let m = (pos / 8) as int - 1;
    assert(z.subrange(0, m + 1) =~= z.subrange(0, m).push(z[m]));
    assert(suffix_str_mem@.subrange(7 - m, 7 - m + 1) =~= seq![z[m]]);
    assert(iter_key.b@ =~= gk + z.subrange(0, m + 1));
}
--- after loop 1
proof {
    let z = sfx_bytes(gt.real(gj), gt.c.rl);
    assert(z.subrange(0, pos as int / 8) =~= z);
}

=== fn LoudsDense_Iter::compare
--- ghost
gt: Tr
gj: int
--- spec
requires self.on(gt, gj), key.b@.len() <= 0x7fff_ffff,
ensures leaf(gt.ks, gj) < gt.s ==> gt.cmp_ok(gj, key.b@, r as int) && sig(r as int) == gt.cmp_res(gj, key.b@),
    leaf(gt.ks, gj) >= gt.s && r != 0 ==> sig(r as int) == gt.cmp_res(gj, key.b@),
    leaf(gt.ks, gj) >= gt.s ==> r != 2018 && (r < 0 ==> lexlt(gt.ks[gj], key.b@)) && (r > 0 ==> lexlt(key.b@, gt.ks[gj])) && (r == 0 ==> pre(gt.ks[gj], key.b@, gt.s)),
--- body-start
proof {
    let l = leaf(gt.ks, gj);
    let k = gt.ks[gj];
    let q = key.b@;
    let n = self.part(gt, gj);
    lemma_dep(gt.ks, gj);
    gt.lemma_dsizes();
    lemma_lex_part(k, q, 0, n);
    gt.lemma_cmp_part(gj, q, 0, n);
    assert(q.subrange(0, minl(n, q.len() as int)) =~= q.subrange(0, minl(n, q.len() as int)));
    if l < gt.s {
        self.lemma_on_sfx(gt, gj);
        lemma_mixed_real(k, gt.c.hl, l + 1, gt.c.rl);
        lemma_low_real(k, l + 1, gt.c.rl); lemma_low_real(q, l + 1, gt.c.rl);
        if pre(k, q, n) {
            if k.len() == l && q.len() > k.len() { lemma_lex_end(k, q); } else { gt.lemma_cmp_sfx(gj, q); }
        }
    }
}
