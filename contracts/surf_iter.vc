=== mod SuRF_Iter
impl Tr {
    /// no key up to j reaches the sparse levels
    pub open spec fn low(self, j: int) -> bool { forall|i: int| 0 <= i <= j && i < self.n() ==> #[trigger] leaf(self.ks, i) < self.s }
    /// items on level l begin with the first key that reaches it
    pub proof fn lemma_none_before(self, m: int, l: int)
        requires self.ok(), 0 <= l, 0 <= m <= self.n(),
        ensures (tl(self.ks, self.c, m, l).lab.len() == 0) == (forall|i: int| 0 <= i < m ==> #[trigger] leaf(self.ks, i) < l),
        decreases m,
    {
        if m > 0 {
            self.lemma_none_before(m - 1, l);
            let j = m - 1;
            if leaf(self.ks, j) >= l && tl(self.ks, self.c, j, l).lab.len() == 0 {
                let r = self.lemma_node_of(j, l);
                if r.0 < j { assert(leaf(self.ks, r.0) >= l); assert(leaf(self.ks, r.0) < l); }
            }
            assert(leaf(self.ks, j) < l || dep(self.ks, j) <= l || tl(self.ks, self.c, j, l).lab.len() > 0) by {
                if leaf(self.ks, j) >= l && dep(self.ks, j) > l { lemma_dep(self.ks, j); assert(leaf(self.ks, j - 1) >= l); }
            }
        }
    }
    /// the first item of the sparse levels is that of the first key that reaches them
    pub proof fn lemma_low(self, j: int)
        requires self.ok(), self.has(j, self.s), dep(self.ks, j) < self.s,
        ensures (self.fp(j, self.s) == 0) == self.low(j - 1), self.low(j - 1) ==> self.labs()[0] == sym(self.ks[j], self.s),
    {
        self.lemma_none_before(j, self.s);
        self.lemma_at(j, self.s);
        assert(self.cut(self.s) == 0);
        assert(self.fp(j, self.s) == tl(self.ks, self.c, j, self.s).lab.len());
        if self.fp(j, self.s) == 0 {
            assert forall|i: int| 0 <= i <= j - 1 && i < self.n() implies #[trigger] leaf(self.ks, i) < self.s by { }
        }
    }
}
impl SuRF_Iter {
    /// it stands on key j
    pub open spec fn at(&self, t: Tr, j: int) -> bool {
        &&& self.dense_iter_.on(t, j) && self.sparse_iter_.wf(t)
        &&& if leaf(t.ks, j) < t.s { self.sparse_iter_.parked(t) && (self.sparse_iter_.key_len_ > 0 ==> t.low(j)) } else { self.sparse_iter_.at(t, j) }
    }
    /// it stands on some key, or nowhere
    pub open spec fn valid(&self) -> bool { self.dense_iter_.is_valid_ && (self.dense_iter_.done() || self.sparse_iter_.is_valid_) }
    pub open spec fn ready(&self, t: Tr) -> bool { self.dense_iter_.wf(t) && self.sparse_iter_.wf(t) }
    pub open spec fn same(&self, o: &SuRF_Iter) -> bool { self.dense_iter_.trie_ == o.dense_iter_.trie_ && self.sparse_iter_.trie_ == o.sparse_iter_.trie_ }
    /// the dense part is the same for all keys below an item
    pub proof fn lemma_on(&self, t: Tr, i: int, j: int)
        requires self.dense_iter_.on(t, i), t.has(i, t.s), t.has(j, t.s), i <= j ==> sh(t.ks, i, j, t.s), j <= i ==> sh(t.ks, j, i, t.s),
        ensures self.dense_iter_.on(t, j),
    {
        lemma_dep(t.ks, j);
        self.dense_iter_.lemma_path(&self.dense_iter_, t, i, j, t.s);
        if i <= j { lemma_same_node(t.ks, t.c, i, j, t.s); } else { lemma_same_node(t.ks, t.c, j, i, t.s); }
    }
}

=== fn SuRF_Iter::new_0
--- spec

=== fn SuRF_Iter::new_1
--- spec
requires filter.louds_sparse_.start_level_ <= filter.louds_sparse_.height_, filter.louds_dense_.height_ <= 0xffff_ffff,
ensures r.dense_iter_.trie_ == filter.louds_dense_, r.sparse_iter_.trie_ == filter.louds_sparse_, !r.could_be_fp_,
    !r.dense_iter_.is_valid_, r.dense_iter_.send_out_node_num_ == 0, r.dense_iter_.key_len_ == 0, !r.dense_iter_.is_at_prefix_key_, !r.dense_iter_.is_search_complete_, !r.dense_iter_.is_move_left_complete_,
    r.dense_iter_.key_@.len() == filter.louds_dense_.height_, r.dense_iter_.pos_in_trie_@.len() == filter.louds_dense_.height_,
    !r.sparse_iter_.is_valid_, r.sparse_iter_.start_level_ == filter.louds_sparse_.start_level_, r.sparse_iter_.start_node_num_ == 0, r.sparse_iter_.key_len_ == 0, !r.sparse_iter_.is_at_terminator_,
    r.sparse_iter_.key_@.len() == filter.louds_sparse_.height_ - filter.louds_sparse_.start_level_, r.sparse_iter_.pos_in_trie_@.len() == r.sparse_iter_.key_@.len(),

=== fn SuRF_Iter::clear
--- spec
ensures !final(self).valid(), final(self).same(old(self)), final(self).could_be_fp_ == old(self).could_be_fp_,
    final(self).sparse_iter_.gone(), final(self).sparse_iter_.same(&old(self).sparse_iter_),
    final(self).sparse_iter_.key_ == old(self).sparse_iter_.key_, final(self).sparse_iter_.pos_in_trie_ == old(self).sparse_iter_.pos_in_trie_,
    !final(self).dense_iter_.is_valid_, final(self).dense_iter_.key_len_ == 0, !final(self).dense_iter_.is_at_prefix_key_,
    final(self).dense_iter_.key_ == old(self).dense_iter_.key_, final(self).dense_iter_.pos_in_trie_ == old(self).dense_iter_.pos_in_trie_,

=== fn SuRF_Iter::isValid
--- spec
ensures r == self.valid(),

=== fn SuRF_Iter::getFpFlag
--- spec
ensures r == self.could_be_fp_,

=== fn SuRF_Iter::passToSparse
--- spec
ensures final(self).dense_iter_ == old(self).dense_iter_, final(self).could_be_fp_ == old(self).could_be_fp_,
    final(self).sparse_iter_ == (LoudsSparse_Iter { start_node_num_: old(self).dense_iter_.send_out_node_num_, ..old(self).sparse_iter_ }),

=== fn SuRF_Iter::compare
--- ghost
gt: Tr
gj: int
--- spec
requires self.at(gt, gj), key.b@.len() <= 0x7fff_ffff,
ensures gt.cmp_ok(gj, key.b@, r as int), sig(r as int) == gt.cmp_res(gj, key.b@),

=== fn SuRF_Iter::getKey
--- ghost
gt: Tr
gj: int
--- spec
requires self.valid() ==> self.at(gt, gj),
ensures self.valid() ==> r.b@ == gt.kept(gj), !self.valid() ==> r.b@.len() == 0,
--- body-start
proof { if self.valid() && leaf(gt.ks, gj) >= gt.s { lemma_dep(gt.ks, gj); assert(gt.ks[gj].subrange(0, gt.s) + gt.ks[gj].subrange(gt.s, gt.kend(gj)) =~= gt.kept(gj)); } }

=== fn SuRF_Iter::getSuffix
--- ghost
gt: Tr
gj: int
--- spec
requires self.valid() ==> self.at(gt, gj),
ensures self.valid() ==> r == gt.real_len() && *final(suffix) == gt.real(gj), !self.valid() ==> r == 0,

=== fn SuRF_Iter::getKeyWithSuffix
--- ghost
gt: Tr
gj: int
--- spec
requires self.valid() ==> self.at(gt, gj),
ensures self.valid() ==> r.b@ == gt.kept(gj) + gt.real_bytes(gj), !self.valid() ==> r.b@.len() == 0,
    *final(bitlen) == if self.valid() && gt.real(gj) > 0 { (gt.c.rl % 8) as u32 } else { 0 },
--- body-start
proof { if self.valid() && leaf(gt.ks, gj) >= gt.s { lemma_dep(gt.ks, gj); assert(gt.ks[gj].subrange(0, gt.s) + (gt.ks[gj].subrange(gt.s, gt.kend(gj)) + gt.real_bytes(gj)) =~= gt.kept(gj) + gt.real_bytes(gj)); } }

=== fn SuRF_Iter::incrementSparseIter
--- ghost
gt: Tr
gj: int
--- spec
requires old(self).at(gt, gj),
ensures final(self).same(old(self)), final(self).could_be_fp_ == old(self).could_be_fp_, r == (gj + 1 < gt.n() && dep(gt.ks, gj + 1) >= gt.s),
    r ==> final(self).at(gt, gj + 1),
    !r ==> final(self).dense_iter_ == old(self).dense_iter_ && final(self).sparse_iter_.parked(gt) && (final(self).sparse_iter_.key_len_ > 0 ==> gt.low(gj)),
--- body-start
let ghost it = *self;
proof {
    lemma_dep(gt.ks, gj);
    if gj + 1 < gt.n() && dep(gt.ks, gj + 1) >= gt.s { lemma_dep(gt.ks, gj + 1); it.lemma_on(gt, gj, gj + 1); }
}

=== fn SuRF_Iter::incrementDenseIter
--- ghost
gt: Tr
gj: int
--- spec
requires old(self).dense_iter_.on(gt, gj), old(self).sparse_iter_.parked(gt), old(self).sparse_iter_.key_len_ > 0 ==> gt.low(gj), gj + 1 < gt.n() ==> dep(gt.ks, gj + 1) < gt.s,
ensures final(self).same(old(self)), final(self).could_be_fp_ == old(self).could_be_fp_, r == (gj + 1 < gt.n()), r ==> final(self).at(gt, gj + 1), !r ==> !final(self).valid() && final(self).ready(gt),
--- body-start
let ghost gg = gj + 1;
let ghost gi = gj + 1;
let ghost mut ga = 0int;
let ghost mut gb = 0int;
proof {
    lemma_dep(gt.ks, gj);
    let d = self.dense_iter_;
    if leaf(gt.ks, gj) < gt.s {
        let l = leaf(gt.ks, gj);
        if gt.ks[gj].len() == l { lemma_ends(gt.ks, gj, l); }
        else {
            let r = gt.lemma_tail_leaf(gj);
            ga = r.0; gb = r.1;
            gt.lemma_dnode(ga, gb, l, ga, gj);
            d.lemma_path(&d, gt, gj, ga, l);
            assert(d.pos_in_trie_@[l] == gt.dpos(gj, l));
        }
    } else if gt.s > 0 {
        let r = gt.lemma_node_of(gj, gt.s);
        assert(r.1 == gj) by { if r.1 > gj { assert(dep(gt.ks, gj + 1) >= gt.s); } }
        let u = gt.lemma_tail_up(r.0, gj, gt.s, gj);
        ga = u.0; gb = u.1;
        gt.lemma_dnode(ga, gb, gt.s - 1, ga, gj);
        d.lemma_path(&d, gt, gj, ga, gt.s - 1);
        assert(d.pos_in_trie_@[gt.s - 1] == gt.dpos(gj, gt.s - 1));
    }
    assert(d.rest(gt, ga, gb, gg));
    if gj + 1 < gt.n() {
        lemma_dep(gt.ks, gj + 1);
        if leaf(gt.ks, gj + 1) >= gt.s { gt.lemma_low(gj + 1); }
    }
}

=== fn SuRF_Iter::op_inc
--- ghost
gt: Tr
gj: int
--- spec
requires old(self).valid() ==> old(self).at(gt, gj),
ensures final(self).same(old(self)), final(self).could_be_fp_ == old(self).could_be_fp_, r == final(self).valid(), r == (old(self).valid() && gj + 1 < gt.n()), r ==> final(self).at(gt, gj + 1),
--- body-start
proof { if self.valid() { lemma_dep(gt.ks, gj); } }

=== fn SuRF_Iter::decrementSparseIter
--- ghost
gt: Tr
gj: int
--- spec
requires old(self).at(gt, gj),
ensures final(self).same(old(self)), final(self).could_be_fp_ == old(self).could_be_fp_, r == (leaf(gt.ks, gj) >= gt.s && dep(gt.ks, gj) >= gt.s),
    r ==> gj > 0 && final(self).at(gt, gj - 1),
    !r ==> final(self).dense_iter_ == old(self).dense_iter_ && final(self).sparse_iter_.parked(gt) && (final(self).sparse_iter_.key_len_ > 0 ==> gt.low(gj - 1)),
--- body-start
let ghost it = *self;
proof {
    lemma_dep(gt.ks, gj);
    if leaf(gt.ks, gj) >= gt.s {
        if dep(gt.ks, gj) >= gt.s { lemma_dep(gt.ks, gj - 1); it.lemma_on(gt, gj, gj - 1); }
        else { gt.lemma_low(gj); }
    }
}

=== fn SuRF_Iter::decrementDenseIter
--- ghost
gt: Tr
gj: int
--- spec
requires old(self).dense_iter_.on(gt, gj), old(self).sparse_iter_.parked(gt), old(self).sparse_iter_.key_len_ > 0 ==> gt.low(gj - 1), leaf(gt.ks, gj) >= gt.s ==> dep(gt.ks, gj) < gt.s,
ensures final(self).same(old(self)), final(self).could_be_fp_ == old(self).could_be_fp_, r == (gj > 0), r ==> final(self).at(gt, gj - 1), !r ==> !final(self).valid(),
--- body-start
let ghost gi = gj - 1;
proof {
    lemma_dep(gt.ks, gj);
    if gj > 0 {
        lemma_dep(gt.ks, gj - 1);
        if leaf(gt.ks, gj - 1) >= gt.s && gt.low(gj - 1) { assert(leaf(gt.ks, gj - 1) < gt.s); }
    }
}

=== fn SuRF_Iter::op_dec
--- ghost
gt: Tr
gj: int
--- spec
requires old(self).valid() ==> old(self).at(gt, gj),
ensures final(self).same(old(self)), final(self).could_be_fp_ == old(self).could_be_fp_, r == final(self).valid(), r == (old(self).valid() && gj > 0), r ==> final(self).at(gt, gj - 1),
--- body-start
proof { if self.valid() { lemma_dep(gt.ks, gj); } }
