=== fn LoudsSparse_Iter::new_0
--- spec
ensures !r.is_valid_,

=== fn LoudsSparse_Iter::new_1
--- spec
requires trie.start_level_ <= trie.height_,
ensures r.trie_ == trie, !r.is_valid_, r.start_level_ == trie.start_level_, r.start_node_num_ == 0, r.key_len_ == 0, !r.is_at_terminator_,
    r.key_@.len() == trie.height_ - trie.start_level_, r.pos_in_trie_@.len() == r.key_@.len(),
--- before loop 1
let ghost hold = this;
--- loop 1
invariant this.trie_ == trie, !this.is_valid_, this.start_level_ == trie.start_level_, this.start_node_num_ == 0, this.key_len_ == 0, !this.is_at_terminator_,
    this.start_level_ <= level <= trie.height_,
    this.key_@.len() == level - trie.start_level_, this.pos_in_trie_@.len() == this.key_@.len(),
decreases trie.height_ - level,

=== mod LoudsSparse_Iter
impl LoudsSparse_Iter {
    pub open spec fn wf(&self, t: Tr) -> bool {
        &&& self.trie_.holds(t) && self.start_level_ == t.s
        &&& self.key_@.len() == t.h - t.s && self.pos_in_trie_@.len() == t.h - t.s && self.key_len_ <= t.h - t.s
    }
    /// the first m items are those of key j
    pub open spec fn path(&self, t: Tr, j: int, m: int) -> bool {
        &&& 0 <= j < t.n() && t.s + m - 1 <= leaf(t.ks, j)
        &&& forall|i: int| 0 <= i < m ==> #[trigger] self.pos_in_trie_@[i] == t.fp(j, t.s + i)
        &&& forall|i: int| 0 <= i < m ==> #[trigger] self.key_@[i] == sym(t.ks[j], t.s + i)
    }
    /// it stands on key j
    pub open spec fn at(&self, t: Tr, j: int) -> bool {
        &&& self.wf(t) && self.is_valid_ && 0 <= j < t.n() && t.s <= leaf(t.ks, j)
        &&& self.key_len_ == leaf(t.ks, j) + 1 - t.s && self.path(t, j, self.key_len_ as int)
        &&& self.is_at_terminator_ == (t.ks[j].len() == leaf(t.ks, j))
    }
    /// it stands nowhere
    pub open spec fn parked(&self, t: Tr) -> bool {
        &&& self.wf(t) && !self.is_valid_ && !self.is_at_terminator_
        &&& self.key_len_ == 0 || (self.key_len_ == 1 && self.pos_in_trie_@[0] == 0 && self.key_@[0] == t.labs()[0])
    }
    /// it stands on key g if that is in the sparse part and in the subtrie of the key before it; otherwise nowhere
    pub open spec fn stands(&self, t: Tr, g: int) -> bool {
        &&& self.wf(t)
        &&& if 0 <= g < t.n() && dep(t.ks, g) >= t.s { self.at(t, g) } else { self.gone() }
    }
    pub open spec fn gone(&self) -> bool { !self.is_valid_ && self.key_len_ == 0 && !self.is_at_terminator_ }
    /// one more item
    pub proof fn lemma_path_more(&self, o: &LoudsSparse_Iter, t: Tr, i: int, j: int, m: int)
        requires t.ok(), o.path(t, i, m), 0 <= m, self.key_@.len() > m, self.key_@.len() == self.pos_in_trie_@.len(), o.key_@.len() == self.key_@.len(), o.pos_in_trie_@.len() == o.key_@.len(),
            self.key_@ == o.key_@.update(m, sym(t.ks[j], t.s + m)), self.pos_in_trie_@ == o.pos_in_trie_@.update(m, self.pos_in_trie_@[m]),
            self.pos_in_trie_@[m] == t.fp(j, t.s + m), t.has(j, t.s + m), 0 <= t.s,
            i <= j ==> sh(t.ks, i, j, t.s + m), j <= i ==> sh(t.ks, j, i, t.s + m),
        ensures self.path(t, j, m + 1),
    {
        o.lemma_path(t, i, j, m);
        assert forall|x: int| 0 <= x < m + 1 implies #[trigger] self.pos_in_trie_@[x] == t.fp(j, t.s + x) by { if x < m { assert(o.pos_in_trie_@[x] == t.fp(j, t.s + x)); } }
        assert forall|x: int| 0 <= x < m + 1 implies #[trigger] self.key_@[x] == sym(t.ks[j], t.s + x) by { if x < m { assert(o.key_@[x] == sym(t.ks[j], t.s + x)); } }
    }
    pub open spec fn same(&self, o: &LoudsSparse_Iter) -> bool {
        self.trie_ == o.trie_ && self.start_level_ == o.start_level_ && self.start_node_num_ == o.start_node_num_
    }
    /// the path of key i is that of key j as far as they go together
    pub proof fn lemma_path(&self, t: Tr, i: int, j: int, m: int)
        requires t.ok(), self.path(t, i, m), 0 <= j < t.n(), 0 <= m, 0 <= t.s,
            i <= j ==> sh(t.ks, i, j, t.s + m), j <= i ==> sh(t.ks, j, i, t.s + m), t.s + m - 1 <= leaf(t.ks, j),
        ensures self.path(t, j, m),
    {
        assert forall|x: int| 0 <= x < m implies #[trigger] self.pos_in_trie_@[x] == t.fp(j, t.s + x) && self.key_@[x] == sym(t.ks[j], t.s + x) by {
            if i <= j { t.lemma_same_path(i, j, t.s + m - 1, t.s + x); } else { t.lemma_same_path(j, i, t.s + m - 1, t.s + x); }
            assert(self.key_@[x] == sym(t.ks[i], t.s + x));
        }
        assert forall|x: int| 0 <= x < m implies #[trigger] self.key_@[x] == sym(t.ks[j], t.s + x) by { assert(self.pos_in_trie_@[x] == t.fp(j, t.s + x)); }
    }
}

=== fn LoudsSparse_Iter::clear
--- spec
ensures !final(self).is_valid_, final(self).key_len_ == 0, !final(self).is_at_terminator_, final(self).same(old(self)),
    final(self).key_ == old(self).key_, final(self).pos_in_trie_ == old(self).pos_in_trie_,

=== fn LoudsSparse_Iter::isValid
--- spec
ensures r == self.is_valid_,

=== fn LoudsSparse_Iter::getStartNodeNum
--- spec
ensures r == self.start_node_num_,

=== fn LoudsSparse_Iter::setStartNodeNum
--- spec
ensures final(self).start_node_num_ == node_num, final(self).trie_ == old(self).trie_, final(self).start_level_ == old(self).start_level_,
    final(self).key_ == old(self).key_, final(self).pos_in_trie_ == old(self).pos_in_trie_, final(self).key_len_ == old(self).key_len_,
    final(self).is_valid_ == old(self).is_valid_, final(self).is_at_terminator_ == old(self).is_at_terminator_,

=== fn LoudsSparse_Iter::append_u8_u32
--- spec
requires old(self).key_len_ < old(self).key_@.len(), old(self).pos_in_trie_@.len() == old(self).key_@.len(), old(self).key_len_ < 0x7fff_ffff,
ensures final(self).same(old(self)), final(self).is_valid_ == old(self).is_valid_, final(self).is_at_terminator_ == old(self).is_at_terminator_,
    final(self).key_len_ == old(self).key_len_ + 1,
    final(self).key_@ == old(self).key_@.update(old(self).key_len_ as int, label),
    final(self).pos_in_trie_@ == old(self).pos_in_trie_@.update(old(self).key_len_ as int, pos),

=== fn LoudsSparse_Iter::append_u32
--- spec
requires old(self).key_len_ < old(self).key_@.len(), old(self).pos_in_trie_@.len() == old(self).key_@.len(), old(self).key_len_ < 0x7fff_ffff,
    old(self).trie_.labels_.wf(), pos < old(self).trie_.labels_.num_bytes_,
ensures final(self).same(old(self)), final(self).is_valid_ == old(self).is_valid_, final(self).is_at_terminator_ == old(self).is_at_terminator_,
    final(self).key_len_ == old(self).key_len_ + 1,
    final(self).key_@ == old(self).key_@.update(old(self).key_len_ as int, old(self).trie_.labels_.at(pos as int)),
    final(self).pos_in_trie_@ == old(self).pos_in_trie_@.update(old(self).key_len_ as int, pos),

=== fn LoudsSparse_Iter::set
--- spec
requires level < old(self).key_@.len(), old(self).pos_in_trie_@.len() == old(self).key_@.len(),
    old(self).trie_.labels_.wf(), pos < old(self).trie_.labels_.num_bytes_,
ensures final(self).same(old(self)), final(self).is_valid_ == old(self).is_valid_, final(self).is_at_terminator_ == old(self).is_at_terminator_,
    final(self).key_len_ == old(self).key_len_,
    final(self).key_@ == old(self).key_@.update(level as int, old(self).trie_.labels_.at(pos as int)),
    final(self).pos_in_trie_@ == old(self).pos_in_trie_@.update(level as int, pos),

=== fn LoudsSparse_Iter::setToFirstLabelInRoot
--- ghost
gt: Tr
--- spec
requires old(self).wf(gt), gt.s == 0,
ensures final(self).same(old(self)), final(self).is_valid_ == old(self).is_valid_, final(self).is_at_terminator_ == old(self).is_at_terminator_,
    final(self).key_len_ == old(self).key_len_, final(self).wf(gt),
--- body-start
proof { self.trie_.lemma_ones(gt); }

=== fn LoudsSparse_Iter::setToLastLabelInRoot
--- ghost
gt: Tr
--- spec
requires old(self).wf(gt), gt.s == 0,
ensures final(self).same(old(self)), final(self).is_valid_ == old(self).is_valid_, final(self).is_at_terminator_ == old(self).is_at_terminator_,
    final(self).key_len_ == old(self).key_len_, final(self).wf(gt),
--- body-start
proof { self.trie_.lemma_ones(gt); gt.lemma_root(); assert(gt.ns(0, 0) == 0); gt.lemma_gn(0, 0); }

=== fn LoudsSparse_Iter::moveToLeftMostKey
--- ghost
gt: Tr
gi: int
--- spec
requires old(self).wf(gt), !old(self).is_at_terminator_, gt.has(gi, gt.s),
    old(self).key_len_ == 0 ==> old(self).start_node_num_ == gt.gn(gi, gt.s) && dep(gt.ks, gi) < gt.s,
    old(self).key_len_ > 0 ==> old(self).path(gt, gi, old(self).key_len_ as int) && dep(gt.ks, gi) <= gt.s + old(self).key_len_ - 1,
ensures final(self).at(gt, gi), final(self).same(old(self)),
--- body-start
let ghost tr = self.trie_;
proof {
    gt.lemma_sizes();
    gt.lemma_at(gi, gt.s);
    gt.lemma_term(gi);
    gt.lemma_at(gi, leaf(gt.ks, gi));
    gt.lemma_gn(gi, gt.s);
    if self.key_len_ == 0 {
        let x = gt.lemma_node_of(gi, gt.s);
        if x.0 < gi { assert(dep(gt.ks, gi) >= gt.s); }
        assert forall|r: int| 0 <= r < gt.total() && gt.los()[r] && #[trigger] cnt(gt.los(), r + 1) == gt.gn(gi, gt.s) + 1 - gt.ns(0, gt.s) implies r == gt.fp(gi, gt.s) by {
            gt.lemma_find(gi, x.1, gt.s, r);
        }
    }
    assert forall|p: int| 0 <= p < gt.total() implies #[trigger] tr.labels_.at(p) == gt.labs()[p] by { }
    assert forall|p: int| 0 <= p < gt.total() implies #[trigger] tr.child_indicator_bits_.at(p) == gt.chs()[p] by { }
}
--- after if 1
proof {
    assert(self.path(gt, gi, self.key_len_ as int));
    gt.lemma_at(gi, gt.s + self.key_len_ - 1);
}
--- before if 2
proof {
    assert(pos == gt.fp(gi, gt.s + level));
    assert(label == gt.labs()[pos as int]);
    assert(gt.chs()[pos as int] == (gt.s + level < leaf(gt.ks, gi)));
    assert(tr.child_indicator_bits_.at(pos as int) == gt.chs()[pos as int]);
}
--- loop 1
invariant self.wf(gt), self.trie_ == tr, self.same(old(self)), !self.is_at_terminator_, gt.has(gi, gt.s), self.key_len_ >= 1, level == self.key_len_ - 1,
    self.path(gt, gi, self.key_len_ as int), dep(gt.ks, gi) <= gt.s + level, pos == gt.fp(gi, gt.s + level), gt.s + level < leaf(gt.ks, gi), leaf(gt.ks, gi) < gt.h,
    gt.total() <= 0xff_0000, gt.h <= 0x7fff_ffff,
decreases gt.h - level,
--- loop 1 start
proof {
    let l0 = gt.s + level;
    gt.lemma_down_first(gi, l0);
    gt.lemma_at(gi, l0);
    gt.lemma_at(gi, l0 + 1);
    gt.lemma_term(gi);
    let l1 = l0 + 1;
    assert(tr.labels_.at(gt.fp(gi, l1)) == gt.labs()[gt.fp(gi, l1)]);
    assert(tr.child_indicator_bits_.at(gt.fp(gi, l1)) == gt.chs()[gt.fp(gi, l1)]);
}

=== fn LoudsSparse_Iter::moveToRightMostKey
--- ghost
gt: Tr
gi: int
--- spec
requires old(self).wf(gt), !old(self).is_at_terminator_, gt.has(gi, gt.s),
    old(self).key_len_ == 0 ==> old(self).start_node_num_ == gt.gn(gi, gt.s) && (gi + 1 < gt.n() ==> dep(gt.ks, gi + 1) < gt.s),
    old(self).key_len_ > 0 ==> old(self).path(gt, gi, old(self).key_len_ as int) && (gi + 1 < gt.n() ==> dep(gt.ks, gi + 1) <= gt.s + old(self).key_len_ - 1),
ensures final(self).at(gt, gi), final(self).same(old(self)),
--- body-start
let ghost tr = self.trie_;
proof {
    gt.lemma_sizes();
    gt.lemma_at(gi, gt.s);
    gt.lemma_term(gi);
    gt.lemma_at(gi, leaf(gt.ks, gi));
    gt.lemma_gn(gi, gt.s);
    if self.key_len_ == 0 {
        let x = gt.lemma_node_of(gi, gt.s);
        if x.1 > gi { assert(dep(gt.ks, gi + 1) >= gt.s); }
        gt.lemma_node(x.0, gi, gt.s);
        assert(gt.gn(x.0, gt.s) == gt.gn(gi, gt.s));
        gt.lemma_last(x.0, gi, gt.s);
        assert forall|r: int| 0 <= r < gt.total() && (gt.gn(gi, gt.s) + 1 == gt.ns(0, gt.h) ==> r == gt.total() - 1)
            && (gt.gn(gi, gt.s) + 1 < gt.ns(0, gt.h) ==> r + 1 < gt.total() && gt.los()[r + 1] && #[trigger] cnt(gt.los(), r + 2) == gt.gn(gi, gt.s) + 2 - gt.ns(0, gt.s)) implies r == gt.fp(gi, gt.s) by {
            gt.lemma_find_last(x.0, gi, gt.s, r);
        }
        assert(gt.gn(gi, gt.s) + 1 == gt.ns(0, gt.h) ==> gt.fp(gi, gt.s) == gt.total() - 1) by {
            if gt.gn(gi, gt.s) + 1 == gt.ns(0, gt.h) { gt.lemma_find_last(x.0, gi, gt.s, gt.total() - 1); }
        }
    }
    assert forall|p: int| 0 <= p < gt.total() implies #[trigger] tr.labels_.at(p) == gt.labs()[p] by { }
    assert forall|p: int| 0 <= p < gt.total() implies #[trigger] tr.child_indicator_bits_.at(p) == gt.chs()[p] by { }
}
--- after if 1
proof {
    assert(self.path(gt, gi, self.key_len_ as int));
    gt.lemma_at(gi, gt.s + self.key_len_ - 1);
}
--- before if 2
proof {
    assert(pos == gt.fp(gi, gt.s + level));
    assert(label == gt.labs()[pos as int]);
    assert(gt.chs()[pos as int] == (gt.s + level < leaf(gt.ks, gi)));
    assert(tr.child_indicator_bits_.at(pos as int) == gt.chs()[pos as int]);
}
--- loop 1
invariant self.wf(gt), self.trie_ == tr, self.same(old(self)), !self.is_at_terminator_, gt.has(gi, gt.s), self.key_len_ >= 1, level == self.key_len_ - 1,
    self.path(gt, gi, self.key_len_ as int), gi + 1 < gt.n() ==> dep(gt.ks, gi + 1) <= gt.s + level, pos == gt.fp(gi, gt.s + level), gt.s + level < leaf(gt.ks, gi), leaf(gt.ks, gi) < gt.h,
    gt.total() <= 0xff_0000, gt.h <= 0x7fff_ffff,
decreases gt.h - level,
--- loop 1 start
proof {
    let l0 = gt.s + level;
    gt.lemma_at(gi, l0);
    gt.lemma_at(gi, l0 + 1);
    gt.lemma_term(gi);
    let l1 = l0 + 1;
    let a = gt.lemma_down_last(gi, l0);
    gt.lemma_node(a, gi, l1);
    gt.lemma_last(a, gi, l1);
    assert forall|r: int| 0 <= r < gt.total() && (gt.gn(gi, l1) + 1 == gt.ns(0, gt.h) ==> r == gt.total() - 1)
        && (gt.gn(gi, l1) + 1 < gt.ns(0, gt.h) ==> r + 1 < gt.total() && gt.los()[r + 1] && #[trigger] cnt(gt.los(), r + 2) == gt.gn(gi, l1) + 2 - gt.ns(0, gt.s)) implies r == gt.fp(gi, l1) by {
        gt.lemma_find_last(a, gi, l1, r);
    }
    if gt.gn(gi, l1) + 1 == gt.ns(0, gt.h) { gt.lemma_find_last(a, gi, l1, gt.total() - 1); }
    assert(tr.labels_.at(gt.fp(gi, l1)) == gt.labs()[gt.fp(gi, l1)]);
    assert(tr.child_indicator_bits_.at(gt.fp(gi, l1)) == gt.chs()[gt.fp(gi, l1)]);
}

=== fn LoudsSparse_Iter::op_inc
--- ghost
gt: Tr
gj: int
--- spec
requires old(self).wf(gt), old(self).key_len_ > 0, old(self).path(gt, gj, old(self).key_len_ as int),
    gj + 1 < gt.n() ==> dep(gt.ks, gj + 1) <= gt.s + old(self).key_len_ - 1,
ensures final(self).same(old(self)), final(self).wf(gt),
    gj + 1 < gt.n() && dep(gt.ks, gj + 1) >= gt.s ==> final(self).at(gt, gj + 1),
    !(gj + 1 < gt.n() && dep(gt.ks, gj + 1) >= gt.s) ==> !final(self).is_valid_ && final(self).key_len_ == 0 && !final(self).is_at_terminator_,
--- body-start
let ghost tr = self.trie_;
proof {
    gt.lemma_sizes();
    gt.lemma_at(gj, gt.s + self.key_len_ - 1);
    gt.lemma_next(gj, gt.s + self.key_len_ - 1);
    assert(self.pos_in_trie_@[self.key_len_ - 1] == gt.fp(gj, gt.s + self.key_len_ - 1));
    assert forall|p: int| 0 <= p < gt.total() implies #[trigger] tr.louds_bits_.at(p) == gt.los()[p] by { }
}
--- loop 1
invariant self.wf(gt), self.trie_ == tr, self.same(old(self)), !self.is_at_terminator_, self.key_len_ >= 1,
    self.path(gt, gj, self.key_len_ as int), gj + 1 < gt.n() ==> dep(gt.ks, gj + 1) <= gt.s + self.key_len_ - 1,
    pos == gt.fp(gj, gt.s + self.key_len_ - 1) + 1, pos <= gt.total(), gt.total() <= 0xff_0000,
    gj + 1 < gt.n() && dep(gt.ks, gj + 1) == gt.s + self.key_len_ - 1 ==> pos < gt.total() && !gt.los()[pos as int],
    !(gj + 1 < gt.n() && dep(gt.ks, gj + 1) == gt.s + self.key_len_ - 1) && pos < gt.total() ==> gt.los()[pos as int],
    pos < gt.total() ==> tr.louds_bits_.at(pos as int) == gt.los()[pos as int],
ensures self.wf(gt), self.trie_ == tr, self.same(old(self)), !self.is_at_terminator_, self.key_len_ >= 1,
    self.path(gt, gj, self.key_len_ as int), gj + 1 < gt.n() && dep(gt.ks, gj + 1) == gt.s + self.key_len_ - 1,
    pos == gt.fp(gj, gt.s + self.key_len_ - 1) + 1, pos < gt.total(), gt.total() <= 0xff_0000,
decreases self.key_len_,
--- loop 1 start
proof {
    if self.key_len_ > 1 {
        let l = gt.s + self.key_len_ - 2;
        gt.lemma_at(gj, l);
        gt.lemma_next(gj, l);
        assert(self.pos_in_trie_@[self.key_len_ - 2] == gt.fp(gj, l));
    }
}
--- after loop 1
let ghost hold = self;
proof {
    let l = gt.s + self.key_len_ - 1;
    gt.lemma_next(gj, l);
    gt.lemma_at(gj + 1, l);
    gt.lemma_at(gj + 1, gt.s);
    self.lemma_path(gt, gj, gj + 1, self.key_len_ - 1);
}
--- before call moveToLeftMostKey 1
proof {
    assert(self.path(gt, gj + 1, self.key_len_ as int)) by {
        let m = self.key_len_ - 1;
        assert forall|i: int| 0 <= i < self.key_len_ implies #[trigger] self.pos_in_trie_@[i] == gt.fp(gj + 1, gt.s + i) by {
            if i < m { assert(hold.pos_in_trie_@[i] == gt.fp(gj + 1, gt.s + i)); }
        }
        assert forall|i: int| 0 <= i < self.key_len_ implies #[trigger] self.key_@[i] == sym(gt.ks[gj + 1], gt.s + i) by {
            if i < m { assert(hold.key_@[i] == sym(gt.ks[gj + 1], gt.s + i)); }
        }
    }
}
let ghost gi = gj + 1;

=== fn LoudsSparse_Iter::op_dec
--- ghost
gt: Tr
gj: int
--- spec
requires old(self).wf(gt), old(self).key_len_ > 0, old(self).path(gt, gj, old(self).key_len_ as int),
    dep(gt.ks, gj) <= gt.s + old(self).key_len_ - 1,
ensures final(self).same(old(self)), final(self).wf(gt),
    dep(gt.ks, gj) >= gt.s ==> final(self).at(gt, gj - 1),
    dep(gt.ks, gj) < gt.s ==> final(self).parked(gt) && (final(self).key_len_ > 0 ==> gt.fp(gj, gt.s) == 0),
--- body-start
let ghost tr = self.trie_;
proof {
    gt.lemma_sizes();
    gt.lemma_at(gj, gt.s + self.key_len_ - 1);
    gt.lemma_prev(gj, gt.s + self.key_len_ - 1);
    assert(self.pos_in_trie_@[self.key_len_ - 1] == gt.fp(gj, gt.s + self.key_len_ - 1));
    assert(self.key_@[self.key_len_ - 1] == sym(gt.ks[gj], gt.s + self.key_len_ - 1));
    assert forall|p: int| 0 <= p < gt.total() implies #[trigger] tr.louds_bits_.at(p) == gt.los()[p] by { }
    if gt.fp(gj, gt.s + self.key_len_ - 1) == 0 {
        if self.key_len_ > 1 { gt.lemma_at(gj, gt.s); lemma_flen_mono(gt.rlab(), gt.s, gt.s + 1, gt.s + self.key_len_ - 1); }
        if dep(gt.ks, gj) == gt.s + self.key_len_ - 1 { gt.lemma_at(gj - 1, gt.s + self.key_len_ - 1); }
    }
}
--- loop 1
invariant self.wf(gt), self.trie_ == tr, self.same(old(self)), !self.is_at_terminator_, self.key_len_ >= 1,
    self.path(gt, gj, self.key_len_ as int), dep(gt.ks, gj) <= gt.s + self.key_len_ - 1,
    pos == gt.fp(gj, gt.s + self.key_len_ - 1), pos < gt.total(), gt.total() <= 0xff_0000,
    gt.los()[pos as int] == (dep(gt.ks, gj) < gt.s + self.key_len_ - 1),
    tr.louds_bits_.at(pos as int) == gt.los()[pos as int],
ensures self.wf(gt), self.trie_ == tr, self.same(old(self)), !self.is_at_terminator_, self.key_len_ >= 1,
    self.path(gt, gj, self.key_len_ as int), dep(gt.ks, gj) == gt.s + self.key_len_ - 1,
    pos == gt.fp(gj, gt.s + self.key_len_ - 1), pos < gt.total(), gt.total() <= 0xff_0000,
decreases self.key_len_,
--- loop 1 start
proof {
    if self.key_len_ > 1 {
        let l = gt.s + self.key_len_ - 2;
        gt.lemma_at(gj, l);
        gt.lemma_prev(gj, l);
        assert(self.pos_in_trie_@[self.key_len_ - 2] == gt.fp(gj, l));
    }
}
--- after loop 1
let ghost hold = self;
proof {
    let l = gt.s + self.key_len_ - 1;
    gt.lemma_prev(gj, l);
    gt.lemma_at(gj - 1, l);
    gt.lemma_at(gj - 1, gt.s);
    self.lemma_path(gt, gj, gj - 1, self.key_len_ - 1);
}
--- before call moveToRightMostKey 1
proof {
    assert(self.path(gt, gj - 1, self.key_len_ as int)) by {
        let m = self.key_len_ - 1;
        assert forall|i: int| 0 <= i < self.key_len_ implies #[trigger] self.pos_in_trie_@[i] == gt.fp(gj - 1, gt.s + i) by {
            if i < m { assert(hold.pos_in_trie_@[i] == gt.fp(gj - 1, gt.s + i)); }
        }
        assert forall|i: int| 0 <= i < self.key_len_ implies #[trigger] self.key_@[i] == sym(gt.ks[gj - 1], gt.s + i) by {
            if i < m { assert(hold.key_@[i] == sym(gt.ks[gj - 1], gt.s + i)); }
        }
    }
}
let ghost gi = gj - 1;

=== fn LoudsSparse_Iter::getKey
--- ghost
gt: Tr
gj: int
--- spec
requires self.is_valid_ ==> self.at(gt, gj),
ensures self.is_valid_ ==> r.b@ == gt.ks[gj].subrange(gt.s, gt.kend(gj)) && gt.s <= gt.kend(gj) <= gt.ks[gj].len(),
    !self.is_valid_ ==> r.b@.len() == 0,
--- body-start
proof {
    if self.is_valid_ {
        lemma_dep(gt.ks, gj);
        gt.lemma_at(gj, leaf(gt.ks, gj));
        let n = gt.kend(gj) - gt.s;
        assert forall|i: int| 0 <= i < n implies #[trigger] self.key_@[i] == gt.ks[gj][gt.s + i] by { assert(self.key_@[i] == sym(gt.ks[gj], gt.s + i)); }
        assert(self.key_@.subrange(0, n) =~= gt.ks[gj].subrange(gt.s, gt.kend(gj)));
    }
}

=== fn LoudsSparse_Iter::getSuffix
--- ghost
gt: Tr
gj: int
--- spec
requires self.at(gt, gj),
ensures r == gt.real_len(), *final(suffix) == gt.real(gj),
--- body-start
proof {
    let l = leaf(gt.ks, gj);
    gt.lemma_at(gj, l);
    self.trie_.lemma_sfx_pos(gt, gj);
    assert(self.pos_in_trie_@[l - gt.s] == gt.fp(gj, l));
    lemma_mixed_real(gt.ks[gj], gt.c.hl, l + 1, gt.c.rl);
    lemma_low_real(gt.ks[gj], l + 1, gt.c.rl);
}

=== fn LoudsSparse_Iter::getKeyWithSuffix
--- ghost
gt: Tr
gj: int
--- spec
requires self.at(gt, gj),
ensures r.b@ == gt.ks[gj].subrange(gt.s, gt.kend(gj)) + gt.real_bytes(gj),
    *final(bitlen) == if gt.real(gj) > 0 { (gt.c.rl % 8) as u32 } else { *old(bitlen) },
--- body-start
proof {
    let l = leaf(gt.ks, gj);
    gt.lemma_at(gj, l);
    self.trie_.lemma_sfx_pos(gt, gj);
    assert(self.pos_in_trie_@[l - gt.s] == gt.fp(gj, l));
    lemma_mixed_real(gt.ks[gj], gt.c.hl, l + 1, gt.c.rl);
    lemma_low_real(gt.ks[gj], l + 1, gt.c.rl);
}
let ghost gk = gt.ks[gj].subrange(gt.s, gt.kend(gj));
--- loop 1
invariant suffix_len == gt.c.rl, 0 < gt.c.rl <= 64, pos % 8 == 0, pos < gt.c.rl + 8, suffix_str == 7 - pos / 8 || (pos == 64 && suffix_str == 0xffff_ffff_ffff_ffff),
    suffix_str_mem@.len() == 8, forall|i: int| 0 <= i < 8 ==> #[trigger] suffix_str_mem@[i] == byte_of(suffix, i), suffix == gt.real(gj) << ((64 - gt.c.rl) as u64),
    iter_key.b@ == gk + sfx_bytes(gt.real(gj), gt.c.rl).subrange(0, pos as int / 8),
decreases gt.c.rl + 8 - pos,
--- loop 1 start
let ghost before = iter_key.b@;
--- loop 1 end
proof {
    let z = sfx_bytes(gt.real(gj), gt.c.rl);
    let m = (pos / 8) as int - 1;
    assert(z.subrange(0, m + 1) =~= z.subrange(0, m).push(z[m]));
    assert(suffix_str_mem@.subrange(7 - m, 7 - m + 1) =~= seq![z[m]]);
    assert(iter_key.b@ =~= gk + z.subrange(0, m + 1));
}
--- after loop 1
proof {
    let z = sfx_bytes(gt.real(gj), gt.c.rl);
    assert(z.subrange(0, pos as int / 8) =~= z);
}

=== fn LoudsSparse_Iter::compare
--- ghost
gt: Tr
gj: int
--- spec
requires self.at(gt, gj), pre(gt.ks[gj], key.b@, gt.s), key.b@.len() <= 0x7fff_ffff,
ensures gt.cmp_ok(gj, key.b@, r as int), sig(r as int) == gt.cmp_res(gj, key.b@),
--- body-start
proof {
    let l = leaf(gt.ks, gj);
    let k = gt.ks[gj];
    let q = key.b@;
    lemma_dep(gt.ks, gj);
    gt.lemma_at(gj, l);
    gt.lemma_sizes();
    self.trie_.lemma_sfx_pos(gt, gj);
    assert(self.pos_in_trie_@[l - gt.s] == gt.fp(gj, l));
    lemma_mixed_real(k, gt.c.hl, l + 1, gt.c.rl);
    lemma_low_real(k, l + 1, gt.c.rl); lemma_low_real(q, l + 1, gt.c.rl);
    lemma_lex_part(k, q, gt.s, gt.kend(gj));
    gt.lemma_cmp_part(gj, q, gt.s, gt.kend(gj));
    lemma_cmp_shift(gt.real(gj), q, gt.s, l + 1 - gt.s, gt.c.rl);
    let qs = q.subrange(gt.s, q.len() as int);
    let n = gt.kend(gj) - gt.s;
    assert(qs.subrange(0, minl(n, qs.len() as int)) =~= q.subrange(gt.s, minl(gt.kend(gj), q.len() as int)));
    if pre(k, q, gt.kend(gj)) {
        if k.len() == l && q.len() > k.len() { lemma_lex_end(k, q); } else { gt.lemma_cmp_sfx(gj, q); }
    }
}
