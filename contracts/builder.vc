=== mod SuRFBuilder
impl SuRFBuilder {
    pub open spec fn h(&self) -> int { self.labels_@.len() as int }
    pub open spec fn slen(&self) -> int { self.hash_suffix_len_ + self.real_suffix_len_ }
    pub open spec fn items(&self, l: int) -> int { self.labels_@[l]@.len() as int }
    pub open spec fn lvl_ok(&self, l: int) -> bool {
        &&& open_bits(self.child_indicator_bits_@[l]@, self.items(l))
        &&& open_bits(self.louds_bits_@[l]@, self.items(l))
        &&& tight_bits(self.suffixes_@[l]@, self.suffix_counts_@[l] * self.slen())
        &&& self.items(l) <= 0x100_0000 && self.suffix_counts_@[l] <= 0x100_0000 && self.node_counts_@[l] <= self.items(l)
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.slen() <= 64 && self.suffix_type_ <= 3
        &&& self.h() <= 0x100_0000
        &&& self.child_indicator_bits_@.len() == self.h() && self.louds_bits_@.len() == self.h() && self.suffixes_@.len() == self.h()
        &&& self.suffix_counts_@.len() == self.h() && self.node_counts_@.len() == self.h() && self.is_last_item_terminator_@.len() == self.h()
        &&& forall|l: int| 0 <= l < self.h() ==> #[trigger] self.lvl_ok(l)
    }
    pub open spec fn lv(&self, l: int) -> Lvl {
        if 0 <= l < self.h() {
            Lvl {
                lab: self.labels_@[l]@,
                ch: bits_of(self.child_indicator_bits_@[l]@, self.items(l)),
                lo: bits_of(self.louds_bits_@[l]@, self.items(l)),
                sfx: fields_of(self.suffixes_@[l]@, self.suffix_counts_@[l] as int, self.slen()),
                nodes: self.node_counts_@[l] as int,
                term: self.is_last_item_terminator_@[l],
            }
        } else { Lvl::none() }
    }
    /// the configuration and the dense vectors
    pub open spec fn same_rest(&self, o: &SuRFBuilder) -> bool {
        &&& self.include_dense_ == o.include_dense_ && self.sparse_dense_ratio_ == o.sparse_dense_ratio_
        &&& self.sparse_start_level_ == o.sparse_start_level_ && self.suffix_type_ == o.suffix_type_
        &&& self.hash_suffix_len_ == o.hash_suffix_len_ && self.real_suffix_len_ == o.real_suffix_len_
        &&& self.bitmap_labels_ == o.bitmap_labels_ && self.bitmap_child_indicator_bits_ == o.bitmap_child_indicator_bits_
        &&& self.prefixkey_indicator_bits_ == o.prefixkey_indicator_bits_
    }
    /// level l is stored alike
    pub open spec fn same_lvl(&self, o: &SuRFBuilder, l: int) -> bool {
        &&& self.labels_@[l] == o.labels_@[l] && self.child_indicator_bits_@[l] == o.child_indicator_bits_@[l]
        &&& self.louds_bits_@[l] == o.louds_bits_@[l] && self.suffixes_@[l] == o.suffixes_@[l]
        &&& self.suffix_counts_@[l] == o.suffix_counts_@[l] && self.node_counts_@[l] == o.node_counts_@[l]
        &&& self.is_last_item_terminator_@[l] == o.is_last_item_terminator_@[l]
    }
}

=== fn SuRFBuilder::readBit
--- spec
requires pos < 64 * bits@.len(), bits@.len() <= 0x800_0000,
ensures r == wbit(bits@, pos as int),
--- body-start
broadcast use word_arith;

=== fn SuRFBuilder::setBit
--- spec
requires pos < 64 * old(bits)@.len(), old(bits)@.len() <= 0x800_0000,
ensures final(bits)@.len() == old(bits)@.len(),
    forall|i: int| 0 <= i < 64 * old(bits)@.len() ==> #[trigger] wbit(final(bits)@, i) == (i == pos || wbit(old(bits)@, i)),
--- body-start
broadcast use word_arith, word_bits;

=== fn SuRFBuilder::getTreeHeight
--- spec
requires self.h() <= 0x8000_0000,
ensures r == self.h(),

=== fn SuRFBuilder::getBitmapLabels
--- spec
ensures *r == self.bitmap_labels_,
=== fn SuRFBuilder::getBitmapChildIndicatorBits
--- spec
ensures *r == self.bitmap_child_indicator_bits_,
=== fn SuRFBuilder::getPrefixkeyIndicatorBits
--- spec
ensures *r == self.prefixkey_indicator_bits_,
=== fn SuRFBuilder::getLabels
--- spec
ensures *r == self.labels_,
=== fn SuRFBuilder::getChildIndicatorBits
--- spec
ensures *r == self.child_indicator_bits_,
=== fn SuRFBuilder::getLoudsBits
--- spec
ensures *r == self.louds_bits_,
=== fn SuRFBuilder::getSuffixes
--- spec
ensures *r == self.suffixes_,
=== fn SuRFBuilder::getSuffixCounts
--- spec
ensures *r == self.suffix_counts_,
=== fn SuRFBuilder::getNodeCounts
--- spec
ensures *r == self.node_counts_,
=== fn SuRFBuilder::getSparseStartLevel
--- spec
ensures r == self.sparse_start_level_,
=== fn SuRFBuilder::getSuffixType
--- spec
ensures r == self.suffix_type_,
=== fn SuRFBuilder::getSuffixLen
--- spec
requires self.slen() <= 64,
ensures r == self.slen(),
=== fn SuRFBuilder::getHashSuffixLen
--- spec
ensures r == self.hash_suffix_len_,
=== fn SuRFBuilder::getRealSuffixLen
--- spec
ensures r == self.real_suffix_len_,
=== fn SuRFBuilder::isSameKey
--- spec
ensures r == (a.b@ == b.b@),

=== fn SuRFBuilder::getNumItems
--- spec
requires level < self.h(), self.items(level as int) <= 0x8000_0000,
ensures r == self.items(level as int),

=== fn SuRFBuilder::isCharCommonPrefix
--- spec
requires self.wf(), level < self.h() ==> self.items(level as int) > 0 || self.is_last_item_terminator_@[level as int],
ensures r == (level < self.h() && !self.lv(level as int).term && self.lv(level as int).lab.last() == c),

=== fn SuRFBuilder::isLevelEmpty
--- spec
requires self.wf(),
ensures r == (self.lv(level as int).lab.len() == 0),

=== fn SuRFBuilder::isStartOfNode
--- spec
requires self.wf(), level < self.h(), pos < self.items(level as int),
ensures r == self.lv(level as int).lo[pos as int],
--- body-start
assert(self.lvl_ok(level as int));

=== fn SuRFBuilder::isTerminator
--- spec
requires self.wf(), level < self.h(), pos < self.items(level as int),
ensures r == (level > 0 && self.lv(level as int).lab[pos as int] == 255 && !self.lv(level as int).ch[pos as int]),
--- body-start
assert(self.lvl_ok(level as int));

=== fn SuRFBuilder::addLevel
--- spec
requires old(self).wf(), old(self).h() < 0x100_0000,
ensures final(self).wf(), final(self).same_rest(old(self)), final(self).h() == old(self).h() + 1,
    forall|l: int| #[trigger] final(self).lv(l) == old(self).lv(l),
--- body-end
proof {
    let h = old(self).h();
    lemma_push_zero(Seq::<u64>::empty());
    assert(self.child_indicator_bits_@[h]@ =~= Seq::<u64>::empty().push(0));
    assert(self.louds_bits_@[h]@ =~= Seq::<u64>::empty().push(0));
    assert(0 * self.slen() == 0) by (nonlinear_arith);
    assert forall|l: int| 0 <= l < self.h() implies #[trigger] self.lvl_ok(l) by {
        if l < h { assert(old(self).lvl_ok(l)); assert(self.same_lvl(old(self), l)); }
    }
    assert forall|l: int| #[trigger] self.lv(l) == old(self).lv(l) by {
        if 0 <= l < h { assert(self.same_lvl(old(self), l)); }
        else if l == h { lemma_lvl_eq(self.lv(l), old(self).lv(l)); }
    }
}

=== fn SuRFBuilder::moveToNextItemSlot
--- spec
requires level < old(self).h(), old(self).h() <= 0x100_0000, old(self).items(level as int) <= 0x100_0000,
    old(self).child_indicator_bits_@.len() == old(self).h(), old(self).louds_bits_@.len() == old(self).h(),
ensures
    final(self).same_rest(old(self)),
    final(self).labels_ == old(self).labels_, final(self).suffixes_ == old(self).suffixes_, final(self).suffix_counts_ == old(self).suffix_counts_,
    final(self).node_counts_ == old(self).node_counts_, final(self).is_last_item_terminator_ == old(self).is_last_item_terminator_,
    final(self).child_indicator_bits_@.len() == old(self).h(), final(self).louds_bits_@.len() == old(self).h(),
    forall|l: int| 0 <= l < old(self).h() && l != level ==> #[trigger] final(self).child_indicator_bits_@[l] == old(self).child_indicator_bits_@[l],
    forall|l: int| 0 <= l < old(self).h() && l != level ==> #[trigger] final(self).louds_bits_@[l] == old(self).louds_bits_@[l],
    ({
        let p = old(self).items(level as int) % 64 == 0;
        let c = old(self).child_indicator_bits_@[level as int]@;
        let d = old(self).louds_bits_@[level as int]@;
        &&& final(self).child_indicator_bits_@[level as int]@ == if p { c.push(0) } else { c }
        &&& final(self).louds_bits_@[level as int]@ == if p { d.push(0) } else { d }
    }),

=== fn SuRFBuilder::insertKeyByte
--- spec
requires old(self).wf(), level <= old(self).h(), level < 0x100_0000, level < old(self).h() ==> old(self).items(level as int) < 0x100_0000,
    level > 0 ==> old(self).items(level - 1) > 0,
ensures final(self).wf(), final(self).same_rest(old(self)), final(self).h() == if level == old(self).h() { level + 1 } else { old(self).h() },
    forall|l: int| #[trigger] final(self).lv(l) == if l == level { old(self).lv(l).add(c, false, is_start_of_node, is_term) }
        else if l == level - 1 { old(self).lv(l).parent() } else { old(self).lv(l) },
--- after if 1
let ghost mid = *self;
proof {
    assert(mid.lvl_ok(level as int));
    assert(mid.lv(level as int) == old(self).lv(level as int));
    assert(mid.lv(level as int).lab.len() == mid.items(level as int));
    if level > 0 {
        assert(mid.lvl_ok(level - 1));
        assert(mid.lv(level - 1) == old(self).lv(level - 1));
        assert(mid.lv(level - 1).lab.len() == mid.items(level - 1));
        assert(old(self).lv(level - 1).lab.len() == old(self).items(level - 1));
    }
    if level < old(self).h() { assert(old(self).lv(level as int).lab.len() == old(self).items(level as int)); }
}
--- before call moveToNextItemSlot 1
let ghost m2 = *self;
--- body-end
proof {
    let lv = level as int;
    let n = mid.items(lv);
    lemma_open_push(mid.child_indicator_bits_@[lv]@, m2.child_indicator_bits_@[lv]@, n, false);
    lemma_open_push(mid.louds_bits_@[lv]@, m2.louds_bits_@[lv]@, n, is_start_of_node);
    if lv > 0 { lemma_open_set(mid.child_indicator_bits_@[lv - 1]@, m2.child_indicator_bits_@[lv - 1]@, mid.items(lv - 1), mid.items(lv - 1) - 1); }
    assert forall|l: int| 0 <= l < self.h() implies #[trigger] self.lvl_ok(l) by {
        assert(mid.lvl_ok(l));
        if l < lv - 1 || l > lv { assert(self.same_lvl(&mid, l)); }
    }
    assert forall|l: int| #[trigger] self.lv(l) == if l == level { old(self).lv(l).add(c, false, is_start_of_node, is_term) }
        else if l == level - 1 { old(self).lv(l).parent() } else { old(self).lv(l) } by {
        assert(mid.lv(l) == old(self).lv(l));
        if l == lv { lemma_lvl_eq(self.lv(l), mid.lv(l).add(c, false, is_start_of_node, is_term)); }
        else if l == lv - 1 { lemma_lvl_eq(self.lv(l), mid.lv(l).parent()); }
        else if 0 <= l < self.h() { assert(self.same_lvl(&mid, l)); }
    }
}

=== fn SuRFBuilder::storeSuffix
--- spec
requires old(self).wf(), 1 <= level <= old(self).h(), old(self).suffix_counts_@[level - 1] < 0x100_0000, narrow(suffix, old(self).slen()),
ensures final(self).wf(), final(self).same_rest(old(self)), final(self).h() == old(self).h(),
    forall|l: int| #[trigger] final(self).lv(l) == if l == level - 1 { old(self).lv(l).add_sfx(suffix) } else { old(self).lv(l) },
--- body-start
broadcast use word_arith;
let ghost lv = level - 1;
let ghost c = self.suffix_counts_@[lv] as int;
let ghost s = self.slen();
let ghost ws = self.suffixes_@[lv]@;
let ghost pp = c * s;
proof {
    assert(self.lvl_ok(lv));
    assert(0 <= c * s <= 64 * c) by (nonlinear_arith) requires 0 <= s <= 64, 0 <= c;
    if s == 0 { lemma_fields_push0(ws, c, suffix); }
}
--- after if 2
let ghost w1 = self.suffixes_@[lv]@;
proof {
    lemma_push_zero(ws);
    assert(w1.len() == pp / 64 + 1);
    assert forall|i: int| pp <= i < 64 * w1.len() implies !#[trigger] wbit(w1, i) by { if i < 64 * ws.len() { assert(!wbit(ws, i)); } }
    if pp % 64 + s <= 64 { lemma_add_field1(w1, pp, s, suffix); } else { lemma_add_field2(w1, pp, s, suffix); }
}
--- body-end
proof {
    let v = self.suffixes_@[lv]@;
    if s > 0 {
        assert(appended(ws, v, pp, s, suffix)) by {
            assert forall|i: int| 0 <= i < pp implies #[trigger] wbit(v, i) == wbit(ws, i) by { assert(wbit(v, i) == wbit(w1, i)); }
        }
        lemma_fields_push(ws, v, c, s, suffix);
    }
    assert forall|l: int| 0 <= l < self.h() implies #[trigger] self.lvl_ok(l) by {
        assert(old(self).lvl_ok(l));
        if l != lv { assert(self.same_lvl(old(self), l)); }
    }
    assert forall|l: int| #[trigger] self.lv(l) == if l == level - 1 { old(self).lv(l).add_sfx(suffix) } else { old(self).lv(l) } by {
        if l == lv { lemma_lvl_eq(self.lv(l), old(self).lv(l).add_sfx(suffix)); }
        else if 0 <= l < self.h() { assert(self.same_lvl(old(self), l)); }
    }
}
--- before return 1
proof {
    assert(s == 0 && c * s == 0 && (c + 1) * s == 0) by (nonlinear_arith) requires s == 0;
    assert forall|l: int| 0 <= l < self.h() implies #[trigger] self.lvl_ok(l) by {
        assert(old(self).lvl_ok(l));
        if l != lv { assert(self.same_lvl(old(self), l)); }
    }
    assert forall|l: int| #[trigger] self.lv(l) == if l == level - 1 { old(self).lv(l).add_sfx(suffix) } else { old(self).lv(l) } by {
        if l == lv { lemma_lvl_eq(self.lv(l), old(self).lv(l).add_sfx(suffix)); }
        else if 0 <= l < self.h() { assert(self.same_lvl(old(self), l)); }
    }
}

=== fn SuRFBuilder::insertSuffix
--- spec
requires old(self).wf(), 1 <= level <= old(self).h() + 1, old(self).h() < 0x100_0000, key.b@.len() <= 0x7fff_ffff,
    level <= old(self).h() ==> old(self).suffix_counts_@[level - 1] < 0x100_0000,
ensures final(self).wf(), final(self).same_rest(old(self)), final(self).h() == if level >= old(self).h() { old(self).h() + 1 } else { old(self).h() },
    forall|l: int| #[trigger] final(self).lv(l) == if l == level - 1 { old(self).lv(l).add_sfx(
        suffix_of(old(self).suffix_type_ as int, key.b@, old(self).hash_suffix_len_ as int, level as int, old(self).real_suffix_len_ as int)) } else { old(self).lv(l) },
--- body-start
proof {
    lemma_suffix_narrow(self.suffix_type_ as int, key.b@, self.hash_suffix_len_ as int, level as int, self.real_suffix_len_ as int);
}
--- after if 1
let ghost mid = *self;
proof { 
    assert(mid.lv(level - 1) == old(self).lv(level - 1)); 
    assert(mid.lv(level - 1).sfx.len() == mid.suffix_counts_@[level - 1]);
    if level <= old(self).h() { assert(old(self).lv(level - 1).sfx.len() == old(self).suffix_counts_@[level - 1]); }
}
--- body-end
proof {
    assert forall|l: int| #[trigger] self.lv(l) == if l == level - 1 { old(self).lv(l).add_sfx(
        suffix_of(old(self).suffix_type_ as int, key.b@, old(self).hash_suffix_len_ as int, level as int, old(self).real_suffix_len_ as int)) } else { old(self).lv(l) } by {
        assert(mid.lv(l) == old(self).lv(l));
    }
}

=== mod SuRFBuilder
impl SuRFBuilder {
    /// the key goes on along the last item of level l
    pub open spec fn common(&self, k: Seq<u8>, l: int) -> bool {
        !self.lv(l).term && self.lv(l).lab.len() > 0 && self.lv(l).lab.last() == k[l]
    }
    /// the key has d bytes in common with the last path of the trie
    pub open spec fn skips(&self, k: Seq<u8>, d: int) -> bool {
        &&& 0 <= d <= k.len() && d <= self.h()
        &&& forall|l: int| 0 <= l < d ==> #[trigger] self.common(k, l) && self.lv(l).ch.last()
        &&& d < k.len() && d < self.h() ==> !self.common(k, d) && (self.lv(d).lab.len() > 0 || self.lv(d).term)
    }
    pub proof fn lemma_skips(&self, k: Seq<u8>, d: int, e: int)
        requires self.skips(k, d), self.skips(k, e),
        ensures d == e,
    {
        if d < e { assert(self.common(k, d)); }
        if e < d { assert(self.common(k, e)); }
    }
}

=== fn SuRFBuilder::skipCommonPrefix
--- spec
requires old(self).wf(), key.b@.len() <= 0x7fff_ffff, exists|d: int| old(self).skips(key.b@, d),
ensures final(self).wf(), final(self).same_rest(old(self)), final(self).h() == old(self).h(), old(self).skips(key.b@, r as int),
    forall|l: int| #[trigger] final(self).lv(l) == old(self).lv(l),
--- body-start
let ghost dd = choose|d: int| old(self).skips(key.b@, d);
proof { if dd > 0 { assert(self.common(key.b@, 0)); } }
--- loop 1
invariant
    self.wf(), self.same_rest(old(self)), self.h() == old(self).h(), old(self).skips(key.b@, dd), key.b@.len() <= 0x7fff_ffff,
    0 <= level <= dd, forall|l: int| #[trigger] self.lv(l) == old(self).lv(l),
    level < key.b@.len() && level < self.h() ==> self.items(level as int) > 0 || self.is_last_item_terminator_@[level as int],
decreases dd - level,
--- loop 1 start
let ghost was = *self;
proof {
    let l = level as int;
    assert(self.lvl_ok(l));
    assert(self.lv(l) == old(self).lv(l));
    if l == dd { assert(old(self).lv(l).lab.len() > 0 || old(self).lv(l).term); assert(old(self).common(key.b@, l)); }
    assert(old(self).common(key.b@, l));
    assert(self.lv(l).ch.len() == self.items(l));
}
--- loop 1 end
proof {
    let l = level - 1;
    let n = was.items(l);
    let v = self.child_indicator_bits_@[l]@;
    let w = was.child_indicator_bits_@[l]@;
    lemma_open_set(w, v, n, n - 1);
    assert forall|k: int| 0 <= k < self.h() implies #[trigger] self.lvl_ok(k) by {
        assert(was.lvl_ok(k));
        if k != l { assert(self.same_lvl(&was, k)); }
    }
    assert forall|k: int| #[trigger] self.lv(k) == old(self).lv(k) by {
        assert(was.lv(k) == old(self).lv(k));
        if k == l { lemma_lvl_eq(self.lv(k), was.lv(k)); }
        else if 0 <= k < self.h() { assert(self.same_lvl(&was, k)); }
    }
    assert(self.lv(level as int) == old(self).lv(level as int));
    if level < dd { assert(old(self).common(key.b@, level as int)); }
}
--- before return 1
proof {
    let l = level as int;
    if l < dd { assert(old(self).common(key.b@, l)); assert(self.lv(l) == old(self).lv(l)); }
}

=== fn SuRFBuilder::insertKeyBytesToTrieUntilUnique
--- spec
requires old(self).wf(), start_level < key.b@.len() <= 0xff_fff0, next_key.b@.len() <= 0xff_fff0, start_level <= old(self).h(),
    start_level > 0 ==> old(self).lv(start_level - 1).ch.len() > 0 && old(self).lv(start_level - 1).ch.last(),
    forall|l: int| #[trigger] old(self).lv(l).lab.len() < 0x100_0000,
ensures final(self).wf(), final(self).same_rest(old(self)), final(self).h() == maxl(old(self).h(), r as int),
    r == 1 + maxl(start_level as int, lcp(key.b@, next_key.b@)),
    forall|l: int| #[trigger] final(self).lv(l) == if start_level <= l < r {
        old(self).lv(l).add(sym(key.b@, l), l < r - 1, l > start_level || old(self).lv(l).lab.len() == 0, l >= key.b@.len()) } else { old(self).lv(l) },
--- body-start
let ghost st = start_level as int;
let ghost k = key.b@;
let ghost empty = old(self).lv(st).lab.len() == 0;
proof {
    lemma_lcp(key.b@, next_key.b@);
    assert(old(self).lv(st).lab.len() < 0x100_0000);
    if st < old(self).h() { assert(old(self).lv(st).lab.len() == old(self).items(st)); }
    if st > 0 { assert(old(self).lv(st - 1).lab.len() == old(self).items(st - 1)); lemma_parent_id(old(self).lv(st - 1)); }
}
--- before if 2
proof {
    assert forall|l: int| #[trigger] self.lv(l) == if st <= l < st + 1 {
        old(self).lv(l).add(sym(k, l), l < st, l > st || old(self).lv(l).lab.len() == 0, l >= k.len()) } else { old(self).lv(l) } by { }
    if next_key.b@.len() >= level {
        let a = k.subrange(0, level as int);
        let b = next_key.b@.subrange(0, level as int);
        if a == b {
            assert forall|i: int| 0 <= i < level implies k[i] == next_key.b@[i] by { assert(a[i] == b[i]); }
            if lcp(k, next_key.b@) < level { assert(a[lcp(k, next_key.b@)] == b[lcp(k, next_key.b@)]); }
        } else {
            if lcp(k, next_key.b@) >= level { assert(a =~= b); }
        }
    }
}
--- loop 1
invariant
    self.wf(), self.same_rest(old(self)), k == key.b@, k.len() <= 0xff_fff0, st == start_level, st < level, !is_term, is_start_of_node,
    level <= lcp(k, next_key.b@), self.h() == maxl(old(self).h(), level as int),
    forall|l: int| #[trigger] old(self).lv(l).lab.len() < 0x100_0000,
    forall|l: int| #[trigger] self.lv(l) == if st <= l < level {
        old(self).lv(l).add(sym(k, l), l < level - 1, l > st || old(self).lv(l).lab.len() == 0, l >= k.len()) } else { old(self).lv(l) },
decreases k.len() - level,
--- loop 1 start
let ghost was = *self;
proof {
    lemma_lcp(k, next_key.b@);
    if level < self.h() { assert(self.lv(level as int).lab.len() == self.items(level as int)); assert(old(self).lv(level as int).lab.len() < 0x100_0000); }
    assert(self.lv(level - 1).lab.len() == self.items(level - 1));
}
--- loop 1 end
proof {
    let e = level - 1;
    assert forall|l: int| #[trigger] self.lv(l) == if st <= l < level {
        old(self).lv(l).add(sym(k, l), l < level - 1, l > st || old(self).lv(l).lab.len() == 0, l >= k.len()) } else { old(self).lv(l) } by {
        let o = old(self).lv(l);
        assert(was.lv(l) == was.lv(l));
        if l == e - 1 { lemma_add_parent(o, sym(k, l), l > st || o.lab.len() == 0, l >= k.len()); }
    }
}
--- after loop 1
let ghost was = *self;
proof {
    lemma_lcp(k, next_key.b@);
    assert(level == lcp(k, next_key.b@));
    if level < self.h() { assert(self.lv(level as int).lab.len() == self.items(level as int)); assert(old(self).lv(level as int).lab.len() < 0x100_0000); }
    assert(self.lv(level - 1).lab.len() == self.items(level - 1));
}
--- before return 2
proof {
    let e = level - 1;
    assert forall|l: int| #[trigger] self.lv(l) == if st <= l < level {
        old(self).lv(l).add(sym(k, l), l < level - 1, l > st || old(self).lv(l).lab.len() == 0, l >= k.len()) } else { old(self).lv(l) } by {
        let o = old(self).lv(l);
        assert(was.lv(l) == was.lv(l));
        if l == e - 1 { lemma_add_parent(o, sym(k, l), l > st || o.lab.len() == 0, l >= k.len()); }
    }
}

=== mod SuRFBuilder
impl SuRFBuilder {
    pub open spec fn cfg(&self) -> Cfg { Cfg { ty: self.suffix_type_ as int, hl: self.hash_suffix_len_ as int, rl: self.real_suffix_len_ as int } }
    /// the sparse vectors hold the trie of the first m keys
    pub open spec fn holds(&self, ks: Keys, m: int) -> bool {
        &&& self.wf()
        &&& forall|l: int| #[trigger] self.lv(l) == tl(ks, self.cfg(), m, l)
    }
    /// the last level is empty
    pub open spec fn topped(&self) -> bool { self.h() >= 2 && self.lv(self.h() - 1).lab.len() == 0 && self.lv(self.h() - 1).sfx.len() == 0 }
    pub proof fn lemma_holds_skips(&self, ks: Keys, m: int)
        requires self.holds(ks, m), keys_ok(ks), 0 <= m < ks.len(), m == 0 ==> self.h() == 0,
        ensures self.skips(ks[m], maxl(dep(ks, m), 0)),
    {
        let k = ks[m];
        let d = maxl(dep(ks, m), 0);
        lemma_dep(ks, m);
        if m > 0 {
            lemma_dep(ks, m - 1);
            assert forall|l: int| 0 <= l < d implies #[trigger] self.common(k, l) && self.lv(l).ch.last() by {
                lemma_tl_last(ks, self.cfg(), m - 1, l);
                assert(self.lv(l) == tl(ks, self.cfg(), m, l));
                assert(ks[m][l] == ks[m - 1][l]);
            }
            lemma_tl_last(ks, self.cfg(), m - 1, d);
            assert(self.lv(d) == tl(ks, self.cfg(), m, d));
        }
    }
}

=== fn SuRFBuilder::buildSparse
--- spec
requires old(self).wf(), old(self).h() == 0, sorted_ok(strs(keys@)),
ensures final(self).same_rest(old(self)), final(self).holds(dd(strs(keys@), keys@.len() as int), dd(strs(keys@), keys@.len() as int).len() as int), final(self).topped(), final(self).h() <= 0xff_fff2,
--- body-start
hide(tl); hide(SuRFBuilder::lv);
let ghost rs = strs(keys@);
let ghost n = keys@.len() as int;
let ghost ks = dd(rs, n);
let ghost c = self.cfg();
proof {
    lemma_dd_ok(rs, n);
    lemma_dd_prefix(rs, 0, n);
    assert forall|l: int| #[trigger] self.lv(l) == tl(ks, c, 0, l) by { reveal(tl); reveal(SuRFBuilder::lv); }
    assert(dd(rs, 0).len() == 0);
}
--- loop 1
invariant
    rs == strs(keys@), n == keys@.len(), ks == dd(rs, n), sorted_ok(rs), keys_ok(ks), i <= n, n <= 0xff_fff0,
    forall|i: int| 0 <= i < ks.len() ==> 0 < (#[trigger] ks[i]).len() <= 0xff_fff0,
    0 < i < n ==> rs[i as int] != rs[i - 1],
    self.same_rest(old(self)), self.holds(ks, dd(rs, i as int).len() as int), self.h() <= 0xff_fff2,
    i == 0 ==> self.h() == 0, i > 0 ==> self.topped(),
decreases n - i,
--- loop 1 start
let ghost old_i = i;
let ghost m = dd(rs, i as int).len() as int;
let ghost c = self.cfg();
let ghost was = *self;
proof {
    assert(dd(rs, i + 1) == dd(rs, i as int).push(rs[i as int]));
    lemma_dd_prefix(rs, i + 1, n);
    lemma_dd_prefix(rs, 0, i as int);
    assert(dd(rs, i + 1)[m] == rs[i as int]);
    assert(ks[m] == rs[i as int]);
    assert(i > 0 ==> m > 0) by { if i > 0 { lemma_dd_prefix(rs, 1, i as int); assert(dd(rs, 1).len() == 1) by { reveal_with_fuel(dd, 2); } } }
    self.lemma_holds_skips(ks, m);
}
--- loop 2
invariant
    rs == strs(keys@), n == keys@.len(), ks == dd(rs, n), curpos <= i < n, n <= 0xff_fff0,
    rs[i as int] == rs[curpos as int], dd(rs, i + 1).len() == m + 1,
decreases n - i,
--- after loop 2
let ghost d = maxl(dep(ks, m), 0);
let ghost k = ks[m];
proof {
    was.lemma_skips(k, level as int, d);
    lemma_dep(ks, m);
    lemma_dd_prefix(rs, i + 1, n);
    assert(ks[m] == rs[i as int]);
    if i + 1 < n {
        lemma_dd_prefix(rs, i + 2, n);
        assert(dd(rs, i + 2) == dd(rs, i + 1).push(rs[i + 1]));
        assert(dd(rs, i + 2)[m + 1] == rs[i + 1]);
        assert(ks[m + 1] == rs[i + 1]);
    } else {
        assert(ks.len() == m + 1);
    }
    assert forall|l: int| #[trigger] self.lv(l).lab.len() < 0x100_0000 by { lemma_tl_len(ks, c, m, l); assert(self.lv(l) == was.lv(l)); assert(was.lv(l) == tl(ks, c, m, l)); }
    assert(self.cfg() == c);
    if d > 0 {
        assert(was.common(k, d - 1));
        lemma_tl_len(ks, c, m, d - 1);
        assert(self.lv(d - 1) == was.lv(d - 1));
        assert(was.lv(d - 1) == tl(ks, c, m, d - 1));
    }
}
let ghost was2 = *self;
--- before call insertSuffix 1
let ghost was3 = *self;
proof {
    if i + 1 < n { lemma_dep(ks, m + 1); }
    else { lemma_lcp(k, Seq::<u8>::empty()); }
    assert(level == leaf(ks, m) + 1);
    assert forall|l: int| #[trigger] self.lv(l).sfx.len() < 0x100_0000 by { lemma_tl_len(ks, c, m, l); assert(was2.lv(l) == was.lv(l)); assert(was.lv(l) == tl(ks, c, m, l)); }
    if level <= self.h() { assert(self.lv(level - 1).sfx.len() == self.suffix_counts_@[level - 1]) by { reveal(SuRFBuilder::lv); } }
}
--- loop 1 end
proof {
    assert(dd(rs, i + 1).len() == m + 1);
    lemma_dep(ks, m);
    assert(self.cfg() == c);
    assert(self.topped()) by {
        let top = self.h() - 1;
        assert(self.lv(top).lab == was3.lv(top).lab);
        if level >= was3.h() {
            assert(was3.lv(top) == Lvl::none()) by { reveal(SuRFBuilder::lv); }
        } else {
            assert(was3.h() == was.h());
            assert(was3.lv(top) == was2.lv(top));
            assert(was2.lv(top) == was.lv(top));
            if old_i == 0 { } else { assert(was.topped()); }
        }
    }
    assert forall|l: int| #[trigger] self.lv(l) == tl(ks, c, m + 1, l) by {
        assert(was3.lv(l) == was3.lv(l));
        assert(was2.lv(l) == was.lv(l));
        assert(was.lv(l) == tl(ks, c, m, l));
        lemma_tl_step(ks, c, m, l);
    }
}

=== mod SuRFBuilder
impl SuRFBuilder {
    pub open spec fn same_cfg(&self, o: &SuRFBuilder) -> bool {
        &&& self.include_dense_ == o.include_dense_ && self.sparse_dense_ratio_ == o.sparse_dense_ratio_
        &&& self.suffix_type_ == o.suffix_type_
        &&& self.hash_suffix_len_ == o.hash_suffix_len_ && self.real_suffix_len_ == o.real_suffix_len_
    }
    /// everything but the dense bitmaps and the level they end at
    pub open spec fn same_sparse(&self, o: &SuRFBuilder) -> bool {
        &&& self.same_cfg(o)
        &&& self.labels_ == o.labels_ && self.child_indicator_bits_ == o.child_indicator_bits_ && self.louds_bits_ == o.louds_bits_
        &&& self.suffixes_ == o.suffixes_ && self.suffix_counts_ == o.suffix_counts_ && self.node_counts_ == o.node_counts_
        &&& self.is_last_item_terminator_ == o.is_last_item_terminator_
    }
    pub open spec fn lvls_wf(&self) -> bool { forall|l: int| 0 <= l < self.h() ==> lvl_wf(#[trigger] self.lv(l)) }
    pub open spec fn dense_len(&self, n: int) -> bool {
        self.bitmap_labels_@.len() == n && self.bitmap_child_indicator_bits_@.len() == n && self.prefixkey_indicator_bits_@.len() == n
    }
    /// the bitmaps of level l after n items
    pub open spec fn dense_at(&self, l: int, n: int) -> bool {
        &&& words_are(self.bitmap_labels_@[l]@, dlab(self.lv(l), l, n))
        &&& words_are(self.bitmap_child_indicator_bits_@[l]@, dch(self.lv(l), l, n))
        &&& words_are(self.prefixkey_indicator_bits_@[l]@, dpre(self.lv(l), l, n))
    }
    pub open spec fn same_dense_at(&self, o: &SuRFBuilder, l: int) -> bool {
        self.bitmap_labels_@[l] == o.bitmap_labels_@[l] && self.bitmap_child_indicator_bits_@[l] == o.bitmap_child_indicator_bits_@[l]
        && self.prefixkey_indicator_bits_@[l] == o.prefixkey_indicator_bits_@[l]
    }
    pub proof fn lemma_frame(&self, o: &SuRFBuilder)
        requires self.same_sparse(o),
        ensures self.wf() == o.wf(), self.lvls_wf() == o.lvls_wf(), self.h() == o.h(), self.cfg() == o.cfg(),
            forall|l: int| #[trigger] self.lv(l) == o.lv(l),
            forall|l: int| #[trigger] self.items(l) == o.items(l),
    {
        assert forall|l: int| #[trigger] self.lv(l) == o.lv(l) by { }
        assert forall|l: int| #[trigger] self.lvl_ok(l) == o.lvl_ok(l) by { }
        if self.wf() { assert forall|l: int| 0 <= l < o.h() implies #[trigger] o.lvl_ok(l) by { assert(self.lvl_ok(l)); } }
        if o.wf() { assert forall|l: int| 0 <= l < o.h() implies #[trigger] self.lvl_ok(l) by { assert(o.lvl_ok(l)); } }
        if self.lvls_wf() { assert forall|l: int| 0 <= l < o.h() implies lvl_wf(#[trigger] o.lv(l)) by { assert(self.lv(l) == o.lv(l)); } }
    }
    /// earlier levels stay as they are
    pub proof fn lemma_dense_frame(&self, o: &SuRFBuilder, n: int)
        requires self.same_sparse(o), forall|l: int| 0 <= l < n ==> #[trigger] self.same_dense_at(o, l),
            forall|l: int| 0 <= l < n ==> #[trigger] o.dense_at(l, o.items(l)),
        ensures forall|l: int| 0 <= l < n ==> #[trigger] self.dense_at(l, self.items(l)),
    {
        self.lemma_frame(o);
        assert forall|l: int| 0 <= l < n implies #[trigger] self.dense_at(l, self.items(l)) by {
            assert(self.same_dense_at(o, l)); assert(o.dense_at(l, o.items(l))); assert(self.lv(l) == o.lv(l));
        }
    }
    pub open spec fn dense_ok(&self) -> bool {
        &&& self.dense_len(self.sparse_start_level_ as int)
        &&& self.sparse_start_level_ <= self.h()
        &&& forall|l: int| 0 <= l < self.sparse_start_level_ ==> #[trigger] self.dense_at(l, self.items(l))
    }
}

=== mod SuRFBuilder
impl SuRFBuilder {
    pub open spec fn rows(&self) -> Rows<u8> { |l: int| self.lv(l).lab }
    pub open spec fn lean_at(&self, l: int) -> bool { self.lv(l).sfx.len() <= self.lv(l).lab.len() }
    /// small enough for the memory estimates, and closed by an empty level
    pub open spec fn lean(&self) -> bool {
        &&& self.wf() && self.topped() && self.h() <= 0xff_fff2
        &&& flen(self.rows(), 0, self.h()) <= 0xff_0000
        &&& forall|l: int| 0 <= l < self.h() ==> #[trigger] self.lean_at(l)
        &&& self.node_counts_@[0] == 1
    }
}

=== fn SuRFBuilder::computeDenseMem
--- spec
requires self.lean(), downto_level <= self.h(),
ensures r <= 0x2_2000_0000, downto_level > 0 ==> r >= 512,
--- loop 1
invariant self.lean(), downto_level <= self.h(), level <= downto_level,
    mem <= 520 * flen(self.rows(), 0, level as int) + flen(self.rows(), 0, level - 1) + level, level > 0 ==> mem >= 512,
    flen(self.rows(), 0, level as int) <= 0xff_0000,
    flen(self.rows(), 0, level - 1) <= 0xff_0000,
decreases downto_level - level,
--- loop 1 start
proof {
    let l = level as int;
    assert(self.lvl_ok(l)); assert(self.lean_at(l));
    assert(self.lv(l).lab.len() == self.items(l));
    assert(self.lv(l).sfx.len() == self.suffix_counts_@[l]);
    lemma_flen_mono(self.rows(), 0, l + 1, self.h());
    lemma_flen_mono(self.rows(), 0, l, l + 1);
    if l > 0 { lemma_flen_mono(self.rows(), 0, l - 1, l); assert(self.lvl_ok(l - 1)); assert(self.lv(l - 1).lab.len() == self.items(l - 1)); }
    assert(0 <= self.suffix_counts_@[l] * self.slen() <= 64 * self.suffix_counts_@[l]) by (nonlinear_arith) requires 0 <= self.slen() <= 64, self.suffix_counts_@[l] >= 0;
    assert(self.node_counts_@[l] <= self.items(l));
}


=== fn SuRFBuilder::computeSparseMem
--- spec
requires self.wf(), self.topped(),
ensures start_level == self.h() - 1 ==> r <= 1,
--- loop 1
invariant self.wf(), self.topped(), start_level <= level,
    start_level == self.h() - 1 ==> (level == start_level ==> mem == 0) && (level > start_level ==> mem <= 1),
decreases self.h() - level,
--- loop 1 start
proof {
    let l = level as int;
    assert(self.lvl_ok(l));
    if l == self.h() - 1 { assert(self.lv(l).lab.len() == self.items(l)); assert(self.lv(l).sfx.len() == self.suffix_counts_@[l]); assert(0 * self.slen() == 0) by (nonlinear_arith); }
}

=== fn SuRFBuilder::determineCutoffLevel
--- spec
requires old(self).lean(), 1 <= old(self).sparse_dense_ratio_ <= 0x7000_0000,
ensures final(self).same_sparse(old(self)), final(self).sparse_start_level_ < final(self).h(),
    final(self).bitmap_labels_ == old(self).bitmap_labels_, final(self).bitmap_child_indicator_bits_ == old(self).bitmap_child_indicator_bits_,
    final(self).prefixkey_indicator_bits_ == old(self).prefixkey_indicator_bits_,
--- loop 1
invariant self.lean(), 1 <= self.sparse_dense_ratio_ <= 0x7000_0000, cutoff_level <= self.h() - 1,
    cutoff_level > 0 ==> dense_mem >= 512, dense_mem <= 0x2_2000_0000,
    cutoff_level == self.h() - 1 ==> sparse_mem <= 1,
    self == old(self),
decreases self.h() - cutoff_level,
--- loop 1 start
proof {
    let a = dense_mem as int; let b = self.sparse_dense_ratio_ as int;
    assert(0 <= a * b <= 0x2_2000_0000 * 0x7000_0000) by (nonlinear_arith) requires 0 <= a <= 0x2_2000_0000, 1 <= b <= 0x7000_0000;
    if a >= 512 { assert(a * b >= 512) by (nonlinear_arith) requires a >= 512, b >= 1; }
    assert(cutoff_level < self.h() - 1);
}

=== fn SuRFBuilder::initDenseVectors
--- spec
requires old(self).wf(), level < old(self).h(), old(self).dense_len(level as int),
ensures final(self).same_sparse(old(self)), final(self).sparse_start_level_ == old(self).sparse_start_level_, final(self).dense_len(level + 1),
    forall|l: int| 0 <= l < level ==> #[trigger] final(self).same_dense_at(old(self), l),
    final(self).dense_at(level as int, 0),
--- loop 1
invariant self.wf(), level < self.h(), self.same_sparse(old(self)), self.sparse_start_level_ == old(self).sparse_start_level_, self.dense_len(level + 1),
    forall|l: int| 0 <= l < level ==> #[trigger] self.same_dense_at(old(self), l),
    nc <= self.node_counts_@[level as int],
    words_are(self.bitmap_labels_@[level as int]@, zeros(256 * nc)),
    words_are(self.bitmap_child_indicator_bits_@[level as int]@, zeros(256 * nc)),
    words_are(self.prefixkey_indicator_bits_@[level as int]@, zeros(nc as int)),
decreases self.node_counts_@[level as int] - nc,
--- loop 2
invariant self.wf(), level < self.h(), self.same_sparse(old(self)), self.sparse_start_level_ == old(self).sparse_start_level_, self.dense_len(level + 1),
    forall|l: int| 0 <= l < level ==> #[trigger] self.same_dense_at(old(self), l),
    nc < self.node_counts_@[level as int],
    0 <= i <= 256, i % 64 == 0,
    words_are(self.bitmap_labels_@[level as int]@, zeros(256 * nc + i)),
    words_are(self.bitmap_child_indicator_bits_@[level as int]@, zeros(256 * nc + i)),
    words_are(self.prefixkey_indicator_bits_@[level as int]@, zeros(nc as int)),
decreases 256 - i,
--- before loop 1
proof {
    self.lemma_frame(old(self));
    assert forall|l: int| 0 <= l < level implies #[trigger] self.same_dense_at(old(self), l) by { }
}
--- loop 2 start
let ghost w2 = *self;
proof {
    lemma_push_zero(self.bitmap_labels_@[level as int]@);
    lemma_push_zero(self.bitmap_child_indicator_bits_@[level as int]@);
}
--- loop 2 end
proof {
    self.lemma_frame(&w2);
    assert forall|l: int| 0 <= l < level implies #[trigger] self.same_dense_at(old(self), l) by { assert(w2.same_dense_at(old(self), l)); }
}
--- before if 1
let ghost w3 = *self;
proof { lemma_push_zero(self.prefixkey_indicator_bits_@[level as int]@); }
--- loop 1 end
proof {
    let w = self.prefixkey_indicator_bits_@[level as int]@;
    assert(w.len() == (nc + 1 + 63) / 64);
    self.lemma_frame(&w3);
    assert forall|l: int| 0 <= l < level implies #[trigger] self.same_dense_at(old(self), l) by { assert(w3.same_dense_at(old(self), l)); }
}

=== fn SuRFBuilder::setLabelAndChildIndicatorBitmap
--- spec
requires old(self).wf(), old(self).lvls_wf(), level < old(self).h(), pos < old(self).items(level as int), level < old(self).bitmap_labels_@.len(), old(self).dense_len(old(self).bitmap_labels_@.len() as int),
    old(self).dense_at(level as int, pos as int), node_num == node_of(old(self).lv(level as int), pos as int),
    !is_term(old(self).lv(level as int), level as int, pos as int),
ensures final(self).same_sparse(old(self)), final(self).sparse_start_level_ == old(self).sparse_start_level_,
    final(self).dense_len(old(self).bitmap_labels_@.len() as int),
    forall|l: int| 0 <= l < old(self).bitmap_labels_@.len() && l != level ==> #[trigger] final(self).same_dense_at(old(self), l),
    final(self).dense_at(level as int, pos + 1),
--- body-start
let ghost lv = level as int;
let ghost x = self.lv(lv);
proof {
    assert(self.lvl_ok(lv));
    lemma_node_of(x, pos as int);
    lemma_dlens(x, lv, pos as int);
}
--- body-end
proof {
    assert(self.lv(lv) == x);
    lemma_words_set(old(self).bitmap_labels_@[lv]@, self.bitmap_labels_@[lv]@, dlab(x, lv, pos as int), code(x, pos as int));
    if x.ch[pos as int] {
        lemma_words_set(old(self).bitmap_child_indicator_bits_@[lv]@, self.bitmap_child_indicator_bits_@[lv]@, dch(x, lv, pos as int), code(x, pos as int));
    }
}

=== fn SuRFBuilder::buildDense
--- spec
requires old(self).wf(), old(self).lvls_wf(), old(self).dense_len(0), old(self).sparse_start_level_ <= old(self).h(),
ensures final(self).same_sparse(old(self)), final(self).sparse_start_level_ == old(self).sparse_start_level_, final(self).dense_ok(),
--- loop 1
invariant self.wf(), self.lvls_wf(), self.same_sparse(old(self)), self.sparse_start_level_ == old(self).sparse_start_level_,
    self.sparse_start_level_ <= self.h(), self.dense_len(level as int), level <= self.sparse_start_level_,
    forall|l: int| 0 <= l < level ==> #[trigger] self.dense_at(l, self.items(l)),
decreases self.sparse_start_level_ - level,
--- loop 1 start
let ghost was = *self;
let ghost lv = level as int;
let ghost x = self.lv(lv);
proof { assert(self.lvl_ok(lv)); assert(lvl_wf(x)); }
--- before if 1
let ghost w2 = *self;
proof { self.lemma_frame(&was); self.lemma_dense_frame(&was, lv); lemma_dlens(x, lv, 0); if x.lab.len() > 0 { lemma_node_of(x, 0); assert(node_of(x, 0) == 0) by { reveal_with_fuel(cnt, 2); } } }
--- before loop 2
proof {
    self.lemma_frame(&w2); self.lemma_dense_frame(&w2, lv);
    assert(self.dense_at(lv, 1)) by {
        if is_term(x, lv, 0) { lemma_words_set(w2.prefixkey_indicator_bits_@[lv]@, self.prefixkey_indicator_bits_@[lv]@, dpre(x, lv, 0), 0); }
    }
}
--- loop 2
invariant self.wf(), self.lvls_wf(), self.same_sparse(old(self)), self.sparse_start_level_ == old(self).sparse_start_level_,
    self.sparse_start_level_ <= self.h(), self.dense_len(level + 1), level < self.sparse_start_level_, lv == level, x == self.lv(lv),
    forall|l: int| 0 <= l < level ==> #[trigger] self.dense_at(l, self.items(l)),
    1 <= pos <= self.items(level as int), self.items(level as int) <= 0x100_0000, self.dense_at(level as int, pos as int), node_num == node_of(self.lv(level as int), pos - 1),
decreases self.items(level as int) - pos,
--- loop 2 start
let ghost w4 = *self;
proof {
    assert(self.lvl_ok(lv)); assert(lvl_wf(x)); lemma_node_of(x, pos as int); lemma_dlens(x, lv, pos as int); lemma_node_of(x, pos - 1);
}
--- loop 2 end
proof {
    self.lemma_frame(&w4);
    assert forall|l: int| 0 <= l < level implies #[trigger] self.same_dense_at(&w4, l) by { }
    self.lemma_dense_frame(&w4, lv);
    assert(self.dense_at(lv, pos + 1)) by {
        if is_term(x, lv, pos as int) { lemma_words_set(w4.prefixkey_indicator_bits_@[lv]@, self.prefixkey_indicator_bits_@[lv]@, dpre(x, lv, pos as int), node_of(x, pos as int)); }
    }
}
--- before continue 2
proof {
    self.lemma_frame(&w4);
    assert forall|l: int| 0 <= l < level implies #[trigger] self.same_dense_at(&w4, l) by { }
    self.lemma_dense_frame(&w4, lv);
    assert(self.dense_at(lv, pos + 1)) by {
        lemma_words_set(w4.prefixkey_indicator_bits_@[lv]@, self.prefixkey_indicator_bits_@[lv]@, dpre(x, lv, pos as int), node_of(x, pos as int));
    }
}

=== mod SuRFBuilder
impl SuRFBuilder {
    pub open spec fn fresh(&self) -> bool {
        self.wf() && self.h() == 0 && self.dense_len(0) && self.sparse_start_level_ == 0
    }
    /// the whole trie of the keys, the upper levels also in dense form
    pub open spec fn built(&self, ks: Keys) -> bool {
        &&& self.holds(ks, ks.len() as int)
        &&& self.topped()
        &&& self.sparse_start_level_ < self.h()
        &&& self.dense_ok()
    }
    pub proof fn lemma_lean(&self, ks: Keys)
        requires self.holds(ks, ks.len() as int), self.topped(), keys_ok(ks), small(ks), self.h() <= 0xff_fff2,
        ensures self.lean(), self.lvls_wf(),
    {
        let c = self.cfg();
        let m = ks.len() as int;
        lemma_total(ks, c, m, self.h());
        assert forall|l: int| 0 <= l < self.h() implies #[trigger] self.rows()(l) == lab_rows(ks, c, m)(l) by { assert(self.lv(l) == tl(ks, c, m, l)); }
        lemma_fcat_ext(self.rows(), lab_rows(ks, c, m), 0, self.h());
        assert forall|l: int| 0 <= l < self.h() implies lvl_wf(#[trigger] self.lv(l)) by { lemma_tl_wf(ks, c, m, l); }
        assert forall|l: int| 0 <= l < self.h() implies #[trigger] self.lean_at(l) by {
            assert(self.lv(l) == tl(ks, c, m, l));
            lemma_sfx_count(ks, c, m, l);
            lemma_cnt_bounds(tl(ks, c, m, l).ch, tl(ks, c, m, l).lab.len() as int);
            lemma_tl_len(ks, c, m, l);
        }
        lemma_dep(ks, 0);
        lemma_item(ks, c, 0, 0);
        lemma_root_nodes(ks, c, m);
        assert(self.lv(0) == tl(ks, c, m, 0));
    }
}

=== fn SuRFBuilder::new_5
--- spec
requires hash_suffix_len + real_suffix_len <= 64, suffix_type <= 3,
ensures r.fresh(), r.cfg() == (Cfg { ty: suffix_type as int, hl: hash_suffix_len as int, rl: real_suffix_len as int }), r.include_dense_ == include_dense,
    r.sparse_dense_ratio_ == sparse_dense_ratio,

=== fn SuRFBuilder::build
--- spec
requires old(self).fresh(), sorted_ok(strs(keys@)), small(dd(strs(keys@), keys@.len() as int)), 1 <= old(self).sparse_dense_ratio_ <= 0x7000_0000,
ensures final(self).built(dd(strs(keys@), keys@.len() as int)), final(self).cfg() == old(self).cfg(), !old(self).include_dense_ ==> final(self).sparse_start_level_ == 0,
    final(self).include_dense_ == old(self).include_dense_, final(self).h() <= 0xff_fff2,
--- before if 1
let ghost was = *self;
proof {
    let rs = strs(keys@);
    let ks = dd(rs, keys@.len() as int);
    lemma_dd_ok(rs, keys@.len() as int);
    self.lemma_lean(ks);
}
--- before call buildDense 1
proof { self.lemma_frame(&was); }
--- body-end
proof { self.lemma_frame(&was); }

=== fn SuRFBuilder::new_0
--- spec
