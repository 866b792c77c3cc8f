// The trie of a key list, its sparse levels written one after the other.
verus! {
/// keys, suffix configuration, first sparse level, height (the last level is empty)
pub ghost struct Tr { pub ks: Keys, pub c: Cfg, pub s: int, pub h: int }
pub open spec fn no_items(x: Lvl) -> bool { x.lab.len() == 0 && x.sfx.len() == 0 }
impl Tr {
    pub open spec fn v(self, l: int) -> Lvl { tv(self.ks, self.c, l) }
    pub open spec fn rlab(self) -> Rows<u8> { |l: int| self.v(l).lab }
    pub open spec fn rch(self) -> Rows<bool> { |l: int| self.v(l).ch }
    pub open spec fn rlo(self) -> Rows<bool> { |l: int| self.v(l).lo }
    pub open spec fn rsfx(self) -> Rows<u64> { |l: int| self.v(l).sfx }
    pub open spec fn labs(self) -> Seq<u8> { fcat(self.rlab(), self.s, self.h) }
    pub open spec fn chs(self) -> Seq<bool> { fcat(self.rch(), self.s, self.h) }
    pub open spec fn los(self) -> Seq<bool> { fcat(self.rlo(), self.s, self.h) }
    pub open spec fn sfxs(self) -> Seq<u64> { fcat(self.rsfx(), self.s, self.h) }
    pub open spec fn ok(self) -> bool {
        &&& keys_ok(self.ks) && self.c.ok() && small(self.ks)
        &&& 0 <= self.s < self.h <= 0xff_fff2
        &&& forall|l: int| self.h - 1 <= l ==> no_items(#[trigger] self.v(l))
    }
    pub open spec fn n(self) -> int { self.ks.len() as int }
    /// first position of level l, number of items
    pub open spec fn cut(self, l: int) -> int { flen(self.rlab(), self.s, l) }
    pub open spec fn total(self) -> int { self.cut(self.h) }
    /// position of key j's item at level l
    pub open spec fn fp(self, j: int, l: int) -> int { self.cut(l) + pth(self.ks, self.c, j, l) }
    /// number of nodes at levels a to b - 1
    pub open spec fn ns(self, a: int, b: int) -> int
        decreases b - a,
    {
        if b <= a { 0 } else { self.ns(a, b - 1) + self.v(b - 1).nodes }
    }
    /// number of key j's node at level l among all nodes
    pub open spec fn gn(self, j: int, l: int) -> int { self.ns(0, l) + nno(self.ks, self.c, j, l) }
    pub open spec fn has(self, j: int, l: int) -> bool { has(self.ks, j, l) }
    /// keys a to b are those of one node of level l
    pub open spec fn node(self, a: int, b: int, l: int) -> bool {
        &&& a <= b && self.has(a, l) && self.has(b, l) && sh(self.ks, a, b, l)
        &&& dep(self.ks, a) < l
        &&& b + 1 == self.n() || dep(self.ks, b + 1) < l
    }

    pub proof fn lemma_rows(self, e: int)
        ensures flen(self.rch(), self.s, e) == self.cut(e), flen(self.rlo(), self.s, e) == self.cut(e), 0 <= self.cut(e),
        decreases e - self.s,
    {
        lemma_flen(self.rlab(), self.s, e);
        if e > self.s { self.lemma_rows(e - 1); lemma_tl_len(self.ks, self.c, self.n(), e - 1); }
    }
    pub proof fn lemma_ns(self, e: int)
        requires keys_ok(self.ks), 0 <= self.s <= e,
        ensures fcnt(self.rlo(), self.s, e) == self.ns(self.s, e), fcnt(self.rch(), self.s, e) == self.ns(self.s + 1, e + 1),
        decreases e,
    {
        if e > self.s {
            self.lemma_ns(e - 1);
            lemma_tl_wf(self.ks, self.c, self.n(), e - 1);
            lemma_children(self.ks, self.c, self.n(), e - 1);
            lemma_tl_len(self.ks, self.c, self.n(), e - 1);
        }
    }
    pub proof fn lemma_ns_split(self, a: int, b: int, e: int)
        requires a <= b <= e,
        ensures self.ns(a, e) == self.ns(a, b) + self.ns(b, e), self.ns(a, b) >= 0, self.ns(b, e) >= 0,
        decreases e - a,
    {
        if b < e { self.lemma_ns_split(a, b, e - 1); lemma_tl_len(self.ks, self.c, self.n(), e - 1); }
        else if a < b { self.lemma_ns_split(a, b - 1, b - 1); lemma_tl_len(self.ks, self.c, self.n(), b - 1); }
    }
    pub proof fn lemma_ns_le(self, e: int)
        ensures 0 <= self.ns(0, e) <= flen(self.rlab(), 0, e),
        decreases e,
    {
        if e > 0 { self.lemma_ns_le(e - 1); lemma_tl_len(self.ks, self.c, self.n(), e - 1); }
    }
    pub proof fn lemma_sizes(self)
        requires self.ok(),
        ensures 0 <= self.total() <= 0xff_0000, 0 <= self.ns(0, self.h) <= 0xff_0000, self.n() <= 0xff_0000,
            forall|l: int| 0 <= l <= self.h ==> 0 <= #[trigger] self.cut(l) <= self.total(),
            forall|l: int| 0 <= l <= self.h ==> 0 <= #[trigger] self.ns(0, l) <= 0xff_0000,
            flen(self.rsfx(), self.s, self.h) <= self.total(), 0 <= flen(self.rsfx(), self.s, self.h),
            self.ns(0, self.s) <= self.ns(0, self.s + 1),
    {
        let m = self.n();
        lemma_total(self.ks, self.c, m, self.h);
        lemma_ksum(self.ks, m);
        assert forall|l: int| 0 <= l < self.h implies #[trigger] lab_rows(self.ks, self.c, m)(l) == self.rlab()(l) by { }
        lemma_fcat_ext(lab_rows(self.ks, self.c, m), self.rlab(), 0, self.h);
        self.lemma_from(self.h);
        self.lemma_ns_le(self.h);
        assert forall|l: int| 0 <= l <= self.h implies 0 <= #[trigger] self.cut(l) <= self.total() by {
            if l >= self.s { lemma_flen_mono(self.rlab(), self.s, l, self.h); } else { lemma_flen_mono(self.rlab(), self.s, self.s, self.h); }
        }
        assert forall|l: int| 0 <= l <= self.h implies 0 <= #[trigger] self.ns(0, l) <= 0xff_0000 by { self.lemma_ns_split(0, l, self.h); }
        self.lemma_ns_split(0, self.s, self.s + 1);
        self.lemma_sfx_le(self.h);
        lemma_flen(self.rsfx(), self.s, self.h);
    }
    proof fn lemma_from(self, e: int)
        requires 0 <= self.s,
        ensures flen(self.rlab(), self.s, e) <= flen(self.rlab(), 0, e),
        decreases e,
    {
        lemma_flen(self.rlab(), 0, e);
        if e > self.s { self.lemma_from(e - 1); }
    }
    proof fn lemma_sfx_le(self, e: int)
        requires keys_ok(self.ks), 0 <= self.s,
        ensures flen(self.rsfx(), self.s, e) <= self.cut(e),
        decreases e,
    {
        if e > self.s {
            self.lemma_sfx_le(e - 1);
            lemma_sfx_count(self.ks, self.c, self.n(), e - 1);
            lemma_tl_len(self.ks, self.c, self.n(), e - 1);
            lemma_cnt_bounds(self.v(e - 1).ch, self.v(e - 1).ch.len() as int);
        }
    }
    /// where the item of key j is and what stands there
    pub proof fn lemma_at(self, j: int, l: int)
        requires self.ok(), self.has(j, l), self.s <= l,
        ensures ({
            let p = self.fp(j, l);
            &&& l < self.h - 1
            &&& self.cut(l) <= p < self.cut(l + 1) <= self.total() == self.labs().len() == self.chs().len() == self.los().len()
            &&& self.labs()[p] == sym(self.ks[j], l)
            &&& self.chs()[p] == (l < leaf(self.ks, j))
            &&& cnt(self.chs(), p + 1) == self.ns(self.s + 1, l + 1) + cnt(self.v(l).ch, pth(self.ks, self.c, j, l) + 1)
            &&& cnt(self.los(), p + 1) == self.ns(self.s, l) + nno(self.ks, self.c, j, l) + 1
            &&& 0 <= nno(self.ks, self.c, j, l) < self.v(l).nodes
        }),
    {
        let p = pth(self.ks, self.c, j, l);
        lemma_item(self.ks, self.c, j, l);
        assert(l < self.h - 1) by { if l >= self.h - 1 { assert(no_items(self.v(l))); } }
        self.lemma_rows(l); self.lemma_rows(l + 1); self.lemma_rows(self.h);
        self.lemma_ns(l);
        lemma_fcat_at(self.rlab(), self.s, self.h, l, p);
        lemma_fcat_at(self.rch(), self.s, self.h, l, p);
        lemma_fcat_at(self.rlo(), self.s, self.h, l, p);
        lemma_flen(self.rlab(), self.s, self.h); lemma_flen(self.rch(), self.s, self.h); lemma_flen(self.rlo(), self.s, self.h);
        lemma_fcat_cnt(self.rch(), self.s, self.h, l, p + 1);
        lemma_fcat_cnt(self.rlo(), self.s, self.h, l, p + 1);
    }
    /// an item that key j opens begins a node if the key before has left it
    pub proof fn lemma_at_lo(self, j: int, l: int)
        requires self.ok(), self.has(j, l), self.s <= l, dep(self.ks, j) <= l,
        ensures self.los()[self.fp(j, l)] == (dep(self.ks, j) < l),
    {
        self.lemma_at(j, l);
        lemma_push(self.ks, self.c, j, l);
        lemma_item(self.ks, self.c, j, l);
        lemma_fcat_at(self.rlo(), self.s, self.h, l, pth(self.ks, self.c, j, l));
        self.lemma_rows(l);
    }
    /// the key that opens the item at p
    pub proof fn lemma_back(self, l: int, p: int) -> (j: int)
        requires self.ok(), self.s <= l < self.h, self.cut(l) <= p < self.cut(l + 1),
        ensures self.has(j, l), dep(self.ks, j) <= l, self.fp(j, l) == p,
    {
        lemma_opener(self.ks, self.c, self.n(), l, p - self.cut(l))
    }
    /// a level without items is followed by one without items
    proof fn lemma_empty(self, l: int)
        requires self.ok(), 0 <= l, self.v(l).lab.len() == 0,
        ensures self.v(l + 1).lab.len() == 0,
    {
        if self.v(l + 1).lab.len() > 0 {
            let j = lemma_opener(self.ks, self.c, self.n(), l + 1, 0);
            assert(self.has(j, l));
            lemma_item(self.ks, self.c, j, l);
        }
    }
    /// where a level ends a new node begins, or everything ends
    pub proof fn lemma_cut_lo(self, l: int)
        requires self.ok(), self.s <= l <= self.h,
        ensures self.cut(l) == self.total() || (self.cut(l) < self.total() && self.los()[self.cut(l)]),
        decreases self.h - l,
    {
        if l < self.h {
            if self.v(l).lab.len() == 0 {
                self.lemma_empty(l);
                self.lemma_cut_lo(l + 1);
            } else {
                let j = lemma_opener(self.ks, self.c, self.n(), l, 0);
                self.lemma_at(j, l);
                lemma_tl_len(self.ks, self.c, self.n(), l);
                lemma_fcat_at(self.rlo(), self.s, self.h, l, 0);
                lemma_tl_wf(self.ks, self.c, self.n(), l);
                self.lemma_rows(l);
            }
        }
    }
    /// e is the last key at its item of level l: what comes next
    pub proof fn lemma_next(self, e: int, l: int)
        requires self.ok(), self.has(e, l), self.s <= l, e + 1 < self.n() ==> dep(self.ks, e + 1) <= l,
        ensures ({
            let p = self.fp(e, l) + 1;
            &&& p <= self.total()
            &&& e + 1 < self.n() && dep(self.ks, e + 1) == l ==> self.has(e + 1, l) && self.fp(e + 1, l) == p && p < self.total() && !self.los()[p]
            &&& !(e + 1 < self.n() && dep(self.ks, e + 1) == l) && p < self.total() ==> self.los()[p]
        }),
    {
        let ks = self.ks;
        let c = self.c;
        let p = self.fp(e, l) + 1;
        self.lemma_at(e, l);
        if e + 1 < self.n() && dep(ks, e + 1) == l {
            lemma_dep(ks, e + 1);
            lemma_push(ks, c, e + 1, l);
            self.lemma_at(e + 1, l);
            self.lemma_at_lo(e + 1, l);
        } else if p < self.total() {
            if p == self.cut(l + 1) { self.lemma_cut_lo(l + 1); }
            else {
                let i = self.lemma_back(l, p);
                if i < e { lemma_begins(ks, c, i + 1, e + 1, l); }
                assert(i > e);
                if i > e + 1 {
                    lemma_dep(ks, i);
                    if dep(ks, i) == l {
                        assert(self.has(i - 1, l)) by { lemma_dep(ks, i - 1); }
                        lemma_other_item(ks, c, e, i - 1, l, e + 1);
                        lemma_push(ks, c, i, l);
                    }
                } 
                self.lemma_at_lo(i, l);
            }
        }
    }
    /// b is the first key at its item of level l: what comes before
    pub proof fn lemma_prev(self, b: int, l: int)
        requires self.ok(), self.has(b, l), self.s <= l, dep(self.ks, b) <= l,
        ensures ({
            let p = self.fp(b, l);
            &&& self.los()[p] == (dep(self.ks, b) < l)
            &&& dep(self.ks, b) == l ==> self.has(b - 1, l) && self.fp(b - 1, l) == p - 1
        }),
    {
        self.lemma_at_lo(b, l);
        if dep(self.ks, b) == l {
            lemma_dep(self.ks, b);
            lemma_dep(self.ks, b - 1);
            lemma_push(self.ks, self.c, b, l);
        }
    }
    /// keys of a node and its positions
    pub proof fn lemma_node_key(self, a: int, b: int, l: int, p: int) -> (i: int)
        requires self.ok(), self.node(a, b, l), self.s <= l, self.fp(a, l) <= p <= self.fp(b, l),
        ensures a <= i <= b, self.has(i, l), dep(self.ks, i) <= l, self.fp(i, l) == p, i > a ==> dep(self.ks, i) == l,
    {
        let ks = self.ks;
        let c = self.c;
        self.lemma_at(a, l);
        self.lemma_at(b, l);
        let i = self.lemma_back(l, p);
        if i < a { lemma_other_item(ks, c, i, a, l, a); }
        if i > b { lemma_other_item(ks, c, b, i, l, b + 1); }
        if i > a { assert(dep(ks, i) >= l); }
        i
    }
    pub proof fn lemma_node_pos(self, a: int, b: int, l: int, i: int)
        requires self.ok(), self.node(a, b, l), self.s <= l, a <= i <= b, self.has(i, l),
        ensures self.fp(a, l) <= self.fp(i, l) <= self.fp(b, l),
    {
        lemma_begins(self.ks, self.c, a + 1, i + 1, l);
        lemma_begins(self.ks, self.c, i + 1, b + 1, l);
    }
    /// the extent of a node
    pub proof fn lemma_node(self, a: int, b: int, l: int)
        requires self.ok(), self.node(a, b, l), self.s <= l,
        ensures self.fp(a, l) <= self.fp(b, l) < self.total(), self.los()[self.fp(a, l)],
            forall|p: int| self.fp(a, l) < p <= self.fp(b, l) ==> !#[trigger] self.los()[p],
            self.fp(b, l) + 1 < self.total() ==> self.los()[self.fp(b, l) + 1],
            0 <= self.fp(a, l),
    {
        self.lemma_node_pos(a, b, l, b);
        self.lemma_at(b, l);
        self.lemma_at_lo(a, l);
        self.lemma_rows(l);
        self.lemma_next(b, l);
        assert forall|p: int| self.fp(a, l) < p <= self.fp(b, l) implies !#[trigger] self.los()[p] by {
            let i = self.lemma_node_key(a, b, l, p);
            self.lemma_at_lo(i, l);
        }
    }
    /// where the labels of a node begin that are bytes
    pub open spec fn rs(self, a: int, b: int, l: int) -> int {
        if self.fp(b, l) > self.fp(a, l) && self.labs()[self.fp(a, l)] == 255 { self.fp(a, l) + 1 } else { self.fp(a, l) }
    }
    /// they ascend
    pub proof fn lemma_node_labels(self, a: int, b: int, l: int, p: int, q: int)
        requires self.ok(), self.node(a, b, l), self.s <= l, self.rs(a, b, l) <= p < q <= self.fp(b, l),
        ensures self.labs()[p] < self.labs()[q],
    {
        let i = self.lemma_node_key(a, b, l, p);
        let k = self.lemma_node_key(a, b, l, q);
        if k <= i { lemma_begins(self.ks, self.c, k + 1, i + 1, l); }
        self.lemma_at(i, l); self.lemma_at(k, l);
        assert(sh(self.ks, i, k, l));
        lemma_labels(self.ks, self.c, i, k, l);
        if sh(self.ks, i, k, l + 1) { lemma_same_item(self.ks, self.c, i, k, l); }
        if self.ks[i].len() == l { lemma_ends(self.ks, i, l); self.lemma_at(a, l); }
    }
    /// a byte label belongs to a key that goes on with that byte
    pub proof fn lemma_node_byte(self, a: int, b: int, l: int, p: int) -> (i: int)
        requires self.ok(), self.node(a, b, l), self.s <= l, self.rs(a, b, l) <= p <= self.fp(b, l),
        ensures a <= i <= b, self.has(i, l), self.fp(i, l) == p, self.ks[i].len() > l, self.ks[i][l] == self.labs()[p],
            dep(self.ks, i) <= l, i > a ==> dep(self.ks, i) == l,
    {
        let i = self.lemma_node_key(a, b, l, p);
        self.lemma_at(i, l);
        lemma_dep(self.ks, i);
        if self.ks[i].len() <= l {
            lemma_ends(self.ks, i, l);
            self.lemma_at(a, l);
            self.lemma_ends_more(a, b, l);
        }
        i
    }
    /// after a key that ends in a node there are others in it
    pub proof fn lemma_ends_more(self, a: int, b: int, l: int)
        requires self.ok(), self.node(a, b, l), self.s <= l, self.ks[a].len() == l,
        ensures a < b, self.fp(a, l) < self.fp(b, l), self.labs()[self.fp(a, l)] == 255, dep(self.ks, a + 1) == l, leaf(self.ks, a) == l,
    {
        lemma_ends(self.ks, a, l);
        assert(b > a);
        lemma_other_item(self.ks, self.c, a, b, l, a + 1);
        self.lemma_at(a, l);
    }
    /// the node of key j
    pub proof fn lemma_node_of(self, j: int, l: int) -> (r: (int, int))
        requires self.ok(), self.has(j, l),
        ensures self.node(r.0, r.1, l), r.0 <= j <= r.1,
            nno(self.ks, self.c, r.0, l) == nno(self.ks, self.c, j, l), nno(self.ks, self.c, r.1, l) == nno(self.ks, self.c, j, l),
            self.gn(r.0, l) == self.gn(j, l), self.gn(r.1, l) == self.gn(j, l),
            sh(self.ks, r.0, j, l), sh(self.ks, j, r.1, l),
    {
        let a = lemma_first(self.ks, j, l);
        let b = lemma_final(self.ks, j, l);
        assert forall|i: int| a < i <= b implies #[trigger] dep(self.ks, i) >= l by { }
        lemma_same_node(self.ks, self.c, a, j, l);
        lemma_same_node(self.ks, self.c, j, b, l);
        (a, b)
    }
    /// two keys with l bytes in common are in the same node
    pub proof fn lemma_in_node(self, a: int, b: int, l: int, j: int)
        requires self.ok(), self.node(a, b, l), 0 <= j < self.n(), 0 <= l, lcp(self.ks[j], self.ks[a]) >= l,
        ensures a <= j <= b, self.has(j, l),
    {
        if j < a { lemma_sh(self.ks, j, a, l); assert(dep(self.ks, a) >= l); }
        if j > b { lemma_sh(self.ks, b, j, l); lemma_sh(self.ks, a, b, l); lemma_lcp_sym(self.ks[j], self.ks[a]);
            lemma_sh(self.ks, a, j, l); assert(dep(self.ks, b + 1) >= l); }
        lemma_dep(self.ks, j);
        if j < a || j > b { } else {
            if j > a { assert(dep(self.ks, j) >= l); }
        }
    }
}
/// a position is given by the number of set bits up to it
pub proof fn lemma_nth_unique(s: Seq<bool>, p: int, q: int)
    requires 0 <= p < s.len(), 0 <= q < s.len(), s[p], s[q], cnt(s, p + 1) == cnt(s, q + 1),
    ensures p == q,
{
    if p < q { lemma_cnt_mono(s, p + 1, q); }
    if q < p { lemma_cnt_mono(s, q + 1, p); }
}
}
