// Which queries the filter accepts.
verus! {
/// k and q agree on the first l bytes
pub open spec fn pre(k: Seq<u8>, q: Seq<u8>, l: int) -> bool {
    l <= k.len() && l <= q.len() && forall|i: int| 0 <= i < l ==> #[trigger] k[i] == q[i]
}
impl Tr {
    /// the suffix of key i admits q
    pub open spec fn sfx_ok(self, i: int, q: Seq<u8>) -> bool {
        self.c.ty == 0 || self.c.hl + self.c.rl == 0
            || suffix_matches(self.c.ty, ksfx(self.ks, self.c, i), q, self.c.hl, leaf(self.ks, i) + 1, self.c.rl)
    }
    /// q goes along the stored part of key i
    pub open spec fn along(self, i: int, q: Seq<u8>) -> bool {
        let k = self.ks[i];
        let l = leaf(self.ks, i);
        0 <= i < self.n() && if l < k.len() { pre(k, q, l + 1) } else { q == k }
    }
    pub open spec fn hit(self, i: int, q: Seq<u8>) -> bool { self.along(i, q) && self.sfx_ok(i, q) }
    /// a point query accepts exactly these
    pub open spec fn finds(self, q: Seq<u8>) -> bool { exists|i: int| self.hit(i, q) }

    pub proof fn lemma_share(self, i: int, j: int, q: Seq<u8>, l: int)
        requires self.ok(), 0 <= i < self.n(), 0 <= j < self.n(), i != j, 0 <= l, pre(self.ks[i], q, l), pre(self.ks[j], q, l),
        ensures leaf(self.ks, i) >= l, leaf(self.ks, j) >= l, lcp(self.ks[i], self.ks[j]) >= l, lcp(self.ks[j], self.ks[i]) >= l,
    {
        let a = self.ks[i];
        let b = self.ks[j];
        lemma_lcp(a, b);
        lemma_lcp_sym(a, b);
        let x = lcp(a, b);
        if x < l { assert(a[x] == q[x] && b[x] == q[x]); }
        if i < j { lemma_sh(self.ks, i, j, l); assert(dep(self.ks, i + 1) >= l); assert(dep(self.ks, j) >= l); }
        else { lemma_sh(self.ks, j, i, l); assert(dep(self.ks, j + 1) >= l); assert(dep(self.ks, i) >= l); }
    }
    /// below a node that q reaches only keys of that node are found
    pub proof fn lemma_deep(self, j: int, l: int, q: Seq<u8>, i: int)
        requires self.ok(), self.has(j, l), pre(self.ks[j], q, l), self.along(i, q),
        ensures leaf(self.ks, i) >= l, pre(self.ks[i], q, l),
    {
        let m = leaf(self.ks, i);
        lemma_dep(self.ks, i);
        if m < l {
            if m < self.ks[i].len() { self.lemma_share(i, j, q, m + 1); }
        }
    }
    pub proof fn lemma_miss(self, a: int, b: int, l: int, q: Seq<u8>)
        requires self.ok(), self.node(a, b, l), self.s <= l, pre(self.ks[a], q, l), l < q.len(),
            forall|p: int| self.rs(a, b, l) <= p <= self.fp(b, l) ==> #[trigger] self.labs()[p] != q[l],
        ensures forall|i: int| !#[trigger] self.along(i, q), !self.finds(q),
    {
        assert forall|i: int| !#[trigger] self.along(i, q) by {
            if self.along(i, q) {
                self.lemma_deep(a, l, q, i);
                lemma_dep(self.ks, i);
                assert(self.ks[i].len() > l);
                assert(self.ks[i][l] == q[l]);
                if i != a { self.lemma_share(i, a, q, l); self.lemma_in_node(a, b, l, i); }
                assert(self.has(i, l));
                self.lemma_node_pos(a, b, l, i);
                self.lemma_at(i, l);
                self.lemma_first_byte(a, b, l, i);
            }
        }
    }
    /// a key that goes on in the node has its item among the bytes
    pub proof fn lemma_first_byte(self, a: int, b: int, l: int, i: int)
        requires self.ok(), self.node(a, b, l), self.s <= l, a <= i <= b, self.has(i, l), self.ks[i].len() > l,
        ensures self.rs(a, b, l) <= self.fp(i, l) <= self.fp(b, l),
    {
        self.lemma_node_pos(a, b, l, i);
        self.lemma_at(a, l);
        self.lemma_at(b, l);
        if self.rs(a, b, l) > self.fp(i, l) {
            // the item is the first one, its label is 255, and others follow
            self.lemma_at(i, l);
            assert(sh(self.ks, i, b, l));
            lemma_labels(self.ks, self.c, i, b, l);
            if sh(self.ks, i, b, l + 1) { lemma_same_item(self.ks, self.c, i, b, l); }
        }
    }
    pub proof fn lemma_hit_leaf(self, i: int, l: int, q: Seq<u8>)
        requires self.ok(), self.has(i, l), leaf(self.ks, i) == l, pre(self.ks[i], q, l + 1),
        ensures self.finds(q) == self.sfx_ok(i, q), forall|k: int| #[trigger] self.along(k, q) ==> k == i, self.along(i, q),
    {
        assert(self.along(i, q));
        assert forall|k: int| #[trigger] self.along(k, q) implies k == i by {
            self.lemma_deep(i, l, q, k);
            lemma_dep(self.ks, k);
            if k != i {
                assert(pre(self.ks[k], q, l + 1));
                self.lemma_share(i, k, q, l + 1);
            }
        }
        if self.sfx_ok(i, q) { assert(self.hit(i, q)); }
    }
    pub proof fn lemma_end(self, a: int, b: int, l: int, q: Seq<u8>)
        requires self.ok(), self.node(a, b, l), self.s <= l, pre(self.ks[a], q, l), l == q.len(),
        ensures self.finds(q) == (self.ks[a].len() == l && self.sfx_ok(a, q)),
            self.ks[a].len() == l ==> self.ks[a] == q && leaf(self.ks, a) == l && self.along(a, q),
            forall|k: int| #[trigger] self.along(k, q) ==> k == a && self.ks[a].len() == l,
            (self.labs()[self.fp(a, l)] == 255 && !self.chs()[self.fp(a, l)] && self.fp(b, l) > self.fp(a, l)) == (self.ks[a].len() == l),
    {
        lemma_dep(self.ks, a);
        self.lemma_at(a, l);
        self.lemma_node_pos(a, b, l, b);
        if self.ks[a].len() == l {
            lemma_ends(self.ks, a, l);
            self.lemma_ends_more(a, b, l);
            assert(self.ks[a] =~= q);
        } else if self.fp(b, l) > self.fp(a, l) {
            self.lemma_first_byte(a, b, l, a);
        }
        assert forall|k: int| #[trigger] self.along(k, q) implies k == a && self.ks[a].len() == l by {
            self.lemma_deep(a, l, q, k);
            lemma_dep(self.ks, k);
            assert(q == self.ks[k]);
            if k != a {
                self.lemma_share(k, a, q, l); self.lemma_in_node(a, b, l, k);
                lemma_ends(self.ks, k, l);
                assert(dep(self.ks, k) >= l);
            }
        }
        if self.ks[a].len() == l && self.sfx_ok(a, q) { assert(self.hit(a, q)); }
    }
    /// the root
    pub proof fn lemma_root(self)
        requires self.ok(),
        ensures self.node(0, self.n() - 1, 0), self.gn(0, 0) == 0, self.v(0).nodes == 1,
    {
        let ks = self.ks;
        lemma_dep(ks, 0);
        lemma_dep(ks, self.n() - 1);
        assert forall|t: int| 0 < t <= self.n() - 1 implies #[trigger] dep(ks, t) >= 0 by { lemma_dep(ks, t); }
        lemma_root_nodes(ks, self.c, self.n());
        lemma_root_nodes(ks, self.c, 1);
    }
}
pub proof fn lemma_root_nodes(ks: Keys, c: Cfg, m: int)
    requires keys_ok(ks), 1 <= m <= ks.len(),
    ensures tl(ks, c, m, 0).nodes == 1,
    decreases m,
{
    lemma_dep(ks, m - 1);
    if m > 1 { lemma_root_nodes(ks, c, m - 1); } else { reveal_with_fuel(tl, 2); }
}
}
verus! {
// ---- what the arithmetic of the navigation functions comes to
impl Tr {
    pub proof fn lemma_gn(self, j: int, l: int)
        requires self.ok(), self.has(j, l), self.s <= l,
        ensures self.ns(0, self.s) <= self.gn(j, l) < self.ns(0, self.h) <= 0xff_0000, 0 <= self.ns(0, self.s),
            self.ns(0, self.h) == self.ns(0, self.s) + self.ns(self.s, self.h),
            self.gn(j, l) == self.ns(0, self.s) + self.ns(self.s, l) + nno(self.ks, self.c, j, l),
    {
        self.lemma_at(j, l);
        self.lemma_sizes();
        self.lemma_ns_split(0, self.s, l);
        self.lemma_ns_split(0, self.s, self.h);
        self.lemma_ns_split(0, l, l + 1);
        self.lemma_ns_split(0, l + 1, self.h);
        assert(self.ns(l, l + 1) == self.v(l).nodes) by { assert(self.ns(l, l) == 0); }
    }
    pub proof fn lemma_child_num(self, j: int, l: int)
        requires self.ok(), self.has(j, l + 1), self.s <= l,
        ensures self.has(j, l), 0 <= self.fp(j, l) < self.total(), self.chs()[self.fp(j, l)],
            cnt(self.chs(), self.fp(j, l) + 1) + self.ns(0, self.s + 1) - 1 == self.gn(j, l + 1),
    {
        self.lemma_at(j, l);
        lemma_child(self.ks, self.c, j, l);
        self.lemma_ns_split(0, self.s + 1, l + 1);
        self.lemma_rows(l);
    }
    /// the set bit number gn + 1 is where node (a, b) begins
    pub proof fn lemma_find(self, a: int, b: int, l: int, r: int)
        requires self.ok(), self.node(a, b, l), self.s <= l, 0 <= r < self.total(), self.los()[r], cnt(self.los(), r + 1) == self.gn(a, l) + 1 - self.ns(0, self.s),
        ensures r == self.fp(a, l),
    {
        self.lemma_gn(a, l);
        self.lemma_at(a, l);
        self.lemma_node(a, b, l);
        lemma_nth_unique(self.los(), r, self.fp(a, l));
    }
    /// set bits up to the last item of a node
    pub proof fn lemma_last(self, a: int, b: int, l: int)
        requires self.ok(), self.node(a, b, l), self.s <= l,
        ensures cnt(self.los(), self.fp(b, l) + 1) == self.gn(a, l) + 1 - self.ns(0, self.s), self.gn(a, l) == self.gn(b, l), self.los().len() == self.total(),
            self.fp(b, l) + 1 == self.total() <==> self.gn(a, l) + 1 == self.ns(0, self.h),
    {
        self.lemma_gn(a, l);
        self.lemma_at(b, l);
        self.lemma_node(a, b, l);
        lemma_same_node(self.ks, self.c, a, b, l);
        self.lemma_ns(self.h);
        lemma_fcnt(self.rlo(), self.s, self.h);
        self.lemma_rows(self.h);
        lemma_cnt_mono(self.los(), self.fp(b, l) + 1, self.total());
        if self.fp(b, l) + 1 < self.total() {
            lemma_cnt_mono(self.los(), self.fp(b, l) + 2, self.total());
        }
    }
    /// the set bit number gn + 2 follows the last item of node (a, b)
    pub proof fn lemma_find_next(self, a: int, b: int, l: int, r: int)
        requires self.ok(), self.node(a, b, l), self.s <= l, 0 <= r < self.total(), self.los()[r], cnt(self.los(), r + 1) == self.gn(a, l) + 2 - self.ns(0, self.s),
        ensures r == self.fp(b, l) + 1,
    {
        self.lemma_last(a, b, l);
        self.lemma_node(a, b, l);
        let e = self.fp(b, l) + 1;
        if e == self.total() { lemma_cnt_mono(self.los(), r + 1, e); }
        lemma_nth_unique(self.los(), r, e);
    }
    pub proof fn lemma_node_size(self, a: int, b: int, l: int, n: int)
        requires self.ok(), self.node(a, b, l), self.s <= l, 1 <= n <= self.total() - self.fp(a, l),
            forall|i: int| self.fp(a, l) < i < self.fp(a, l) + n ==> !#[trigger] self.los()[i],
            self.fp(a, l) + n < self.total() ==> self.los()[self.fp(a, l) + n],
        ensures n == self.fp(b, l) - self.fp(a, l) + 1,
    {
        self.lemma_node(a, b, l);
        let e = self.fp(b, l) + 1;
        let f = self.fp(a, l) + n;
        if e < f { assert(!self.los()[e]); }
        if f < e { assert(!self.los()[f]); }
    }
    proof fn lemma_sfx_flen(self, e: int)
        requires keys_ok(self.ks), 0 <= self.s,
        ensures flen(self.rsfx(), self.s, e) == self.cut(e) - fcnt(self.rch(), self.s, e),
        decreases e - self.s,
    {
        if e > self.s {
            self.lemma_sfx_flen(e - 1);
            lemma_sfx_count(self.ks, self.c, self.n(), e - 1);
            lemma_tl_len(self.ks, self.c, self.n(), e - 1);
        }
    }
    /// where the suffix of key j is
    pub proof fn lemma_sfx_pos(self, j: int)
        requires self.ok(), 0 <= j < self.n(), self.s <= leaf(self.ks, j),
        ensures ({
            let p = self.fp(j, leaf(self.ks, j));
            let k = p - cnt(self.chs(), p + 1);
            &&& self.has(j, leaf(self.ks, j)) && 0 <= p < self.total() && !self.chs()[p]
            &&& 0 <= k < self.sfxs().len() && self.sfxs()[k] == ksfx(self.ks, self.c, j)
        }),
    {
        lemma_dep(self.ks, j);
        let l = leaf(self.ks, j);
        self.lemma_at(j, l);
        self.lemma_rows(l);
        lemma_leaf_sfx(self.ks, self.c, j);
        self.lemma_ns(l);
        self.lemma_sfx_flen(l);
        let k = pth(self.ks, self.c, j, l) + 1 - cnt(self.v(l).ch, pth(self.ks, self.c, j, l) + 1) - 1;
        lemma_fcat_at(self.rsfx(), self.s, self.h, l, k);
        lemma_flen(self.rsfx(), self.s, self.h);
    }
    /// keys with l bytes in common with each other have them in common with q
    pub proof fn lemma_pre_sh(self, i: int, j: int, q: Seq<u8>, l: int)
        requires self.ok(), 0 <= i <= j < self.n(), 0 <= l, sh(self.ks, i, j, l), l <= self.ks[i].len(), l <= self.ks[j].len(),
        ensures pre(self.ks[i], q, l) == pre(self.ks[j], q, l),
    {
        if i < j {
            lemma_sh(self.ks, i, j, l);
            lemma_lcp(self.ks[i], self.ks[j]);
            let a = self.ks[i];
            let b = self.ks[j];
            assert forall|x: int| 0 <= x < l implies a[x] == b[x] by { }
            if pre(a, q, l) { assert forall|x: int| 0 <= x < l implies #[trigger] b[x] == q[x] by { assert(a[x] == q[x]); } }
            if pre(b, q, l) { assert forall|x: int| 0 <= x < l implies #[trigger] a[x] == q[x] by { assert(b[x] == q[x]); } }
        }
    }
    /// the node that key j is in at level l: q that goes along key j up to there goes along all keys of the node
    pub proof fn lemma_enter(self, j: int, l: int, q: Seq<u8>) -> (r: (int, int))
        requires self.ok(), self.has(j, l), pre(self.ks[j], q, l),
        ensures self.node(r.0, r.1, l), r.0 <= j <= r.1, self.gn(r.0, l) == self.gn(j, l), pre(self.ks[r.0], q, l),
    {
        let r = self.lemma_node_of(j, l);
        lemma_dep(self.ks, r.0);
        lemma_dep(self.ks, j);
        self.lemma_pre_sh(r.0, j, q, l);
        r
    }
}
}
verus! {
impl Tr {
    /// q goes on with the byte at p of a node it has reached
    pub proof fn lemma_step(self, a: int, b: int, l: int, p: int, q: Seq<u8>) -> (i: int)
        requires self.ok(), self.node(a, b, l), self.s <= l < q.len(), pre(self.ks[a], q, l), self.rs(a, b, l) <= p <= self.fp(b, l), self.labs()[p] == q[l],
        ensures a <= i <= b, self.has(i, l), self.fp(i, l) == p, pre(self.ks[i], q, l + 1), self.chs()[p] == (l < leaf(self.ks, i)), leaf(self.ks, i) >= l, 0 <= p < self.total(),
            self.ks[i].len() > l, leaf(self.ks, i) == l ==> self.finds(q) == self.sfx_ok(i, q) && (forall|k: int| #[trigger] self.along(k, q) ==> k == i) && self.along(i, q),
            dep(self.ks, i) <= l, i > a ==> dep(self.ks, i) == l,
    {
        let i = self.lemma_node_byte(a, b, l, p);
        self.lemma_at(i, l);
        assert(sh(self.ks, a, i, l));
        lemma_dep(self.ks, a);
        self.lemma_pre_sh(a, i, q, l);
        self.lemma_rows(l);
        if leaf(self.ks, i) == l { self.lemma_hit_leaf(i, l, q); }
        i
    }
}
}
