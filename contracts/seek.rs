// Which stored keys a seek is to find.
verus! {
pub open spec fn passes(k: Seq<u8>, q: Seq<u8>, inc: bool) -> bool { if inc { lexle(q, k) } else { lexlt(q, k) } }
/// x < y, and q agrees with y beyond the place where they differ
pub proof fn lemma_lex_below(x: Seq<u8>, y: Seq<u8>, q: Seq<u8>)
    requires lexlt(x, y), pre(y, q, lcp(x, y) + 1),
    ensures lexlt(x, q), lcp(x, q) == lcp(x, y),
{
    lemma_lcp(x, y);
    let d = lcp(x, y);
    assert forall|j: int| 0 <= j < d implies #[trigger] x[j] == q[j] by { assert(x[j] == y[j]); assert(y[j] == q[j]); }
    assert(y[d] == q[d]);
    lemma_lcp_is(x, q, d);
}
pub proof fn lemma_lex_above(x: Seq<u8>, y: Seq<u8>, q: Seq<u8>)
    requires lexlt(x, y), pre(x, q, lcp(x, y) + 1),
    ensures lexlt(q, y), lcp(q, y) == lcp(x, y),
{
    lemma_lcp(x, y);
    let d = lcp(x, y);
    assert forall|j: int| 0 <= j < d implies #[trigger] q[j] == y[j] by { assert(x[j] == y[j]); assert(x[j] == q[j]); }
    assert(x[d] == q[d]);
    lemma_lcp_is(q, y, d);
}
/// keys that differ from q in the next byte
pub proof fn lemma_lex_byte(x: Seq<u8>, q: Seq<u8>, l: int)
    requires 0 <= l, pre(x, q, l), l < q.len(),
    ensures x.len() == l ==> lexlt(x, q), x.len() > l && x[l] < q[l] ==> lexlt(x, q), x.len() > l && x[l] > q[l] ==> lexlt(q, x),
{
    if x.len() == l || x[l] != q[l] { lemma_lcp_is(x, q, l); lemma_lcp_sym(x, q); }
}
/// a key that goes on where q ends
pub proof fn lemma_lex_on(x: Seq<u8>, q: Seq<u8>)
    requires pre(x, q, q.len() as int),
    ensures x.len() == q.len() ==> x == q, x.len() > q.len() ==> lexlt(q, x),
{
    if x.len() == q.len() { assert(x =~= q); }
    else { assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] == x[j] by { assert(x[j] == q[j]); } lemma_lcp_is(q, x, q.len() as int); }
}
pub proof fn lemma_passes(k: Seq<u8>, q: Seq<u8>, inc: bool)
    ensures lexlt(k, q) ==> !passes(k, q, inc), lexlt(q, k) ==> passes(k, q, inc), passes(k, q, inc) ==> lexlt(q, k) || (k == q && inc),
        !passes(k, q, inc) ==> lexlt(k, q) || (k == q && !inc),
{
    lemma_lex_total(k, q);
}
impl Tr {
    /// the keys from g on are those that a seek for q may stop at
    pub open spec fn split(self, q: Seq<u8>, inc: bool, g: int) -> bool {
        0 <= g <= self.n() && forall|j: int| 0 <= j < self.n() ==> #[trigger] passes(self.ks[j], q, inc) == (j >= g)
    }
    /// the key before the first to stop at is q only if that is kept whole
    pub open spec fn skips(self, q: Seq<u8>, g: int) -> bool { 0 < g <= self.n() && self.ks[g - 1] == q ==> self.ks[g - 1].len() == leaf(self.ks, g - 1) }
    pub proof fn lemma_skips_miss(self, q: Seq<u8>, g: int)
        requires self.ok(), 0 <= g <= self.n(), forall|i: int| !#[trigger] self.along(i, q),
        ensures self.skips(q, g),
    {
        if 0 < g && self.ks[g - 1] == q { lemma_dep(self.ks, g - 1); assert(self.along(g - 1, q)); }
    }
    pub proof fn lemma_skips_end(self, a: int, b: int, l: int, q: Seq<u8>, inc: bool, g: int)
        requires self.ok(), self.node(a, b, l), self.s <= l, pre(self.ks[a], q, l), l == q.len(), self.split(q, inc, g),
        ensures self.skips(q, g),
    {
        self.lemma_seek_end(a, b, l, q, inc, g);
        self.lemma_split_node(a, b, l, q, inc, g);
    }
    /// a seek stops at one key at most
    pub proof fn lemma_no_hits(self, i: int, m: int, q: Seq<u8>)
        requires self.ok(), 0 <= i < self.n(), pre(self.ks[i], q, m), 0 <= m, (m == q.len() && m <= leaf(self.ks, i)) || (m == leaf(self.ks, i) + 1 && !self.hits(i, q)),
        ensures self.no_hits(q),
    {
        assert forall|j: int| !#[trigger] self.hits(j, q) by {
            if self.hits(j, q) && j != i {
                let l = leaf(self.ks, j) + 1;
                lemma_dep(self.ks, j);
                self.lemma_share(i, j, q, minl(m, l));
            }
        }
    }
    pub proof fn lemma_ord(self, i: int, j: int)
        requires self.ok(), 0 <= i < j < self.n(),
        ensures lexlt(self.ks[i], self.ks[j]),
    {
        lemma_sh(self.ks, i, j, 0);
    }
    pub proof fn lemma_passes_up(self, i: int, j: int, q: Seq<u8>, inc: bool)
        requires self.ok(), 0 <= i <= j < self.n(), passes(self.ks[i], q, inc),
        ensures passes(self.ks[j], q, inc),
    {
        if i < j {
            self.lemma_ord(i, j);
            if lexlt(q, self.ks[i]) { lemma_lex_trans(q, self.ks[i], self.ks[j]); }
            else { assert(self.ks[i] == q); }
        }
    }
    pub proof fn lemma_split_is(self, q: Seq<u8>, inc: bool, g: int)
        requires self.ok(), 0 <= g <= self.n(), g > 0 ==> !passes(self.ks[g - 1], q, inc), g < self.n() ==> passes(self.ks[g], q, inc),
        ensures self.split(q, inc, g),
    {
        assert forall|j: int| 0 <= j < self.n() implies #[trigger] passes(self.ks[j], q, inc) == (j >= g) by {
            if j >= g { self.lemma_passes_up(g, j, q, inc); }
            else if passes(self.ks[j], q, inc) { self.lemma_passes_up(j, g - 1, q, inc); }
        }
    }
    pub proof fn lemma_split_some(self, q: Seq<u8>, inc: bool) -> (g: int)
        requires self.ok(),
        ensures self.split(q, inc, g),
    {
        self.lemma_split_rec(q, inc, self.n() as int)
    }
    proof fn lemma_split_rec(self, q: Seq<u8>, inc: bool, m: int) -> (g: int)
        requires self.ok(), 0 <= m <= self.n(), m < self.n() ==> passes(self.ks[m], q, inc),
        ensures self.split(q, inc, g),
        decreases m,
    {
        if m == 0 || !passes(self.ks[m - 1], q, inc) { self.lemma_split_is(q, inc, m); m }
        else { self.lemma_split_rec(q, inc, m - 1) }
    }
    pub proof fn lemma_split_one(self, q: Seq<u8>, inc: bool, g: int, h: int)
        requires self.split(q, inc, g), self.split(q, inc, h),
        ensures g == h,
    {
        if g < h { assert(passes(self.ks[g], q, inc) == (g >= h)); }
        if h < g { assert(passes(self.ks[h], q, inc) == (h >= g)); }
    }
    /// q goes along a node: the first key to stop at is in it or right after it
    pub proof fn lemma_split_node(self, a: int, b: int, l: int, q: Seq<u8>, inc: bool, g: int)
        requires self.ok(), self.node(a, b, l), pre(self.ks[a], q, l), self.split(q, inc, g),
        ensures a <= g <= b + 1, a > 0 ==> lexlt(self.ks[a - 1], q), b + 1 < self.n() ==> lexlt(q, self.ks[b + 1]),
    {
        lemma_dep(self.ks, a);
        lemma_dep(self.ks, b);
        if a > 0 {
            assert(ord(self.ks, a));
            lemma_lex_below(self.ks[a - 1], self.ks[a], q);
            lemma_passes(self.ks[a - 1], q, inc);
        }
        if b + 1 < self.n() {
            self.lemma_pre_sh(a, b, q, l);
            lemma_dep(self.ks, b + 1);
            assert(ord(self.ks, b + 1));
            lemma_lex_above(self.ks[b], self.ks[b + 1], q);
            lemma_passes(self.ks[b + 1], q, inc);
        }
        if g < a { assert(passes(self.ks[a - 1], q, inc) == (a - 1 >= g)); }
        if g > b + 1 { assert(passes(self.ks[b + 1], q, inc) == (b + 1 >= g)); }
    }
    /// a key of the node, and q
    pub proof fn lemma_in_pre(self, a: int, b: int, l: int, j: int, q: Seq<u8>)
        requires self.ok(), self.node(a, b, l), a <= j <= b, pre(self.ks[a], q, l), self.s <= l,
        ensures pre(self.ks[j], q, l), self.has(j, l), sh(self.ks, a, j, l), sh(self.ks, j, b, l), self.ks[j].len() >= l,
    {
        lemma_dep(self.ks, a);
        lemma_dep(self.ks, j);
        assert(sh(self.ks, a, j, l));
        if j > a { assert(dep(self.ks, j) >= l); }
        self.lemma_pre_sh(a, j, q, l);
    }
    /// the byte of q is not in the node; p is the first greater one
    pub proof fn lemma_seek_miss(self, a: int, b: int, l: int, q: Seq<u8>, inc: bool, g: int, r: bool, p: int) -> (j: int)
        requires self.ok(), self.node(a, b, l), self.s <= l, pre(self.ks[a], q, l), l < q.len(), self.split(q, inc, g),
            forall|x: int| self.rs(a, b, l) <= x <= self.fp(b, l) ==> #[trigger] self.labs()[x] != q[l],
            r ==> self.rs(a, b, l) <= p <= self.fp(b, l) && self.labs()[p] > q[l] && forall|x: int| self.rs(a, b, l) <= x < p ==> #[trigger] self.labs()[x] <= q[l],
            !r ==> forall|x: int| self.rs(a, b, l) <= x <= self.fp(b, l) ==> #[trigger] self.labs()[x] <= q[l],
        ensures r ==> g == j && a <= j <= b && self.has(j, l) && self.fp(j, l) == p && dep(self.ks, j) <= l && sh(self.ks, a, j, l) && self.labs()[p] == sym(self.ks[j], l),
            !r ==> g == b + 1 && j == b,
    {
        self.lemma_split_node(a, b, l, q, inc, g);
        if r {
            let j = self.lemma_node_byte(a, b, l, p);
            self.lemma_in_pre(a, b, l, j, q);
            lemma_lex_byte(self.ks[j], q, l);
            lemma_passes(self.ks[j], q, inc);
            assert(passes(self.ks[j], q, inc) == (j >= g));
            if j > a {
                let i = j - 1;
                self.lemma_in_pre(a, b, l, i, q);
                lemma_lex_byte(self.ks[i], q, l);
                if self.ks[i].len() > l {
                    self.lemma_first_byte(a, b, l, i);
                    self.lemma_prev(j, l);
                    self.lemma_at(i, l);
                    assert(self.labs()[self.fp(i, l)] <= q[l]);
                }
                lemma_passes(self.ks[i], q, inc);
                assert(passes(self.ks[i], q, inc) == (i >= g));
            }
            self.lemma_at(j, l);
            j
        } else {
            self.lemma_in_pre(a, b, l, b, q);
            lemma_lex_byte(self.ks[b], q, l);
            if self.ks[b].len() > l {
                self.lemma_first_byte(a, b, l, b);
                self.lemma_at(b, l);
                assert(self.labs()[self.fp(b, l)] <= q[l]);
            }
            lemma_passes(self.ks[b], q, inc);
            assert(passes(self.ks[b], q, inc) == (b >= g));
            b
        }
    }
    /// q goes along key i to its leaf
    pub proof fn lemma_seek_leaf(self, i: int, q: Seq<u8>, inc: bool, g: int)
        requires self.ok(), 0 <= i < self.n(), pre(self.ks[i], q, leaf(self.ks, i) + 1), self.split(q, inc, g),
        ensures g == i || g == i + 1, passes(self.ks[i], q, inc) == (g == i),
    {
        lemma_dep(self.ks, i);
        if i + 1 < self.n() { lemma_dep(self.ks, i + 1); }
        if i > 0 {
            assert(ord(self.ks, i));
            lemma_lex_below(self.ks[i - 1], self.ks[i], q);
            lemma_passes(self.ks[i - 1], q, inc);
            assert(passes(self.ks[i - 1], q, inc) == (i - 1 >= g));
        }
        if i + 1 < self.n() {
            assert(ord(self.ks, i + 1));
            lemma_lex_above(self.ks[i], self.ks[i + 1], q);
            lemma_passes(self.ks[i + 1], q, inc);
            assert(passes(self.ks[i + 1], q, inc) == (i + 1 >= g));
        }
        assert(passes(self.ks[i], q, inc) == (i >= g));
    }
    /// q ends at a node
    pub proof fn lemma_seek_end(self, a: int, b: int, l: int, q: Seq<u8>, inc: bool, g: int)
        requires self.ok(), self.node(a, b, l), self.s <= l, pre(self.ks[a], q, l), l == q.len(), self.split(q, inc, g),
        ensures g == if self.ks[a].len() == l && !inc { a + 1 } else { a },
            self.ks[a].len() == l ==> a < b && leaf(self.ks, a) == l && dep(self.ks, a + 1) == l,
    {
        self.lemma_split_node(a, b, l, q, inc, g);
        lemma_dep(self.ks, a);
        lemma_lex_on(self.ks[a], q);
        lemma_passes(self.ks[a], q, inc);
        lemma_lex_total(self.ks[a], q);
        assert(passes(self.ks[a], q, inc) == (a >= g));
        if self.ks[a].len() == l {
            self.lemma_ends_more(a, b, l);
            self.lemma_in_pre(a, b, l, a + 1, q);
            self.lemma_ord(a, a + 1);
            assert(self.ks[a] == q);
            lemma_passes(self.ks[a + 1], q, inc);
            assert(passes(self.ks[a + 1], q, inc) == (a + 1 >= g));
        }
    }
    /// the node below key j's item lies in the node of the item
    pub proof fn lemma_deeper(self, a: int, b: int, l: int, c: int, d: int, j: int)
        requires self.ok(), self.node(a, b, l), self.node(c, d, l + 1), a <= j <= b, c <= j <= d, 0 <= l,
        ensures a <= c, d <= b, sh(self.ks, c, j, l + 1), sh(self.ks, j, d, l + 1),
    {
        if c < a { assert(dep(self.ks, a) >= l + 1); }
        if d > b { assert(dep(self.ks, b + 1) >= l + 1); }
    }
}
}
