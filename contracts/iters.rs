// Where an iterator stands.
verus! {
impl Tr {
    /// keys that share l + 1 bytes have the same items down to level l
    pub proof fn lemma_same_path(self, i: int, j: int, l: int, m: int)
        requires self.ok(), 0 <= i <= j < self.n(), sh(self.ks, i, j, l + 1), 0 <= m <= l,
        ensures self.fp(i, m) == self.fp(j, m), sym(self.ks[i], m) == sym(self.ks[j], m), self.gn(i, m) == self.gn(j, m),
    {
        assert forall|t: int| i < t <= j implies #[trigger] dep(self.ks, t) >= m + 1 by { }
        lemma_same_item(self.ks, self.c, i, j, m);
        lemma_sh(self.ks, i, j, m + 1);
        if i < j { lemma_lcp(self.ks[i], self.ks[j]); assert(self.ks[i][m] == self.ks[j][m]); }
    }
    /// the leaf of a key that ends there is a terminator that others follow
    pub proof fn lemma_term(self, j: int)
        requires self.ok(), 0 <= j < self.n(), self.s <= leaf(self.ks, j),
        ensures ({
            let l = leaf(self.ks, j);
            let p = self.fp(j, l);
            &&& self.has(j, l) && 0 <= p < self.total() && !self.chs()[p] && l <= self.ks[j].len()
            &&& (self.ks[j].len() == l) == (self.labs()[p] == 255 && p + 1 < self.total() && !self.los()[p + 1])
        }),
    {
        let l = leaf(self.ks, j);
        lemma_dep(self.ks, j);
        self.lemma_at(j, l);
        self.lemma_rows(l);
        self.lemma_next(j, l);
        if self.ks[j].len() == l { lemma_ends(self.ks, j, l); }
        else if j + 1 < self.n() && dep(self.ks, j + 1) == l {
            lemma_labels(self.ks, self.c, j, j + 1, l);
            assert(sh(self.ks, j, j + 1, l));
        }
    }
    /// going down along the first key of an item
    pub proof fn lemma_down_first(self, j: int, l: int) -> (b: int)
        requires self.ok(), self.has(j, l), self.s <= l, dep(self.ks, j) <= l, l < leaf(self.ks, j),
        ensures self.has(j, l + 1), self.node(j, b, l + 1),
            self.gn(j, l + 1) == cnt(self.chs(), self.fp(j, l) + 1) + self.ns(0, self.s + 1) - 1,
            self.ns(0, self.s) <= self.gn(j, l + 1) < self.ns(0, self.h),
            forall|r: int| 0 <= r < self.total() && self.los()[r] && #[trigger] cnt(self.los(), r + 1) == self.gn(j, l + 1) + 1 - self.ns(0, self.s) ==> r == self.fp(j, l + 1),
    {
        self.lemma_child_num(j, l);
        let x = self.lemma_node_of(j, l + 1);
        if x.0 < j { assert(dep(self.ks, j) >= l + 1); }
        self.lemma_gn(j, l + 1);
        assert forall|r: int| 0 <= r < self.total() && self.los()[r] && #[trigger] cnt(self.los(), r + 1) == self.gn(j, l + 1) + 1 - self.ns(0, self.s) implies r == self.fp(j, l + 1) by {
            self.lemma_find(j, x.1, l + 1, r);
        }
        x.1
    }
    /// going down along the last key of an item
    pub proof fn lemma_down_last(self, j: int, l: int) -> (a: int)
        requires self.ok(), self.has(j, l), self.s <= l, j + 1 < self.n() ==> dep(self.ks, j + 1) <= l, l < leaf(self.ks, j),
        ensures self.has(j, l + 1), self.node(a, j, l + 1),
            self.gn(j, l + 1) == cnt(self.chs(), self.fp(j, l) + 1) + self.ns(0, self.s + 1) - 1,
            self.ns(0, self.s) <= self.gn(j, l + 1) < self.ns(0, self.h),
    {
        self.lemma_child_num(j, l);
        let x = self.lemma_node_of(j, l + 1);
        if x.1 > j { assert(dep(self.ks, j + 1) >= l + 1); }
        self.lemma_gn(j, l + 1);
        x.0
    }
    /// what getLastLabelPos finds
    pub proof fn lemma_find_last(self, a: int, b: int, l: int, r: int)
        requires self.ok(), self.node(a, b, l), self.s <= l, 0 <= r < self.total(),
            self.gn(a, l) + 1 == self.ns(0, self.h) ==> r == self.total() - 1,
            self.gn(a, l) + 1 < self.ns(0, self.h) ==> r + 1 < self.total() && self.los()[r + 1] && cnt(self.los(), r + 2) == self.gn(a, l) + 2 - self.ns(0, self.s),
        ensures r == self.fp(b, l),
    {
        self.lemma_gn(a, l);
        self.lemma_last(a, b, l);
        if self.gn(a, l) + 1 < self.ns(0, self.h) { self.lemma_find_next(a, b, l, r + 1); }
    }
    /// bytes kept of key j, and where they end
    pub open spec fn kend(self, j: int) -> int { if self.ks[j].len() == leaf(self.ks, j) { leaf(self.ks, j) } else { leaf(self.ks, j) + 1 } }
    pub open spec fn kept(self, j: int) -> Seq<u8> { self.ks[j].subrange(0, self.kend(j)) }
    /// real suffix kept for key j, 0 if there is none
    pub open spec fn real(self, j: int) -> u64 { if self.c.ty >= 2 { real_suffix(self.ks[j], leaf(self.ks, j) + 1, self.c.rl) } else { 0 } }
    pub open spec fn real_len(self) -> int { if self.c.ty >= 2 { self.c.rl } else { 0 } }
    /// its bytes, left-aligned and padded
    pub open spec fn real_bytes(self, j: int) -> Seq<u8> {
        if self.real(j) == 0 { Seq::empty() } else { sfx_bytes(self.real(j), self.c.rl) }
    }
    /// compared with a key: never against the order of the keys, and undecided only if the kept bytes begin the other key
    pub open spec fn cmp_ok(self, j: int, q: Seq<u8>, r: int) -> bool {
        &&& r != 0
        &&& r < 0 ==> lexlt(self.ks[j], q)
        &&& r > 0 && r != 2018 ==> lexlt(q, self.ks[j])
        &&& r == 0 || r == 2018 ==> pre(self.ks[j], q, self.kend(j))
    }
}
impl Tr {
    /// what the suffix says about a key that begins with the kept bytes
    pub open spec fn cmpv(self, j: int, q: Seq<u8>) -> int { if self.c.ty >= 2 { real_cmp(self.real(j), q, leaf(self.ks, j) + 1, self.c.rl) } else { 2018 } }
    /// the answer of a comparison
    pub open spec fn cmp_res(self, j: int, q: Seq<u8>) -> int {
        let p = q.subrange(0, minl(self.kend(j), q.len() as int));
        if lexlt(self.kept(j), p) { -1 } else if lexlt(p, self.kept(j)) { 1 }
        else if self.ks[j].len() == leaf(self.ks, j) && q.len() > self.ks[j].len() { -1 } else { self.cmpv(j, q) }
    }
    /// a seek to q stops at key j, as its suffix does not say that it is less
    pub open spec fn hits(self, j: int, q: Seq<u8>) -> bool { self.along(j, q) && leaf(self.ks, j) < self.ks[j].len() && self.cmpv(j, q) >= 0 }
    pub open spec fn no_hits(self, q: Seq<u8>) -> bool { forall|j: int| !#[trigger] self.hits(j, q) }
}
pub open spec fn sig(r: int) -> int { if r == 2018 { r } else if r < 0 { -1 } else if r > 0 { 1 } else { 0 } }
pub open spec fn sfx_bytes(w: u64, n: int) -> Seq<u8> { Seq::new(((n + 7) / 8) as nat, |i: int| byte_of(w << ((64 - n) as u64), 7 - i)) }
}

verus! {
/// a real suffix does not depend on what lies before it
pub proof fn lemma_real_shift(q: Seq<u8>, s: int, level: int, n: int)
    requires 0 <= s <= q.len(), 0 <= level, 0 <= n <= 64,
    ensures real_suffix(q.subrange(s, q.len() as int), level, n) == real_suffix(q, s + level, n),
{
    let t = q.subrange(s, q.len() as int);
    if !(q.len() < s + level || (q.len() - (s + level)) * 8 < n) {
        let a = kseq(t);
        let b = kseq(q);
        assert forall|i: int| 0 <= i < n implies a[8 * level + i] == #[trigger] b[8 * (s + level) + i] by {
            lemma_kseq(q, s + level + i / 8);
            lemma_kseq(t, level + i / 8);
            assert(t[level + i / 8] == q[s + level + i / 8]);
            assert(8 * level + i == 8 * (level + i / 8) + i % 8);
            assert(8 * (s + level) + i == 8 * (s + level + i / 8) + i % 8);
        }
        lemma_field_ext(a, b, 8 * level, 8 * (s + level), n);
    }
}
pub proof fn lemma_cmp_shift(st: u64, q: Seq<u8>, s: int, level: int, n: int)
    requires 0 <= s <= q.len(), 0 <= level, 0 <= n <= 64,
    ensures real_cmp(st, q.subrange(s, q.len() as int), level, n) == real_cmp(st, q, s + level, n),
{
    lemma_real_shift(q, s, level, n);
    let ql = if q.len() > s + level { (q.len() - s - level) * 8 } else { 0 };
    if 0 < ql < n { lemma_real_shift(q, s, level, ql); }
}
/// order by a part of the keys behind a common beginning
pub proof fn lemma_lex_part(k: Seq<u8>, q: Seq<u8>, s: int, e: int)
    requires 0 <= s <= e <= k.len(), pre(k, q, s),
    ensures ({
        let a = k.subrange(s, e);
        let b = q.subrange(s, minl(e, q.len() as int));
        &&& lexlt(a, b) ==> lexlt(k, q)
        &&& lexlt(b, a) ==> lexlt(q, k)
        &&& a == b ==> pre(k, q, e)
    }),
{
    let f = minl(e, q.len() as int);
    let a = k.subrange(s, e);
    let b = q.subrange(s, f);
    lemma_lcp(a, b);
    lemma_lcp_sym(a, b);
    let m = lcp(a, b);
    assert forall|i: int| 0 <= i < s + m implies #[trigger] k[i] == q[i] by { if i >= s { assert(a[i - s] == b[i - s]); } }
    if m < a.len() && m < b.len() {
        assert(a[m] == k[s + m] && b[m] == q[s + m]);
        lemma_lcp_is(k, q, s + m);
        lemma_lcp_sym(k, q);
    } else if m < a.len() {
        lemma_lcp_is(k, q, s + m);
        lemma_lcp_sym(k, q);
    }
    if a == b {
        assert forall|i: int| 0 <= i < e implies #[trigger] k[i] == q[i] by { if i >= s { assert(a[i - s] == b[i - s]); } }
    }
}
/// a key that ends where the query goes on
pub proof fn lemma_lex_end(k: Seq<u8>, q: Seq<u8>)
    requires pre(k, q, k.len() as int), k.len() < q.len(),
    ensures lexlt(k, q),
{
    lemma_lcp_is(k, q, k.len() as int);
}
impl Tr {
    /// comparing with the suffix, the kept bytes being equal
    pub proof fn lemma_cmp_sfx(self, j: int, q: Seq<u8>)
        requires self.ok(), 0 <= j < self.n(), pre(self.ks[j], q, self.kend(j)), self.kend(j) == self.ks[j].len() && leaf(self.ks, j) == self.ks[j].len() ==> q.len() <= self.ks[j].len(),
        ensures self.cmp_ok(j, q, 2018),
            self.c.ty >= 2 ==> self.cmp_ok(j, q, real_cmp(self.real(j), q, leaf(self.ks, j) + 1, self.c.rl)),
    {
        let l = leaf(self.ks, j) + 1;
        lemma_dep(self.ks, j);
        lemma_low_real(self.ks[j], l, self.c.rl);
        lemma_low_real(q, l, self.c.rl);
        if self.ks[j].len() >= l { lemma_real_cmp(self.ks[j], q, l, self.c.rl); }
    }
    /// kept bytes that differ decide
    pub proof fn lemma_cmp_part(self, j: int, q: Seq<u8>, s: int, e: int)
        requires self.ok(), 0 <= j < self.n(), 0 <= s <= e <= self.kend(j), pre(self.ks[j], q, s),
        ensures ({
            let a = self.ks[j].subrange(s, e);
            let b = q.subrange(s, minl(e, q.len() as int));
            let p = q.subrange(0, minl(self.kend(j), q.len() as int));
            &&& lexlt(a, b) ==> lexlt(self.kept(j), p) && !lexlt(p, self.kept(j))
            &&& lexlt(b, a) ==> lexlt(p, self.kept(j)) && !lexlt(self.kept(j), p)
            &&& a == b && e == self.kend(j) ==> !lexlt(self.kept(j), p) && !lexlt(p, self.kept(j))
        }),
    {
        lemma_dep(self.ks, j);
        let k = self.kept(j);
        let p = q.subrange(0, minl(self.kend(j), q.len() as int));
        assert(pre(k, p, s)) by { assert forall|i: int| 0 <= i < s implies #[trigger] k[i] == p[i] by { assert(k[i] == self.ks[j][i]); } }
        lemma_lex_part(k, p, s, e);
        assert(k.subrange(s, e) =~= self.ks[j].subrange(s, e));
        assert(p.subrange(s, minl(e, p.len() as int)) =~= q.subrange(s, minl(e, q.len() as int)));
        lemma_lex_total(k, p);
        lemma_lex_total(p, k);
        if pre(k, p, k.len() as int) && p.len() <= k.len() { assert(k =~= p); }
    }
}
}
