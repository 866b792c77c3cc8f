// Counting the leaves before a key, level by level.
verus! {
/// number of leaves that the keys before j have on level l
pub open spec fn before(ks: Keys, c: Cfg, j: int, l: int) -> int { tl(ks, c, j, l).sfx.len() as int }
/// where key j is on level l, or where it would be
pub open spec fn place(ks: Keys, c: Cfg, j: int, l: int) -> int { if l <= leaf(ks, j) { pth(ks, c, j, l) } else { tl(ks, c, j, l).lab.len() as int } }
pub proof fn lemma_place(ks: Keys, c: Cfg, j: int, l: int)
    requires keys_ok(ks), 0 <= j < ks.len(), 0 <= l,
    ensures ({
        let x = tv(ks, c, l);
        let p = place(ks, c, j, l);
        &&& 0 <= p <= x.lab.len() && x.lab.len() == x.ch.len() == x.lo.len()
        &&& p - cnt(x.ch, p) == before(ks, c, j, l)
        &&& dep(ks, j) <= l ==> cnt(x.ch, p) == tl(ks, c, j, l + 1).nodes && p == tl(ks, c, j, l).lab.len()
        &&& leaf(ks, j) < l ==> cnt(x.lo, p) == tl(ks, c, j, l).nodes && (p < x.lab.len() ==> x.lo[p])
    }),
{
    let n = ks.len() as int;
    let x = tv(ks, c, l);
    let y = tl(ks, c, j, l);
    let p = place(ks, c, j, l);
    let m = y.lab.len() as int;
    lemma_tl_len(ks, c, j, l);
    lemma_begins(ks, c, j, n, l);
    lemma_cnt_prefix(y.ch, x.ch, m);
    lemma_cnt_prefix(y.lo, x.lo, m);
    lemma_children(ks, c, j, l);
    lemma_sfx_count(ks, c, j, l);
    lemma_tl_wf(ks, c, j, l);
    lemma_dep(ks, j);
    if l <= leaf(ks, j) {
        if dep(ks, j) <= l { lemma_push(ks, c, j, l); }
        else {
            lemma_dep(ks, j - 1);
            lemma_tl_last(ks, c, j - 1, l);
            assert(p == m - 1);
            assert(x.ch[p] == y.ch[p]);
        }
    } else if p < x.lab.len() {
        let i = lemma_opener(ks, c, n, l, p);
        if i < j { lemma_begins(ks, c, i + 1, j, l); }
        lemma_push(ks, c, i, l);
        if dep(ks, i) == l {
            lemma_dep(ks, i);
            lemma_dep(ks, i - 1);
            lemma_dep(ks, j + 1);
            assert(i - 1 > j);
            lemma_other_item(ks, c, j, i - 1, l, j + 1);
        }
    }
}
/// number of keys i to j - 1 with their leaf on one of the levels a to e - 1
pub open spec fn kcnt(ks: Keys, i: int, j: int, a: int, e: int) -> int
    decreases j - i,
{
    if j <= i { 0 } else { kcnt(ks, i, j - 1, a, e) + if a <= leaf(ks, j - 1) < e { 1int } else { 0int } }
}
pub proof fn lemma_kcnt(ks: Keys, i: int, j: int, a: int, m: int, e: int)
    requires a <= m <= e,
    ensures kcnt(ks, i, j, a, e) == kcnt(ks, i, j, a, m) + kcnt(ks, i, j, m, e), kcnt(ks, i, j, a, m) >= 0, kcnt(ks, i, j, m, e) >= 0,
    decreases j - i,
{
    if j > i { lemma_kcnt(ks, i, j - 1, a, m, e); }
}
pub proof fn lemma_kcnt_first(ks: Keys, i: int, j: int, a: int, e: int)
    requires i < j,
    ensures kcnt(ks, i, j, a, e) == kcnt(ks, i + 1, j, a, e) + if a <= leaf(ks, i) < e { 1int } else { 0int },
    decreases j - i,
{
    if j > i + 1 { lemma_kcnt_first(ks, i, j - 1, a, e); }
    else { assert(kcnt(ks, i, j - 1, a, e) == 0); assert(kcnt(ks, i + 1, j, a, e) == 0); }
}
pub proof fn lemma_kcnt_all(ks: Keys, i: int, j: int, a: int, e: int)
    requires i <= j, forall|x: int| i <= x < j ==> a <= #[trigger] leaf(ks, x) < e,
    ensures kcnt(ks, i, j, a, e) == j - i,
    decreases j - i,
{
    if j > i { lemma_kcnt_all(ks, i, j - 1, a, e); assert(a <= leaf(ks, j - 1) < e); }
}
pub proof fn lemma_kcnt_lvl(ks: Keys, c: Cfg, i: int, j: int, l: int)
    requires 0 <= i <= j,
    ensures before(ks, c, j, l) - before(ks, c, i, l) == kcnt(ks, i, j, l, l + 1),
    decreases j - i,
{
    if i < j { lemma_kcnt_lvl(ks, c, i, j - 1, l); }
}
impl Tr {
    /// leaves before key j on levels a to e - 1, those of the levels above counted each time
    pub open spec fn lsum(self, j: int, a: int, e: int) -> int
        decreases e - a,
    {
        if e <= a { 0 } else { self.lsum(j, a, e - 1) + flen(self.rsfx(), a, e - 1) + before(self.ks, self.c, j, e - 1) }
    }
    pub proof fn lemma_lsum(self, i: int, j: int, a: int, e: int)
        requires 0 <= i <= j, a <= e,
        ensures self.lsum(j, a, e) - self.lsum(i, a, e) == kcnt(self.ks, i, j, a, e), kcnt(self.ks, i, j, a, e) >= 0,
        decreases e - a,
    {
        lemma_kcnt(self.ks, i, j, a, e, e);
        if e > a {
            self.lemma_lsum(i, j, a, e - 1);
            lemma_kcnt_lvl(self.ks, self.c, i, j, e - 1);
            lemma_kcnt(self.ks, i, j, a, e - 1, e);
        } else { assert(kcnt(self.ks, i, j, a, e) == 0) by { lemma_kcnt_none(self.ks, i, j, a); } }
    }
    /// keys strictly between i and j
    pub open spec fn between(self, i: int, j: int) -> int { if i < j { j - i - 1 } else { 0 } }
    /// of those with their leaf on levels a to e - 1, counted as the encodings do
    pub proof fn lemma_part_count(self, i: int, j: int, a: int, e: int)
        requires 0 <= i < self.n(), 0 <= j < self.n(), a <= e,
        ensures ({
            let x = self.lsum(i, a, e);
            let y = self.lsum(j, a, e);
            let own = if a <= leaf(self.ks, i) < e { 1int } else { 0int };
            &&& y <= x ==> (i >= j || kcnt(self.ks, i + 1, j, a, e) == 0) && kcnt(self.ks, i + 1, j, a, e) == 0
            &&& y > x ==> i < j && y - x - own == kcnt(self.ks, i + 1, j, a, e) && y - x - own >= 0
        }),
    {
        if i < j {
            self.lemma_lsum(i, j, a, e);
            lemma_kcnt_first(self.ks, i, j, a, e);
            lemma_kcnt(self.ks, i + 1, j, a, e, e);
        } else {
            self.lemma_lsum(j, i, a, e);
        }
    }
    pub proof fn lemma_between(self, i: int, j: int)
        requires self.ok(), 0 <= i < self.n(), 0 <= j < self.n(),
        ensures kcnt(self.ks, i + 1, j, 0, self.s) + kcnt(self.ks, i + 1, j, self.s, self.h) == self.between(i, j),
            kcnt(self.ks, i + 1, j, 0, self.s) >= 0, kcnt(self.ks, i + 1, j, self.s, self.h) >= 0,
    {
        lemma_kcnt(self.ks, i + 1, j, 0, self.s, self.h);
        if i < j {
            let x = self.all();
            self.lemma_all();
            assert forall|k: int| i + 1 <= k < j implies 0 <= #[trigger] leaf(self.ks, k) < self.h by {
                lemma_dep(self.ks, k);
                x.lemma_at(k, leaf(self.ks, k));
            }
            lemma_kcnt_all(self.ks, i + 1, j, 0, self.h);
        }
    }
    /// number of the first node on level l that no key before j has
    pub open spec fn nnext(self, j: int, l: int) -> int { self.ns(0, l) + tl(self.ks, self.c, j, l).nodes }

    /// the place of key j among the items of the sparse levels
    pub open spec fn spos(self, j: int, l: int) -> int { self.cut(l) + place(self.ks, self.c, j, l) }
    pub proof fn lemma_spos(self, j: int, l: int)
        requires self.ok(), 0 <= j < self.n(), self.s <= l < self.h,
        ensures ({
            let p = self.spos(j, l);
            &&& 0 <= p <= self.total() == self.chs().len() == self.los().len()
            &&& 0 <= cnt(self.chs(), p) <= p
            &&& p - cnt(self.chs(), p) == flen(self.rsfx(), self.s, l) + before(self.ks, self.c, j, l)
            &&& dep(self.ks, j) <= l ==> cnt(self.chs(), p) + self.ns(0, self.s + 1) == self.nnext(j, l + 1)
            &&& leaf(self.ks, j) < l ==> cnt(self.los(), p) == self.nnext(j, l) - self.ns(0, self.s) && (p < self.total() ==> self.los()[p])
            &&& self.has(j, l) ==> p == self.fp(j, l)
        }),
    {
        let ks = self.ks;
        let c = self.c;
        let p = place(ks, c, j, l);
        lemma_place(ks, c, j, l);
        self.lemma_rows(l); self.lemma_rows(l + 1); self.lemma_rows(self.h);
        self.lemma_ns(l);
        self.lemma_sizes();
        lemma_flen_mono(self.rlab(), self.s, l + 1, self.h);
        lemma_flen(self.rch(), self.s, self.h); lemma_flen(self.rlo(), self.s, self.h);
        lemma_fcat_cnt(self.rch(), self.s, self.h, l, p);
        lemma_fcat_cnt(self.rlo(), self.s, self.h, l, p);
        lemma_cnt_bounds(self.chs(), self.spos(j, l));
        self.lemma_sfx_before(l);
        self.lemma_ns_split(0, self.s + 1, l + 1);
        self.lemma_ns_split(0, self.s, l);
        if leaf(ks, j) < l && self.spos(j, l) < self.total() {
            if p < self.v(l).lab.len() { lemma_fcat_at(self.rlo(), self.s, self.h, l, p); }
            else { self.lemma_cut_lo(l + 1); }
        }
    }
    proof fn lemma_sfx_before(self, e: int)
        requires self.ok(), self.s <= e,
        ensures flen(self.rsfx(), self.s, e) == self.cut(e) - fcnt(self.rch(), self.s, e),
        decreases e,
    {
        if e > self.s {
            self.lemma_sfx_before(e - 1);
            lemma_sfx_count(self.ks, self.c, self.n(), e - 1);
            lemma_tl_len(self.ks, self.c, self.n(), e - 1);
        }
    }
    /// what counting to the place of key j among the bits of the dense levels gives
    pub proof fn lemma_dcounts(self, j: int, l: int, k: int, m: int)
        requires self.ok(), 0 <= j < self.n(), 0 <= l < self.s,
            splits(self.v(l), l, place(self.ks, self.c, j, l), k), splits_pre(self.v(l), l, place(self.ks, self.c, j, l), m),
        ensures ({
            let x = 256 * self.ns(0, l) + k;
            let y = self.ns(0, l) + m;
            &&& 0 <= x <= self.dls().len() && x <= self.dcs().len() && 0 <= y <= self.dps().len()
            &&& cnt(self.dls(), x) - cnt(self.dcs(), x) + cnt(self.dps(), y) == flen(self.rsfx(), 0, l) + before(self.ks, self.c, j, l)
            &&& dep(self.ks, j) <= l ==> cnt(self.dcs(), x) + 1 == self.nnext(j, l + 1)
        }),
    {
        let ks = self.ks;
        let c = self.c;
        let x = self.v(l);
        let n = x.lab.len() as int;
        let p = place(ks, c, j, l);
        lemma_place(ks, c, j, l);
        lemma_codes(ks, c, l);
        lemma_dlens(x, l, n);
        lemma_tl_len(ks, c, self.n(), l);
        self.lemma_dlen(l); self.lemma_dlen(l + 1); self.lemma_dlen(self.s);
        self.lemma_dsizes();
        lemma_dcnt(x, l, n, p, k);
        lemma_dpcnt(x, l, n, p, m);
        lemma_fcat_cnt(self.rdl(), 0, self.s, l, k);
        lemma_fcat_cnt(self.rdc(), 0, self.s, l, k);
        lemma_fcat_cnt(self.rdp(), 0, self.s, l, m);
        lemma_flen_mono(self.rdp(), 0, l + 1, self.s);
        self.lemma_dfcnt(l);
        self.lemma_ns_split(0, 1, l + 1);
    }
    /// the place of a key that is not on the level
    pub proof fn lemma_dgone(self, j: int, l: int)
        requires self.ok(), 0 <= j < self.n(), 0 <= l < self.s, leaf(self.ks, j) < l,
        ensures splits(self.v(l), l, place(self.ks, self.c, j, l), 256 * tl(self.ks, self.c, j, l).nodes), splits_pre(self.v(l), l, place(self.ks, self.c, j, l), tl(self.ks, self.c, j, l).nodes),
    {
        let x = self.v(l);
        let n = x.lab.len() as int;
        let p = place(self.ks, self.c, j, l);
        let m = tl(self.ks, self.c, j, l).nodes;
        lemma_place(self.ks, self.c, j, l);
        lemma_codes(self.ks, self.c, l);
        lemma_begins(self.ks, self.c, j, self.n(), l);
        lemma_tl_len(self.ks, self.c, j, l);
        assert forall|i: int| 0 <= i < n implies (i < p ==> #[trigger] node_of(x, i) < m && code(x, i) < 256 * m) && (i >= p ==> node_of(x, i) >= m && code(x, i) >= 256 * m) by {
            if i < p { lemma_cnt_mono(x.lo, i + 1, p); } else { lemma_cnt_mono(x.lo, p + 1, i + 1); }
        }
        assert forall|i: int| 0 <= i < n && !#[trigger] is_term(x, l, i) implies (i < p ==> code(x, i) < 256 * m) && (i >= p ==> code(x, i) >= 256 * m) by { assert(node_of(x, i) == node_of(x, i)); }
        assert forall|i: int| 0 <= i < n && #[trigger] is_term(x, l, i) implies (i < p ==> node_of(x, i) < m) && (i >= p ==> node_of(x, i) >= m) by { }
    }
    /// the place of a key that goes on
    pub proof fn lemma_dgoes(self, j: int, l: int)
        requires self.ok(), self.has(j, l), 0 <= l < self.s, self.ks[j].len() > l,
        ensures splits(self.v(l), l, place(self.ks, self.c, j, l), 256 * nno(self.ks, self.c, j, l) + self.ks[j][l]), splits_pre(self.v(l), l, place(self.ks, self.c, j, l), nno(self.ks, self.c, j, l) + 1),
    {
        let ks = self.ks;
        let c = self.c;
        let x = self.v(l);
        let n = x.lab.len() as int;
        let p = pth(ks, c, j, l);
        let m = nno(ks, c, j, l);
        let i = lemma_item_opener(ks, c, j, l);
        lemma_codes(ks, c, l);
        lemma_item(ks, c, j, l);
        lemma_item(ks, c, i, l);
        lemma_term(ks, c, i, l);
        assert(!is_term(x, l, p) && code(x, p) == 256 * m + ks[j][l]);
        assert forall|q: int| 0 <= q < n && !#[trigger] is_term(x, l, q) implies (q < p ==> code(x, q) < code(x, p)) && (q >= p ==> code(x, q) >= code(x, p)) by {
            if q < p { assert(code(x, q) < code(x, p)); }
            if q > p { assert(code(x, p) < code(x, q)); }
        }
        lemma_node_of(x, p);
        assert forall|q: int| 0 <= q < n && #[trigger] is_term(x, l, q) implies (q < p ==> node_of(x, q) < m + 1) && (q >= p ==> node_of(x, q) >= m + 1) by {
            if q < p { lemma_cnt_mono(x.lo, q + 1, p + 1); } else { lemma_cnt_mono(x.lo, p + 1, q); }
        }
    }
    /// the place of a key that ends in its node
    pub proof fn lemma_dends(self, j: int, l: int)
        requires self.ok(), self.has(j, l), 0 <= l < self.s, self.ks[j].len() == l,
        ensures splits(self.v(l), l, place(self.ks, self.c, j, l), 256 * nno(self.ks, self.c, j, l)), splits_pre(self.v(l), l, place(self.ks, self.c, j, l), nno(self.ks, self.c, j, l)),
    {
        let ks = self.ks;
        let c = self.c;
        let x = self.v(l);
        let n = x.lab.len() as int;
        let p = pth(ks, c, j, l);
        let m = nno(ks, c, j, l);
        lemma_codes(ks, c, l);
        lemma_item(ks, c, j, l);
        lemma_ends(ks, j, l);
        lemma_term(ks, c, j, l);
        assert(is_term(x, l, p));
        assert forall|q: int| 0 <= q < n implies (q < p ==> #[trigger] node_of(x, q) < m && code(x, q) < 256 * m) && (q >= p ==> node_of(x, q) >= m && code(x, q) >= 256 * m) by {
            if q < p { lemma_cnt_mono(x.lo, q + 1, p); } else { lemma_cnt_mono(x.lo, p + 1, q + 1); }
        }
        lemma_node_of(x, p);
        assert forall|i: int| 0 <= i < n && !#[trigger] is_term(x, l, i) implies (i < p ==> code(x, i) < 256 * m) && (i >= p ==> code(x, i) >= 256 * m) by { assert(node_of(x, i) == node_of(x, i)); }
        assert forall|i: int| 0 <= i < n && #[trigger] is_term(x, l, i) implies (i < p ==> node_of(x, i) < m) && (i >= p ==> node_of(x, i) >= m) by { }
    }
}
pub proof fn lemma_kcnt_none(ks: Keys, i: int, j: int, a: int)
    ensures kcnt(ks, i, j, a, a) == 0,
    decreases j - i,
{
    if j > i { lemma_kcnt_none(ks, i, j - 1, a); }
}
/// the key that opens the item of key j
pub proof fn lemma_item_opener(ks: Keys, c: Cfg, j: int, l: int) -> (i: int)
    requires keys_ok(ks), has(ks, j, l), ks[j].len() > l,
    ensures 0 <= i <= j, has(ks, i, l), dep(ks, i) <= l, pth(ks, c, i, l) == pth(ks, c, j, l), nno(ks, c, i, l) == nno(ks, c, j, l), ks[i].len() > l, ks[i][l] == ks[j][l],
    decreases j,
{
    if dep(ks, j) <= l { j }
    else {
        lemma_dep(ks, j);
        lemma_dep(ks, j - 1);
        assert(ks[j][l] == ks[j - 1][l]);
        lemma_item_opener(ks, c, j - 1, l)
    }
}
}
