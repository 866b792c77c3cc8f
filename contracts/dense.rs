// The dense levels of a trie: 256 bits per node, and one bit for a key that ends there.
verus! {
// ---- one level
/// items of a level that are marked in the label bitmap have ascending codes
pub open spec fn codes_ok(x: Lvl, l: int) -> bool {
    forall|p: int, q: int| 0 <= p < q < x.lab.len() && !#[trigger] is_term(x, l, p) && !#[trigger] is_term(x, l, q) ==> code(x, p) < code(x, q)
}
pub open spec fn terms(x: Lvl, l: int, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { terms(x, l, n - 1) + if is_term(x, l, n - 1) { 1int } else { 0int } }
}
/// what a bit of the label bitmap means
pub proof fn lemma_dlab_bit(x: Lvl, l: int, n: int, k: int)
    requires lvl_wf(x), 0 <= n <= x.lab.len(), 0 <= k < 256 * x.nodes,
    ensures dlab(x, l, n)[k] <==> exists|p: int| 0 <= p < n && !#[trigger] is_term(x, l, p) && code(x, p) == k,
    decreases n,
{
    lemma_dlens(x, l, n);
    if n > 0 {
        lemma_dlens(x, l, n - 1);
        lemma_dlab_bit(x, l, n - 1, k);
        lemma_node_of(x, n - 1);
        if dlab(x, l, n)[k] {
            if !is_term(x, l, n - 1) && code(x, n - 1) == k { } else {
                let p = choose|p: int| 0 <= p < n - 1 && !#[trigger] is_term(x, l, p) && code(x, p) == k;
                assert(!is_term(x, l, p) && p < n);
            }
        }
    }
}
pub proof fn lemma_dch_bit(x: Lvl, l: int, n: int, k: int)
    requires lvl_wf(x), 0 <= n <= x.lab.len(), 0 <= k < 256 * x.nodes,
    ensures dch(x, l, n)[k] <==> exists|p: int| 0 <= p < n && !#[trigger] is_term(x, l, p) && x.ch[p] && code(x, p) == k,
    decreases n,
{
    lemma_dlens(x, l, n);
    if n > 0 {
        lemma_dlens(x, l, n - 1);
        lemma_dch_bit(x, l, n - 1, k);
        lemma_node_of(x, n - 1);
        if dch(x, l, n)[k] {
            if !is_term(x, l, n - 1) && x.ch[n - 1] && code(x, n - 1) == k { } else {
                let p = choose|p: int| 0 <= p < n - 1 && !#[trigger] is_term(x, l, p) && x.ch[p] && code(x, p) == k;
                assert(!is_term(x, l, p) && p < n);
            }
        }
    }
}
pub proof fn lemma_dpre_bit(x: Lvl, l: int, n: int, k: int)
    requires lvl_wf(x), 0 <= n <= x.lab.len(), 0 <= k < x.nodes,
    ensures dpre(x, l, n)[k] <==> exists|p: int| 0 <= p < n && #[trigger] is_term(x, l, p) && node_of(x, p) == k,
    decreases n,
{
    lemma_dlens(x, l, n);
    if n > 0 {
        lemma_dlens(x, l, n - 1);
        lemma_dpre_bit(x, l, n - 1, k);
        lemma_node_of(x, n - 1);
        if dpre(x, l, n)[k] {
            if is_term(x, l, n - 1) && node_of(x, n - 1) == k { } else {
                let p = choose|p: int| 0 <= p < n - 1 && #[trigger] is_term(x, l, p) && node_of(x, p) == k;
                assert(is_term(x, l, p) && p < n);
            }
        }
    }
}
pub proof fn lemma_cnt_update(s: Seq<bool>, i: int, m: int)
    requires 0 <= i < s.len(), 0 <= m <= s.len(),
    ensures cnt(s.update(i, true), m) == cnt(s, m) + if i < m && !s[i] { 1int } else { 0int },
    decreases m,
{
    if m > 0 { lemma_cnt_update(s, i, m - 1); }
}
pub proof fn lemma_cnt_zeros(n: int, m: int)
    requires 0 <= m <= n,
    ensures cnt(zeros(n), m) == 0,
    decreases m,
{
    if m > 0 { lemma_cnt_zeros(n, m - 1); }
}
pub proof fn lemma_terms(x: Lvl, l: int, n: int)
    ensures 0 <= terms(x, l, n), n >= 0 ==> terms(x, l, n) <= n,
    decreases n,
{
    if n > 0 { lemma_terms(x, l, n - 1); }
}
/// k separates the first p items from the others
pub open spec fn splits(x: Lvl, l: int, p: int, k: int) -> bool {
    &&& 0 <= p <= x.lab.len() && 0 <= k <= 256 * x.nodes
    &&& forall|i: int| 0 <= i < p && !#[trigger] is_term(x, l, i) ==> code(x, i) < k
    &&& forall|i: int| p <= i < x.lab.len() && !#[trigger] is_term(x, l, i) ==> code(x, i) >= k
}
pub proof fn lemma_dcnt(x: Lvl, l: int, n: int, p: int, k: int)
    requires lvl_wf(x), codes_ok(x, l), 0 <= n <= x.lab.len(), splits(x, l, p, k),
    ensures cnt(dlab(x, l, n), k) == minl(n, p) - terms(x, l, minl(n, p)), cnt(dch(x, l, n), k) == cnt(x.ch, minl(n, p)),
    decreases n,
{
    lemma_dlens(x, l, n);
    if n > 0 {
        let i = n - 1;
        lemma_dlens(x, l, i);
        lemma_dcnt(x, l, i, p, k);
        lemma_node_of(x, i);
        let c = code(x, i);
        if !is_term(x, l, i) {
            lemma_dlab_bit(x, l, i, c);
            lemma_dch_bit(x, l, i, c);
            if dlab(x, l, i)[c] {
                let j = choose|j: int| 0 <= j < i && !#[trigger] is_term(x, l, j) && code(x, j) == c;
                assert(code(x, j) < code(x, i));
            }
            if dch(x, l, i)[c] {
                let j = choose|j: int| 0 <= j < i && !#[trigger] is_term(x, l, j) && x.ch[j] && code(x, j) == c;
                assert(code(x, j) < code(x, i));
            }
            lemma_cnt_update(dlab(x, l, i), c, k);
            lemma_cnt_update(dch(x, l, i), c, k);
        }
    } else {
        lemma_cnt_zeros(256 * x.nodes, k);
    }
}
/// m separates the first p end-of-key items from the others
pub open spec fn splits_pre(x: Lvl, l: int, p: int, m: int) -> bool {
    &&& 0 <= p <= x.lab.len() && 0 <= m <= x.nodes
    &&& forall|i: int| 0 <= i < p && #[trigger] is_term(x, l, i) ==> node_of(x, i) < m
    &&& forall|i: int| p <= i < x.lab.len() && #[trigger] is_term(x, l, i) ==> node_of(x, i) >= m
}
pub proof fn lemma_dpcnt(x: Lvl, l: int, n: int, p: int, m: int)
    requires lvl_wf(x), 0 <= n <= x.lab.len(), splits_pre(x, l, p, m),
    ensures cnt(dpre(x, l, n), m) == terms(x, l, minl(n, p)),
    decreases n,
{
    lemma_dlens(x, l, n);
    if n > 0 {
        let i = n - 1;
        lemma_dlens(x, l, i);
        lemma_dpcnt(x, l, i, p, m);
        lemma_node_of(x, i);
        if is_term(x, l, i) {
            lemma_dpre_bit(x, l, i, node_of(x, i));
            if dpre(x, l, i)[node_of(x, i)] {
                let j = choose|j: int| 0 <= j < i && #[trigger] is_term(x, l, j) && node_of(x, j) == node_of(x, i);
                lemma_cnt_mono(x.lo, j + 1, i);
            }
            lemma_cnt_update(dpre(x, l, i), node_of(x, i), m);
        }
    } else {
        lemma_cnt_zeros(x.nodes, m);
    }
}
}
verus! {
// ---- the levels of a trie
/// keys with the same node number share the node
pub proof fn lemma_node_eq(ks: Keys, c: Cfg, i: int, j: int, l: int)
    requires keys_ok(ks), has(ks, i, l), has(ks, j, l), i <= j,
    ensures nno(ks, c, i, l) <= nno(ks, c, j, l), sh(ks, i, j, l) <==> nno(ks, c, i, l) == nno(ks, c, j, l),
{
    lemma_begins(ks, c, i + 1, j + 1, l);
    if sh(ks, i, j, l) { lemma_same_node(ks, c, i, j, l); }
    else {
        let t = choose|t: int| i < t <= j && !(#[trigger] dep(ks, t) >= l);
        lemma_other_node(ks, c, i, j, l, t);
    }
}
/// an end-of-key item is that of a key that ends there
pub proof fn lemma_term(ks: Keys, c: Cfg, j: int, l: int)
    requires keys_ok(ks), has(ks, j, l), dep(ks, j) <= l,
    ensures is_term(tv(ks, c, l), l, pth(ks, c, j, l)) == (ks[j].len() == l),
        code(tv(ks, c, l), pth(ks, c, j, l)) == 256 * nno(ks, c, j, l) + sym(ks[j], l),
{
    lemma_item(ks, c, j, l);
    lemma_push(ks, c, j, l);
    lemma_dep(ks, j);
    if ks[j].len() == l { lemma_ends(ks, j, l); }
    else if is_term(tv(ks, c, l), l, pth(ks, c, j, l)) {
        assert(leaf(ks, j) == l && dep(ks, j) < l);
        assert(dep(ks, j + 1) == l);
        lemma_dep(ks, j + 1);
        assert(sh(ks, j, j + 1, l));
        lemma_labels(ks, c, j, j + 1, l);
        assert(!sh(ks, j, j + 1, l + 1)) by { assert(dep(ks, j + 1) < l + 1); }
    }
}
pub proof fn lemma_codes(ks: Keys, c: Cfg, l: int)
    requires keys_ok(ks), 0 <= l,
    ensures codes_ok(tv(ks, c, l), l), lvl_wf(tv(ks, c, l)),
{
    let x = tv(ks, c, l);
    let n = ks.len() as int;
    lemma_tl_wf(ks, c, n, l);
    assert forall|p: int, q: int| 0 <= p < q < x.lab.len() && !#[trigger] is_term(x, l, p) && !#[trigger] is_term(x, l, q) implies code(x, p) < code(x, q) by {
        let i = lemma_opener(ks, c, n, l, p);
        let k = lemma_opener(ks, c, n, l, q);
        if k <= i { lemma_begins(ks, c, k + 1, i + 1, l); }
        lemma_term(ks, c, i, l);
        lemma_term(ks, c, k, l);
        lemma_item(ks, c, i, l);
        lemma_item(ks, c, k, l);
        lemma_node_eq(ks, c, i, k, l);
        if nno(ks, c, i, l) == nno(ks, c, k, l) {
            lemma_labels(ks, c, i, k, l);
            if sh(ks, i, k, l + 1) { lemma_same_item(ks, c, i, k, l); }
        }
    }
}
impl Tr {
    /// the same trie with all levels sparse
    pub open spec fn all(self) -> Tr { Tr { s: 0, ..self } }
    pub open spec fn rdl(self) -> Rows<bool> { |l: int| dlab(self.v(l), l, self.v(l).lab.len() as int) }
    pub open spec fn rdc(self) -> Rows<bool> { |l: int| dch(self.v(l), l, self.v(l).lab.len() as int) }
    pub open spec fn rdp(self) -> Rows<bool> { |l: int| dpre(self.v(l), l, self.v(l).lab.len() as int) }
    pub open spec fn dls(self) -> Seq<bool> { fcat(self.rdl(), 0, self.s) }
    pub open spec fn dcs(self) -> Seq<bool> { fcat(self.rdc(), 0, self.s) }
    pub open spec fn dps(self) -> Seq<bool> { fcat(self.rdp(), 0, self.s) }
    pub open spec fn dsfx(self) -> Seq<u64> { fcat(self.rsfx(), 0, self.s) }
    /// number of dense nodes
    pub open spec fn dn(self) -> int { self.ns(0, self.s) }
    /// first bit of the node of key j
    pub open spec fn d0(self, j: int, l: int) -> int { 256 * self.gn(j, l) }

    pub proof fn lemma_all(self)
        requires self.ok(),
        ensures self.all().ok(), forall|l: int| #[trigger] self.all().v(l) == self.v(l),
            forall|a: int, b: int| #[trigger] self.all().ns(a, b) == self.ns(a, b),
            forall|j: int, l: int| #[trigger] self.all().gn(j, l) == self.gn(j, l),
            forall|a: int, b: int, l: int| #[trigger] self.all().node(a, b, l) == self.node(a, b, l),
            self.all().rsfx() == self.rsfx(),
    {
        assert forall|a: int, b: int| #[trigger] self.all().ns(a, b) == self.ns(a, b) by { self.lemma_all_ns(a, b); }
        assert(self.all().rsfx() =~= self.rsfx());
        assert forall|l: int| #[trigger] self.all().v(l) == self.v(l) by { }
        assert forall|l: int| self.all().h - 1 <= l implies no_items(#[trigger] self.all().v(l)) by { assert(no_items(self.v(l))); }
    }
    proof fn lemma_all_ns(self, a: int, b: int)
        ensures self.all().ns(a, b) == self.ns(a, b),
        decreases b - a,
    {
        if a < b { self.lemma_all_ns(a, b - 1); assert(self.all().v(b - 1) == self.v(b - 1)); }
    }
    pub proof fn lemma_dlen(self, e: int)
        requires 0 <= e,
        ensures flen(self.rdl(), 0, e) == 256 * self.ns(0, e), flen(self.rdc(), 0, e) == 256 * self.ns(0, e), flen(self.rdp(), 0, e) == self.ns(0, e), 0 <= self.ns(0, e),
        decreases e,
    {
        if e > 0 {
            self.lemma_dlen(e - 1);
            lemma_tl_len(self.ks, self.c, self.n(), e - 1);
            lemma_dlens(self.v(e - 1), e - 1, self.v(e - 1).lab.len() as int);
        }
    }
    pub proof fn lemma_dsizes(self)
        requires self.ok(),
        ensures self.dls().len() == 256 * self.dn(), self.dcs().len() == 256 * self.dn(), self.dps().len() == self.dn(),
            0 <= self.dn() <= 0xff_0000, self.s > 0 ==> self.dn() > 0, self.ns(0, 1) == 1, self.ns(0, 0) == 0,
    {
        self.lemma_dlen(self.s);
        lemma_flen(self.rdl(), 0, self.s);
        lemma_flen(self.rdc(), 0, self.s);
        lemma_flen(self.rdp(), 0, self.s);
        self.lemma_sizes();
        self.lemma_root();
        assert(self.ns(0, 0) == 0);
        assert(self.ns(0, 1) == self.ns(0, 0) + self.v(0).nodes);
        if self.s > 0 { self.lemma_ns_split(0, 1, self.s); }
    }
    /// node numbers on dense levels
    pub proof fn lemma_dgn(self, j: int, l: int)
        requires self.ok(), self.has(j, l), 0 <= l < self.s,
        ensures 0 <= self.gn(j, l) < self.dn(), 0 <= nno(self.ks, self.c, j, l) < self.v(l).nodes, self.ns(0, l) >= 0,
            l > 0 ==> self.gn(j, l) > 0,
    {
        self.lemma_all();
        self.all().lemma_at(j, l);
        self.lemma_ns_split(0, l, l + 1);
        self.lemma_ns_split(0, l + 1, self.s);
        assert(self.ns(l, l + 1) == self.v(l).nodes) by { assert(self.ns(l, l) == 0); }
        self.lemma_dsizes();
        if l > 0 { self.lemma_ns_split(0, 1, l); }
    }
    /// bit c of a node in the label bitmap, in terms of the keys
    pub proof fn lemma_dbit(self, a: int, b: int, l: int, c: int)
        requires self.ok(), self.node(a, b, l), 0 <= l < self.s, 0 <= c < 256,
        ensures ({
            let k = self.d0(a, l) + c;
            &&& 0 <= k < self.dls().len() && k < self.dcs().len()
            &&& self.dls()[k] <==> exists|i: int| a <= i <= b && #[trigger] self.has(i, l) && self.ks[i].len() > l && self.ks[i][l] == c && dep(self.ks, i) <= l
            &&& self.dcs()[k] ==> self.dls()[k]
            &&& forall|i: int| a <= i <= b && #[trigger] self.has(i, l) && self.ks[i].len() > l && self.ks[i][l] == c && dep(self.ks, i) <= l ==> (self.dcs()[k] == (l < leaf(self.ks, i)))
        }),
    {
        let ks = self.ks;
        let cc = self.c;
        let x = self.v(l);
        let n = x.lab.len() as int;
        let m = nno(ks, cc, a, l);
        let k = 256 * m + c;
        self.lemma_dgn(a, l);
        lemma_codes(ks, cc, l);
        lemma_dlens(x, l, n);
        self.lemma_dlen(l);
        self.lemma_dsizes();
        lemma_fcat_at(self.rdl(), 0, self.s, l, k);
        lemma_fcat_at(self.rdc(), 0, self.s, l, k);
        lemma_flen(self.rdl(), 0, self.s);
        lemma_flen(self.rdc(), 0, self.s);
        lemma_dlab_bit(x, l, n, k);
        lemma_dch_bit(x, l, n, k);
        assert(self.dls()[self.d0(a, l) + c] == dlab(x, l, n)[k]);
        assert(self.dcs()[self.d0(a, l) + c] == dch(x, l, n)[k]);
        if dlab(x, l, n)[k] {
            let p = choose|p: int| 0 <= p < n && !#[trigger] is_term(x, l, p) && code(x, p) == k;
            let i = self.lemma_bit_key(a, b, l, c, p);
            assert(self.has(i, l));
        }
        if dch(x, l, n)[k] {
            let p = choose|p: int| 0 <= p < n && !#[trigger] is_term(x, l, p) && x.ch[p] && code(x, p) == k;
            assert(!is_term(x, l, p));
        }
        assert forall|i: int| a <= i <= b && #[trigger] self.has(i, l) && ks[i].len() > l && ks[i][l] == c && dep(ks, i) <= l implies
            dlab(x, l, n)[k] && dch(x, l, n)[k] == (l < leaf(ks, i)) by {
            assert(sh(ks, a, i, l));
            lemma_same_node(ks, cc, a, i, l);
            let p = pth(ks, cc, i, l);
            lemma_term(ks, cc, i, l);
            lemma_item(ks, cc, i, l);
            assert(!is_term(x, l, p));
            if dch(x, l, n)[k] {
                let q = choose|q: int| 0 <= q < n && !#[trigger] is_term(x, l, q) && x.ch[q] && code(x, q) == k;
                if p < q { assert(code(x, p) < code(x, q)); }
                if q < p { assert(code(x, q) < code(x, p)); }
            }
        }
    }
    /// the key of an item in a node
    proof fn lemma_bit_key(self, a: int, b: int, l: int, c: int, p: int) -> (i: int)
        requires self.ok(), self.node(a, b, l), 0 <= l, 0 <= c < 256, 0 <= p < self.v(l).lab.len(), !is_term(self.v(l), l, p),
            code(self.v(l), p) == 256 * nno(self.ks, self.c, a, l) + c,
        ensures a <= i <= b, self.has(i, l), self.ks[i].len() > l, self.ks[i][l] == c, dep(self.ks, i) <= l, pth(self.ks, self.c, i, l) == p,
    {
        let ks = self.ks;
        let cc = self.c;
        let i = lemma_opener(ks, cc, self.n(), l, p);
        lemma_term(ks, cc, i, l);
        lemma_item(ks, cc, i, l);
        lemma_dep(ks, i);
        assert(nno(ks, cc, i, l) == nno(ks, cc, a, l));
        if i < a { lemma_node_eq(ks, cc, i, a, l); assert(dep(ks, a) >= l); }
        else { lemma_node_eq(ks, cc, a, i, l); }
        if i > b { lemma_node_eq(ks, cc, b, i, l); lemma_same_node(ks, cc, a, b, l); assert(dep(ks, b + 1) >= l); }
        i
    }
    /// the bit that says that a key ends in the node
    pub proof fn lemma_dpre(self, a: int, b: int, l: int)
        requires self.ok(), self.node(a, b, l), 0 <= l < self.s,
        ensures 0 <= self.gn(a, l) < self.dps().len(), self.dps()[self.gn(a, l)] == (self.ks[a].len() == l),
    {
        let ks = self.ks;
        let cc = self.c;
        let x = self.v(l);
        let n = x.lab.len() as int;
        let m = nno(ks, cc, a, l);
        self.lemma_dgn(a, l);
        lemma_codes(ks, cc, l);
        lemma_dlens(x, l, n);
        self.lemma_dlen(l);
        self.lemma_dsizes();
        lemma_fcat_at(self.rdp(), 0, self.s, l, m);
        lemma_dpre_bit(x, l, n, m);
        assert(self.dps()[self.gn(a, l)] == dpre(x, l, n)[m]);
        if dpre(x, l, n)[m] {
            let p = choose|p: int| 0 <= p < n && #[trigger] is_term(x, l, p) && node_of(x, p) == m;
            let i = lemma_opener(ks, cc, self.n(), l, p);
            lemma_term(ks, cc, i, l);
            lemma_item(ks, cc, i, l);
            lemma_ends(ks, i, l);
            if i < a { lemma_node_eq(ks, cc, i, a, l); assert(dep(ks, a) >= l); }
            else if i > a { lemma_node_eq(ks, cc, a, i, l); assert(dep(ks, i) >= l); }
        }
        if ks[a].len() == l {
            lemma_term(ks, cc, a, l);
            lemma_item(ks, cc, a, l);
            assert(is_term(x, l, pth(ks, cc, a, l)));
        }
    }
    /// set bits of the levels above
    pub proof fn lemma_dfcnt(self, e: int)
        requires self.ok(), 0 <= e,
        ensures fcnt(self.rdc(), 0, e) == self.ns(1, e + 1), fcnt(self.rdl(), 0, e) - fcnt(self.rdc(), 0, e) + fcnt(self.rdp(), 0, e) == flen(self.rsfx(), 0, e),
        decreases e,
    {
        if e > 0 {
            let l = e - 1;
            let x = self.v(l);
            let n = x.lab.len() as int;
            self.lemma_dfcnt(l);
            lemma_codes(self.ks, self.c, l);
            lemma_dlens(x, l, n);
            lemma_tl_len(self.ks, self.c, self.n(), l);
            assert forall|i: int| 0 <= i < n implies #[trigger] code(x, i) < 256 * x.nodes && node_of(x, i) < x.nodes by { lemma_node_of(x, i); }
            assert forall|i: int| 0 <= i < n && !#[trigger] is_term(x, l, i) implies code(x, i) < 256 * x.nodes by { lemma_node_of(x, i); }
            assert forall|i: int| 0 <= i < n && #[trigger] is_term(x, l, i) implies node_of(x, i) < x.nodes by { lemma_node_of(x, i); }
            assert(splits(x, l, n, 256 * x.nodes));
            assert(splits_pre(x, l, n, x.nodes));
            lemma_dcnt(x, l, n, n, 256 * x.nodes);
            lemma_dpcnt(x, l, n, n, x.nodes);
            lemma_sfx_count(self.ks, self.c, self.n(), l);
            lemma_children(self.ks, self.c, self.n(), l);
            assert(self.ns(1, e + 1) == self.ns(1, e) + self.v(e).nodes);
        } else {
            assert(self.ns(1, 1) == 0);
        }
    }
    /// counts up to the item of key i, which opens it
    pub proof fn lemma_dat(self, i: int, l: int)
        requires self.ok(), self.has(i, l), 0 <= l < self.s, dep(self.ks, i) <= l, self.ks[i].len() > l,
        ensures ({
            let k = self.d0(i, l) + self.ks[i][l];
            let x = self.v(l);
            let p = pth(self.ks, self.c, i, l);
            &&& 0 <= k < 256 * self.dn() && k < self.dls().len() && k < self.dcs().len() && 0 <= self.gn(i, l) < self.dps().len()
            &&& cnt(self.dcs(), k + 1) == self.ns(1, l + 1) + cnt(x.ch, p + 1)
            &&& cnt(self.dls(), k + 1) - cnt(self.dcs(), k + 1) + cnt(self.dps(), self.gn(i, l) + 1) == flen(self.rsfx(), 0, l) + p + 1 - cnt(x.ch, p + 1)
        }),
    {
        let ks = self.ks;
        let cc = self.c;
        let x = self.v(l);
        let n = x.lab.len() as int;
        let p = pth(ks, cc, i, l);
        let m = nno(ks, cc, i, l);
        let k = 256 * m + ks[i][l];
        self.lemma_dgn(i, l);
        self.lemma_dsizes();
        self.lemma_dlen(l);
        lemma_codes(ks, cc, l);
        lemma_dlens(x, l, n);
        lemma_item(ks, cc, i, l);
        lemma_term(ks, cc, i, l);
        assert(!is_term(x, l, p) && code(x, p) == k);
        assert forall|q: int| 0 <= q < n && !#[trigger] is_term(x, l, q) implies (q <= p ==> code(x, q) < k + 1) && (q > p ==> code(x, q) >= k + 1) by {
            if q < p { assert(code(x, q) < code(x, p)); }
            if q > p { assert(code(x, p) < code(x, q)); }
        }
        lemma_node_of(x, p);
        assert(splits(x, l, p + 1, k + 1));
        assert forall|q: int| 0 <= q < n && #[trigger] is_term(x, l, q) implies (q <= p ==> node_of(x, q) < m + 1) && (q > p ==> node_of(x, q) >= m + 1) by {
            if q <= p { lemma_cnt_mono(x.lo, q + 1, p + 1); } else { lemma_cnt_mono(x.lo, p + 1, q); }
        }
        assert(splits_pre(x, l, p + 1, m + 1));
        lemma_dcnt(x, l, n, p + 1, k + 1);
        lemma_dpcnt(x, l, n, p + 1, m + 1);
        lemma_fcat_cnt(self.rdl(), 0, self.s, l, k + 1);
        lemma_fcat_cnt(self.rdc(), 0, self.s, l, k + 1);
        lemma_fcat_cnt(self.rdp(), 0, self.s, l, m + 1);
        self.lemma_dfcnt(l);
    }
    /// the child of key i's item, which key i opens
    pub proof fn lemma_dchild(self, i: int, l: int)
        requires self.ok(), self.has(i, l + 1), 0 <= l < self.s, dep(self.ks, i) <= l,
        ensures self.has(i, l), self.ks[i].len() > l, 0 <= self.d0(i, l) + self.ks[i][l] < 256 * self.dn(),
            cnt(self.dcs(), self.d0(i, l) + self.ks[i][l] + 1) == self.gn(i, l + 1),
    {
        lemma_dep(self.ks, i);
        self.lemma_dat(i, l);
        lemma_child(self.ks, self.c, i, l);
        self.lemma_dsizes();
        self.lemma_ns_split(0, 1, l + 1);
    }
    /// the place of the suffix of key i, whose item is its leaf
    pub proof fn lemma_dsfx(self, i: int)
        requires self.ok(), 0 <= i < self.n(), leaf(self.ks, i) < self.s, self.ks[i].len() > leaf(self.ks, i),
        ensures ({
            let l = leaf(self.ks, i);
            let k = self.d0(i, l) + self.ks[i][l];
            let f = cnt(self.dls(), k + 1) - cnt(self.dcs(), k + 1) + cnt(self.dps(), self.gn(i, l) + 1) - 1;
            &&& self.has(i, l) && 0 <= k < 256 * self.dn()
            &&& 0 <= f < self.dsfx().len() && self.dsfx()[f] == ksfx(self.ks, self.c, i)
        }),
    {
        let l = leaf(self.ks, i);
        lemma_dep(self.ks, i);
        self.lemma_dat(i, l);
        lemma_leaf_sfx(self.ks, self.c, i);
        let f = pth(self.ks, self.c, i, l) + 1 - cnt(self.v(l).ch, pth(self.ks, self.c, i, l) + 1) - 1;
        lemma_fcat_at(self.rsfx(), 0, self.s, l, f);
        lemma_flen(self.rsfx(), 0, self.s);
    }
    /// the place of the suffix of key a, which ends in the node; k is at most the first bit of the node
    pub proof fn lemma_dsfx_term(self, a: int, b: int, l: int, k: int)
        requires self.ok(), self.node(a, b, l), 0 <= l < self.s, self.ks[a].len() == l, self.d0(a, l) <= k < self.d0(a, l) + 256,
            forall|c: int| self.d0(a, l) <= c < k ==> !#[trigger] self.dls()[c],
        ensures ({
            let f = cnt(self.dls(), k + 1) - cnt(self.dcs(), k + 1) + cnt(self.dps(), self.gn(a, l) + 1) - 1 - if self.dls()[k] && !self.dcs()[k] { 1int } else { 0 };
            &&& leaf(self.ks, a) == l && 0 <= k < 256 * self.dn()
            &&& 0 <= f < self.dsfx().len() && self.dsfx()[f] == ksfx(self.ks, self.c, a)
        }),
    {
        let ks = self.ks;
        let cc = self.c;
        let x = self.v(l);
        let n = x.lab.len() as int;
        let p = pth(ks, cc, a, l);
        let m = nno(ks, cc, a, l);
        let h = k - 256 * self.ns(0, l);
        self.lemma_dgn(a, l);
        self.lemma_dsizes();
        self.lemma_dlen(l);
        lemma_codes(ks, cc, l);
        lemma_dlens(x, l, n);
        lemma_item(ks, cc, a, l);
        lemma_ends(ks, a, l);
        lemma_term(ks, cc, a, l);
        assert(is_term(x, l, p));
        lemma_node_of(x, p);
        lemma_leaf_sfx(ks, cc, a);
        assert forall|g: int| 0 <= g < 256 * x.nodes implies #[trigger] dlab(x, l, n)[g] == self.dls()[256 * self.ns(0, l) + g] && dch(x, l, n)[g] == self.dcs()[256 * self.ns(0, l) + g] by {
            lemma_fcat_at(self.rdl(), 0, self.s, l, g);
            lemma_fcat_at(self.rdc(), 0, self.s, l, g);
        }
        // items before p are in earlier nodes, those after it have codes from h on
        assert forall|q: int| 0 <= q < p && !#[trigger] is_term(x, l, q) implies code(x, q) < h by {
            lemma_cnt_mono(x.lo, q + 1, p);
        }
        assert forall|q: int| p < q < n && !#[trigger] is_term(x, l, q) implies code(x, q) >= h by {
            lemma_cnt_mono(x.lo, p + 1, q + 1);
            lemma_node_of(x, q);
            lemma_dlab_bit(x, l, n, code(x, q));
            assert(dlab(x, l, n)[code(x, q)]);
        }
        assert(splits(x, l, p + 1, h));
        lemma_dcnt(x, l, n, p + 1, h);
        lemma_fcat_cnt(self.rdl(), 0, self.s, l, h);
        lemma_fcat_cnt(self.rdc(), 0, self.s, l, h);
        assert forall|q: int| 0 <= q < n && #[trigger] is_term(x, l, q) implies (q <= p ==> node_of(x, q) < m + 1) && (q > p ==> node_of(x, q) >= m + 1) by {
            if q <= p { lemma_cnt_mono(x.lo, q + 1, p + 1); } else { lemma_cnt_mono(x.lo, p + 1, q); }
        }
        assert(splits_pre(x, l, p + 1, m + 1));
        lemma_dpcnt(x, l, n, p + 1, m + 1);
        lemma_fcat_cnt(self.rdp(), 0, self.s, l, m + 1);
        self.lemma_dfcnt(l);
        assert(dlab(x, l, n)[h] == self.dls()[256 * self.ns(0, l) + h]);
        if self.dcs()[k] {
            lemma_dch_bit(x, l, n, h);
            lemma_dlab_bit(x, l, n, h);
            let q = choose|q: int| 0 <= q < n && !#[trigger] is_term(x, l, q) && x.ch[q] && code(x, q) == h;
            assert(!is_term(x, l, q));
        }
        let f = p + 1 - cnt(x.ch, p + 1) - 1;
        lemma_fcat_at(self.rsfx(), 0, self.s, l, f);
        lemma_flen(self.rsfx(), 0, self.s);
    }
}
}
verus! {
pub proof fn lemma_cnt_sub(s: Seq<bool>, u: Seq<bool>, m: int)
    requires 0 <= m <= s.len(), m <= u.len(), forall|i: int| 0 <= i < m ==> #[trigger] s[i] ==> u[i],
    ensures 0 <= cnt(s, m) <= cnt(u, m),
    decreases m,
{
    if m > 0 { lemma_cnt_sub(s, u, m - 1); }
}
pub proof fn lemma_fcat_sub(f: Rows<bool>, g: Rows<bool>, s: int, e: int)
    requires forall|l: int| s <= l < e ==> #[trigger] f(l).len() == g(l).len(),
        forall|l: int, p: int| s <= l < e && 0 <= p < f(l).len() && #[trigger] f(l)[p] ==> g(l)[p],
    ensures fcat(f, s, e).len() == fcat(g, s, e).len(), forall|i: int| 0 <= i < fcat(f, s, e).len() && #[trigger] fcat(f, s, e)[i] ==> fcat(g, s, e)[i],
    decreases e - s,
{
    if s < e {
        lemma_fcat_sub(f, g, s, e - 1);
        let x = fcat(f, s, e - 1);
        let y = fcat(g, s, e - 1);
        assert(f(e - 1).len() == g(e - 1).len());
        assert forall|i: int| 0 <= i < fcat(f, s, e).len() && #[trigger] fcat(f, s, e)[i] implies fcat(g, s, e)[i] by {
            if i < x.len() { assert(x[i]); } else { assert(f(e - 1)[i - x.len()]); }
        }
    }
}
impl Tr {
    /// a child bit is on a label bit
    pub proof fn lemma_dsub(self)
        requires self.ok(),
        ensures self.dls().len() == self.dcs().len(), forall|i: int| 0 <= i < self.dcs().len() && #[trigger] self.dcs()[i] ==> self.dls()[i],
    {
        assert forall|l: int| 0 <= l < self.s implies #[trigger] self.rdc()(l).len() == self.rdl()(l).len() by {
            lemma_tl_len(self.ks, self.c, self.n(), l);
            lemma_dlens(self.v(l), l, self.v(l).lab.len() as int);
        }
        assert forall|l: int, p: int| 0 <= l < self.s && 0 <= p < self.rdc()(l).len() && #[trigger] self.rdc()(l)[p] implies self.rdl()(l)[p] by {
            let x = self.v(l);
            let n = x.lab.len() as int;
            lemma_codes(self.ks, self.c, l);
            lemma_dlens(x, l, n);
            lemma_tl_len(self.ks, self.c, self.n(), l);
            assert(self.rdc()(l) == dch(x, l, n));
            lemma_dch_bit(x, l, n, p);
            lemma_dlab_bit(x, l, n, p);
            let q = choose|q: int| 0 <= q < n && !#[trigger] is_term(x, l, q) && x.ch[q] && code(x, q) == p;
            assert(!is_term(x, l, q));
        }
        lemma_fcat_sub(self.rdc(), self.rdl(), 0, self.s);
    }
    pub proof fn lemma_dsfx_len(self)
        requires self.ok(),
        ensures self.dsfx().len() == flen(self.rsfx(), 0, self.s), flen(self.rsfx(), 0, self.s) <= 0xff_0000,
    {
        self.lemma_all();
        self.all().lemma_sizes();
        lemma_flen(self.rsfx(), 0, self.s);
        lemma_flen_mono(self.rsfx(), 0, self.s, self.h);
    }
    pub proof fn lemma_all_finds(self, q: Seq<u8>)
        ensures self.all().finds(q) == self.finds(q), forall|i: int| #[trigger] self.all().along(i, q) == self.along(i, q), forall|i: int| #[trigger] self.all().sfx_ok(i, q) == self.sfx_ok(i, q),
    {
        if self.finds(q) { let i = choose|i: int| self.hit(i, q); assert(self.all().hit(i, q)); }
        if self.all().finds(q) { let i = choose|i: int| self.all().hit(i, q); assert(self.hit(i, q)); }
    }
    /// the bytes a node goes on with are those of the label bitmap
    pub proof fn lemma_dbyte(self, a: int, b: int, l: int, c: int) -> (i: int)
        requires self.ok(), self.node(a, b, l), 0 <= l < self.s, 0 <= c < 256, self.dls()[self.d0(a, l) + c],
        ensures 0 <= self.d0(a, l) + c < 256 * self.dn(), self.d0(a, l) == self.d0(i, l),
            a <= i <= b, self.has(i, l), self.ks[i].len() > l, self.ks[i][l] == c, dep(self.ks, i) <= l, leaf(self.ks, i) >= l, self.dcs()[self.d0(a, l) + c] == (l < leaf(self.ks, i)),
    {
        self.lemma_dbit(a, b, l, c);
        self.lemma_dsizes();
        let i = choose|i: int| a <= i <= b && #[trigger] self.has(i, l) && self.ks[i].len() > l && self.ks[i][l] == c && dep(self.ks, i) <= l;
        assert(sh(self.ks, a, i, l));
        lemma_same_node(self.ks, self.c, a, i, l);
        i
    }
    /// q goes on in a dense node
    pub proof fn lemma_dstep(self, a: int, b: int, l: int, q: Seq<u8>) -> (i: int)
        requires self.ok(), self.node(a, b, l), 0 <= l < self.s, l < q.len(), pre(self.ks[a], q, l), self.dls()[self.d0(a, l) + q[l]],
        ensures a <= i <= b, self.has(i, l), pre(self.ks[i], q, l + 1), self.ks[i].len() > l, self.ks[i][l] == q[l], dep(self.ks, i) <= l, leaf(self.ks, i) >= l,
            self.dcs()[self.d0(a, l) + q[l]] == (l < leaf(self.ks, i)),
            self.d0(a, l) == self.d0(i, l),
            leaf(self.ks, i) == l ==> self.finds(q) == self.sfx_ok(i, q) && (forall|k: int| #[trigger] self.along(k, q) ==> k == i) && self.along(i, q),
    {
        let i = self.lemma_dbyte(a, b, l, q[l] as int);
        assert(sh(self.ks, a, i, l));
        lemma_dep(self.ks, a);
        self.lemma_pre_sh(a, i, q, l);
        if leaf(self.ks, i) == l { self.lemma_hit_leaf(i, l, q); }
        i
    }
    pub proof fn lemma_dmiss(self, a: int, b: int, l: int, q: Seq<u8>)
        requires self.ok(), self.node(a, b, l), 0 <= l < self.s, l < q.len(), pre(self.ks[a], q, l), !self.dls()[self.d0(a, l) + q[l]],
        ensures !self.finds(q), forall|k: int| !#[trigger] self.along(k, q),
    {
        let x = self.all();
        self.lemma_all();
        self.lemma_all_finds(q);
        self.lemma_dbit(a, b, l, q[l] as int);
        assert(x.node(a, b, l));
        assert forall|p: int| x.rs(a, b, l) <= p <= x.fp(b, l) implies #[trigger] x.labs()[p] != q[l] by {
            let i = x.lemma_node_byte(a, b, l, p);
            assert(self.has(i, l));
        }
        x.lemma_miss(a, b, l, q);
        assert forall|k: int| !#[trigger] self.along(k, q) by { assert(x.along(k, q) == self.along(k, q)); }
    }
    pub proof fn lemma_dend(self, a: int, b: int, l: int, q: Seq<u8>)
        requires self.ok(), self.node(a, b, l), 0 <= l < self.s, l == q.len(), pre(self.ks[a], q, l),
        ensures self.finds(q) == (self.ks[a].len() == l && self.sfx_ok(a, q)),
            self.ks[a].len() == l ==> self.ks[a] == q && leaf(self.ks, a) == l && self.along(a, q),
            forall|k: int| #[trigger] self.along(k, q) ==> k == a && self.ks[a].len() == l,
            0 <= self.gn(a, l) < self.dps().len(), self.dps()[self.gn(a, l)] == (self.ks[a].len() == l),
    {
        let x = self.all();
        self.lemma_all();
        self.lemma_all_finds(q);
        self.lemma_dpre(a, b, l);
        assert(x.node(a, b, l));
        x.lemma_end(a, b, l, q);
        assert forall|k: int| #[trigger] self.along(k, q) implies k == a && self.ks[a].len() == l by { assert(x.along(k, q)); }
    }
}
}
