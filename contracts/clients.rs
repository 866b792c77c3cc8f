// What users compose from the public functions: the answers of two filters of the same keys, of a filter and its
// deserialized copy, and of a filter before and after other queries. Each function below is checked against the
// contracts of the functions it calls.
verus! {
impl Tr {
    /// the same keys and suffixes, perhaps split elsewhere
    pub open spec fn like(self, u: Tr) -> bool { self.ks == u.ks && self.c == u.c && self.ok() && u.ok() }
    pub proof fn lemma_like(self, u: Tr, a: Seq<u8>, ai: bool, b: Seq<u8>, bi: bool)
        requires self.like(u),
        ensures self.finds(a) == u.finds(a), self.range(a, ai, b, bi) == u.range(a, ai, b, bi), self.n() == u.n(),
            forall|r: int| self.counted(a, b, r) == u.counted(a, b, r),
    {
        assert forall|i: int| self.hit(i, a) == u.hit(i, a) by { }
        if self.finds(a) { let i = choose|i: int| self.hit(i, a); assert(u.hit(i, a)); }
        if u.finds(a) { let i = choose|i: int| u.hit(i, a); assert(self.hit(i, a)); }
        if self.range(a, ai, b, bi) { self.lemma_like_range(u, a, ai, b, bi); }
        if u.range(a, ai, b, bi) { u.lemma_like_range(self, a, ai, b, bi); }
        assert forall|r: int| self.counted(a, b, r) == u.counted(a, b, r) by {
            if self.counted(a, b, r) { self.lemma_like_counted(u, a, b, r); }
            if u.counted(a, b, r) { u.lemma_like_counted(self, a, b, r); }
        }
    }
    pub proof fn lemma_like_seek(self, u: Tr, q: Seq<u8>, inc: bool, g: int, j: int, fp: bool)
        requires self.like(u),
        ensures self.split(q, inc, g) == u.split(q, inc, g), self.seek_at(q, g, j, fp) == u.seek_at(q, g, j, fp), self.hits(j, q) == u.hits(j, q), self.no_hits(q) == u.no_hits(q),
            self.seek_less_at(q, inc, g, j, fp) == u.seek_less_at(q, inc, g, j, fp),
    {
        assert forall|i: int| #[trigger] self.hits(i, q) == u.hits(i, q) by { }
        assert forall|i: int| #[trigger] u.hits(i, q) == self.hits(i, q) by { }
    }
    proof fn lemma_like_range(self, u: Tr, a: Seq<u8>, ai: bool, b: Seq<u8>, bi: bool)
        requires self.like(u), self.range(a, ai, b, bi),
        ensures u.range(a, ai, b, bi),
    {
        let (g, j, fp) = choose|g: int, j: int, fp: bool| #[trigger] self.split(a, ai, g) && #[trigger] self.seek_at(a, g, j, fp) && self.range_at(j, b, bi);
        self.lemma_like_seek(u, a, ai, g, j, fp);
        assert(u.split(a, ai, g) && u.seek_at(a, g, j, fp) && u.range_at(j, b, bi));
    }
    proof fn lemma_like_counted(self, u: Tr, a: Seq<u8>, b: Seq<u8>, r: int)
        requires self.like(u), self.counted(a, b, r),
        ensures u.counted(a, b, r),
    {
        let (g, i) = choose|g: int, i: int| #[trigger] self.stops(a, g, i) && if i == self.n() { r == 0 } else { self.counted_to(i, b, r) };
        self.lemma_like_stops(u, a, g, i);
        if i != self.n() {
            let (h, j) = choose|h: int, j: int| #[trigger] self.stops(b, h, j) && r == self.between(i, if j == self.n() { j - 1 } else { j });
            self.lemma_like_stops(u, b, h, j);
            assert(u.counted_to(i, b, r));
        }
    }
    proof fn lemma_like_stops(self, u: Tr, q: Seq<u8>, g: int, i: int)
        requires self.like(u), self.stops(q, g, i),
        ensures u.stops(q, g, i),
    {
        let fp = choose|fp: bool| #[trigger] self.seek_at(q, g, i, fp);
        self.lemma_like_seek(u, q, true, g, i, fp);
    }
    /// no seek to a lesser key that ends nowhere
    proof fn lemma_less_none(self, q: Seq<u8>, inc: bool)
        requires self.ok(), self.no_hits(q),
        ensures self.seek_less_at(q, inc, 0, -1, false),
    { }
    proof fn lemma_less_like(self, u: Tr, q: Seq<u8>, inc: bool, h: int, j: int, fp: bool)
        requires self.like(u),
        ensures self.seek_less_at(q, inc, h, j, fp) == u.seek_less_at(q, inc, h, j, fp), self.no_hits(q) == u.no_hits(q),
    { self.lemma_like_seek(u, q, inc, h, j, fp); }
}

impl SuRF_Iter {
    proof fn lemma_stands(&self, t: Tr, j: int)
        requires self.at(t, j), t.ok(),
        ensures self.valid(), self.ready(t), 0 <= j < t.n(),
    { }
}
/// what can be read at two iterators on the same key
pub fn same_place(i: &SuRF_Iter, k: &SuRF_Iter, q: &Str, Ghost(t): Ghost<Tr>, Ghost(u): Ghost<Tr>, Ghost(j): Ghost<int>)
    requires t.like(u), i.at(t, j), k.at(u, j), q.b@.len() <= 0x7fff_ffff,
{
    let x = i.getKey(Ghost(t), Ghost(j));
    let y = k.getKey(Ghost(u), Ghost(j));
    assert(x.b@ =~= y.b@);
    let mut x: u64 = 0;
    let mut y: u64 = 0;
    let n = i.getSuffix(&mut x, Ghost(t), Ghost(j));
    let m = k.getSuffix(&mut y, Ghost(u), Ghost(j));
    assert(n == m && x == y);
    let mut n: u32 = 0;
    let mut m: u32 = 0;
    let x = i.getKeyWithSuffix(&mut n, Ghost(t), Ghost(j));
    let y = k.getKeyWithSuffix(&mut m, Ghost(u), Ghost(j));
    assert(x.b@ =~= y.b@ && n == m);
    let n = i.compare(q, Ghost(t), Ghost(j));
    let m = k.compare(q, Ghost(u), Ghost(j));
    assert(sig(n as int) == sig(m as int));
}
/// the iterators that seeks return
pub fn same_iters(i: &mut SuRF_Iter, k: &mut SuRF_Iter, q: &Str, Ghost(t): Ghost<Tr>, Ghost(u): Ghost<Tr>, Ghost(j): Ghost<int>)
    requires t.like(u), old(i).valid() == old(k).valid(), old(i).could_be_fp_ == old(k).could_be_fp_, old(i).valid() ==> old(i).at(t, j) && old(k).at(u, j), q.b@.len() <= 0x7fff_ffff,
{
    let x = i.isValid();
    let y = k.isValid();
    assert(x == y);
    let v = i.getFpFlag();
    let w = k.getFpFlag();
    assert(v == w);
    if x {
        same_place(&*i, &*k, q, Ghost(t), Ghost(u), Ghost(j));
        let x = i.op_inc(0, Ghost(t), Ghost(j));
        let y = k.op_inc(0, Ghost(u), Ghost(j));
        assert(x == y);
        if x {
            same_place(&*i, &*k, q, Ghost(t), Ghost(u), Ghost(j + 1));
            let x = i.op_dec(0, Ghost(t), Ghost(j + 1));
            let y = k.op_dec(0, Ghost(u), Ghost(j + 1));
            assert(x == y);
            if x {
                same_place(&*i, &*k, q, Ghost(t), Ghost(u), Ghost(j));
                let x = i.op_dec(0, Ghost(t), Ghost(j));
                let y = k.op_dec(0, Ghost(u), Ghost(j));
                assert(x == y);
                if x { same_place(&*i, &*k, q, Ghost(t), Ghost(u), Ghost(j - 1)); }
            }
        }
    }
}
/// two filters of the same keys and suffixes: point, range and count queries
#[verifier::spinoff_prover] pub fn same_points(f: &mut SuRF, g: &mut SuRF, a: &Str, ai: bool, b: &Str, bi: bool, Ghost(t): Ghost<Tr>, Ghost(u): Ghost<Tr>)
    requires t.like(u), old(f).holds(t), old(g).holds(u), a.b@.len() <= 0x7fff_ffff, b.b@.len() <= 0x7fff_ffff,
    ensures final(f).holds(t), final(g).holds(u),
{
    hide(SuRF::holds); hide(SuRF::kept_filter);
    hide(Tr::finds);
    hide(Tr::range);
    hide(Tr::split);
    hide(Tr::within);
    hide(Tr::touches);
    proof { t.lemma_like(u, a.b@, ai, b.b@, bi); }
    let x = f.lookupKey(a, Ghost(t));
    let y = g.lookupKey(a, Ghost(u));
    assert(x == y);
    let x = f.lookupRange(a, ai, b, bi, Ghost(t));
    let y = g.lookupRange(a, ai, b, bi, Ghost(u));
    assert(x == y);
}
#[verifier::spinoff_prover] pub fn same_counts(f: &mut SuRF, g: &mut SuRF, a: &Str, b: &Str, Ghost(t): Ghost<Tr>, Ghost(u): Ghost<Tr>)
    requires t.like(u), old(f).holds(t), old(g).holds(u), a.b@.len() <= 0x7fff_ffff, b.b@.len() <= 0x7fff_ffff,
    ensures final(f).holds(t), final(g).holds(u),
{
    hide(SuRF::holds); hide(SuRF::kept_filter);
    hide(Tr::counted);
    hide(Tr::split);
    hide(Tr::between);
    let x = f.approxCount_Str_Str(a, b, Ghost(t));
    let y = g.approxCount_Str_Str(a, b, Ghost(u));
    proof { t.lemma_like(u, a.b@, true, b.b@, true); u.lemma_counted_one(a.b@, b.b@, x as int, y as int); }
    assert(x == y);
}
/// their first and last keys
pub fn same_ends(f: &SuRF, g: &SuRF, q: &Str, Ghost(t): Ghost<Tr>, Ghost(u): Ghost<Tr>)
    requires t.like(u), f.holds(t), g.holds(u), q.b@.len() <= 0x7fff_ffff,
{
    hide(SuRF::holds);
    hide(SuRF_Iter::at);
    let mut i = f.moveToFirst(Ghost(t));
    let mut k = g.moveToFirst(Ghost(u));
    proof { i.lemma_stands(t, 0); k.lemma_stands(u, 0); }
    same_iters(&mut i, &mut k, q, Ghost(t), Ghost(u), Ghost(0));
    let mut i = f.moveToLast(Ghost(t));
    let mut k = g.moveToLast(Ghost(u));
    proof { i.lemma_stands(t, t.n() - 1); k.lemma_stands(u, t.n() - 1); }
    same_iters(&mut i, &mut k, q, Ghost(t), Ghost(u), Ghost(t.n() - 1));
}
/// their seeks: upward
pub fn same_seeks(f: &SuRF, g: &SuRF, a: &Str, ai: bool, q: &Str, Ghost(t): Ghost<Tr>, Ghost(u): Ghost<Tr>, Ghost(h): Ghost<int>) -> (r: (SuRF_Iter, SuRF_Iter, Ghost<int>))
    requires t.like(u), f.holds(t), g.holds(u), a.b@.len() <= 0x7fff_ffff, q.b@.len() <= 0x7fff_ffff, t.split(a.b@, ai, h),
    ensures r.0.valid() == r.1.valid(), r.0.could_be_fp_ == r.1.could_be_fp_, r.0.ready(t), r.1.ready(u), r.0.valid() ==> r.0.at(t, r.2@) && r.1.at(u, r.2@),
{
    hide(SuRF::holds);
    hide(SuRF_Iter::at);
    hide(SuRF_Iter::ready);
    hide(Tr::split);
    hide(Tr::seek_at);
    proof { t.lemma_like_seek(u, a.b@, ai, h, 0, false); }
    let i = f.moveToKeyGreaterThan(a, ai, Ghost(t), Ghost(h));
    let k = g.moveToKeyGreaterThan(a, ai, Ghost(u), Ghost(h));
    let ghost p = if i.valid() { choose|p: int| #[trigger] i.at(t, p) && t.seek_at(a.b@, h, p, i.could_be_fp_) } else { h };
    let ghost p2 = if k.valid() { choose|p: int| #[trigger] k.at(u, p) && u.seek_at(a.b@, h, p, k.could_be_fp_) } else { h };
    proof {
        t.lemma_like_seek(u, a.b@, ai, h, p, i.could_be_fp_);
        u.lemma_seek_one(a.b@, h, p, i.could_be_fp_, p2, k.could_be_fp_);
        if i.valid() { i.lemma_stands(t, p); }
        if k.valid() { k.lemma_stands(u, p2); }
    }
    (i, k, Ghost(p))
}
/// downward
pub fn same_seeks_back(f: &SuRF, g: &SuRF, a: &Str, bi: bool, q: &Str, Ghost(t): Ghost<Tr>, Ghost(u): Ghost<Tr>, Ghost(h): Ghost<int>) -> (r: (SuRF_Iter, SuRF_Iter, Ghost<int>))
    requires t.like(u), f.holds(t), g.holds(u), a.b@.len() <= 0x7fff_ffff, q.b@.len() <= 0x7fff_ffff, t.split(a.b@, !bi, h),
    ensures r.0.valid() == r.1.valid(), r.0.could_be_fp_ == r.1.could_be_fp_, r.0.valid() ==> r.0.at(t, r.2@) && r.1.at(u, r.2@),
{
    hide(SuRF::holds);
    hide(SuRF_Iter::at);
    hide(SuRF_Iter::ready);
    hide(Tr::split);
    hide(Tr::seek_less_at);
    hide(Tr::no_hits);
    proof { t.lemma_like_seek(u, a.b@, !bi, h, 0, false); }
    let i = f.moveToKeyLessThan(a, bi, Ghost(t), Ghost(h));
    let k = g.moveToKeyLessThan(a, bi, Ghost(u), Ghost(h));
    let ghost p = if i.valid() { choose|p: int| #[trigger] i.at(t, p) && t.seek_less_at(a.b@, bi, h, p, i.could_be_fp_) } else { -1 };
    let ghost p2 = if k.valid() { choose|p: int| #[trigger] k.at(u, p) && u.seek_less_at(a.b@, bi, h, p, k.could_be_fp_) } else { -1 };
    proof {
        t.lemma_less_like(u, a.b@, bi, h, p, i.could_be_fp_);
        if !i.valid() { t.lemma_less_none(a.b@, bi); }
        if !k.valid() { u.lemma_less_none(a.b@, bi); }
        u.lemma_less_one(a.b@, bi, h, p, i.could_be_fp_, p2, k.could_be_fp_);
        if i.valid() { i.lemma_stands(t, p); }
        if k.valid() { k.lemma_stands(u, p2); }
    }
    (i, k, Ghost(p))
}
/// what seeks find
pub fn same_found(f: &SuRF, g: &SuRF, a: &Str, ai: bool, b: &Str, bi: bool, Ghost(t): Ghost<Tr>, Ghost(u): Ghost<Tr>)
    requires t.like(u), f.holds(t), g.holds(u), a.b@.len() <= 0x7fff_ffff, b.b@.len() <= 0x7fff_ffff,
{
    hide(SuRF::holds);
    hide(SuRF_Iter::at);
    hide(Tr::split);
    let ghost mut h = 0int;
    let ghost mut l = 0int;
    proof {
        h = t.lemma_split_some(a.b@, ai);
        l = t.lemma_split_some(b.b@, !bi);
    }
    let (mut i, mut k, gp) = same_seeks(f, g, a, ai, b, Ghost(t), Ghost(u), Ghost(h));
    let (mut m, mut n, gq) = same_seeks_back(f, g, b, bi, a, Ghost(t), Ghost(u), Ghost(l));
    if i.isValid() && m.isValid() {
        proof { i.lemma_stands(t, gp@); k.lemma_stands(u, gp@); m.lemma_stands(t, gq@); n.lemma_stands(u, gq@); }
        let x = f.approxCount_Iter_Iter(&i, &m, Ghost(t), Ghost(gp@), Ghost(gq@));
        let y = g.approxCount_Iter_Iter(&k, &n, Ghost(u), Ghost(gp@), Ghost(gq@));
        assert(x == y);
    }
    same_iters(&mut i, &mut k, b, Ghost(t), Ghost(u), gp);
    same_iters(&mut m, &mut n, a, Ghost(t), Ghost(u), gq);
}
/// everything that can be asked
pub fn same_answers(f: &mut SuRF, g: &mut SuRF, a: &Str, ai: bool, b: &Str, bi: bool, Ghost(t): Ghost<Tr>, Ghost(u): Ghost<Tr>)
    requires t.like(u), old(f).holds(t), old(g).holds(u), a.b@.len() <= 0x7fff_ffff, b.b@.len() <= 0x7fff_ffff,
    ensures final(f).holds(t), final(g).holds(u),
{
    same_points(f, g, a, ai, b, bi, Ghost(t), Ghost(u));
    same_counts(f, g, a, b, Ghost(t), Ghost(u));
    same_ends(&*f, &*g, b, Ghost(t), Ghost(u));
    same_found(&*f, &*g, a, ai, b, bi, Ghost(t), Ghost(u));
}
}
// ---- serialization (P09)
verus! {
impl SuRF {
    /// equal contents, equal images
    pub proof fn lemma_img_one(&self, o: &SuRF, m: Seq<u8>, w: Seq<u8>, t: Tr)
        requires self.same(o), self.holds(t), o.holds(t), self.img(m), o.img(w), m.len() == self.isz(), w.len() == o.isz(),
        ensures m =~= w,
    {
        hide(LoudsDense::holds); hide(LoudsSparse::holds);
        self.louds_dense_.lemma_small(t);
        self.louds_sparse_.lemma_small(t);
        let a = self.louds_dense_.isz();
        self.louds_dense_.lemma_img_one(&*o.louds_dense_, m, w, 0);
        self.louds_sparse_.lemma_img_one(&*o.louds_sparse_, m, w, a);
        lemma_agree_join(m, w, 0, a, self.isz());
        reveal(agree);
        assert(m =~= w);
    }
}
/// a filter and its copy: the size is exact, the answers are the same, and so are the bytes
#[verifier::spinoff_prover] pub fn roundtrip(f: &mut SuRF, a: &Str, ai: bool, b: &Str, bi: bool, Ghost(t): Ghost<Tr>)
    requires t.ok(), old(f).holds(t), a.b@.len() <= 0x7fff_ffff, b.b@.len() <= 0x7fff_ffff,
{
    hide(LoudsDense::holds); hide(LoudsSparse::holds); hide(Tr::ok);
    let n = f.serializedSize(Ghost(t));
    let m = f.serialize(Ghost(t));
    assert(m@.len() == n);
    let mut p: u64 = 0;
    let ghost gf = *f;
    let mut g = SuRF::deSerialize(&m, &mut p, Ghost(t), Ghost(gf));
    assert(p == n);
    let w = g.serialize(Ghost(t));
    proof { g.lemma_img_one(&gf, w@, m@, t); }
    assert(w@ =~= m@);
    same_answers(f, &mut g, a, ai, b, bi, Ghost(t), Ghost(t));
}
}
// ---- the split and repeated keys (P18)
verus! {
/// every key of rs is in us
pub open spec fn among(rs: Keys, us: Keys) -> bool { forall|i: int| 0 <= i < rs.len() ==> us.contains(#[trigger] rs[i]) }
/// distinct keys are keys
proof fn lemma_dd_from(ks: Keys, n: int, j: int)
    requires 0 <= j < dd(ks, n).len(), n <= ks.len(),
    ensures ks.contains(dd(ks, n)[j]),
    decreases n,
{
    if n > 1 && ks[n - 1] == ks[n - 2] { lemma_dd_from(ks, n - 1, j); }
    else if j < dd(ks, n - 1).len() { lemma_dd_from(ks, n - 1, j); }
    else { assert(ks[n - 1] == dd(ks, n)[j]); }
}
proof fn lemma_asc(ks: Keys, i: int, j: int)
    requires keys_ok(ks), 0 <= i < j < ks.len(),
    ensures lexlt(ks[i], ks[j]),
    decreases j - i,
{
    assert(ord(ks, j));
    if i < j - 1 { lemma_asc(ks, i, j - 1); lemma_lex_trans(ks[i], ks[j - 1], ks[j]); }
}
/// ascending lists of the same keys are equal
proof fn lemma_asc_one(a: Keys, b: Keys, n: int)
    requires keys_ok(a), keys_ok(b), among(a, b), among(b, a), 0 <= n <= a.len(),
    ensures n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    decreases n,
{
    if n > 0 {
        lemma_asc_one(a, b, n - 1);
        let m = n - 1;
        assert(b.contains(a[m]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[m];
        if j < m { assert(a[j] == b[j]); lemma_asc(a, j, m); lemma_lex_total(a[j], a[m]); }
        assert(a.contains(b[m]));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == b[m];
        if i < m { assert(a[i] == b[i]); lemma_asc(b, i, m); lemma_lex_total(b[i], b[m]); }
        if j > m && i > m { lemma_asc(b, m, j); lemma_asc(a, m, i); lemma_lex_total(a[m], b[m]); }
    }
}
/// what is stored depends on the set of keys only
pub proof fn lemma_dd_one(rs: Keys, us: Keys)
    requires sorted_ok(rs), sorted_ok(us), among(rs, us), among(us, rs),
    ensures dd(rs, rs.len() as int) == dd(us, us.len() as int),
{
    let a = dd(rs, rs.len() as int);
    let b = dd(us, us.len() as int);
    lemma_dd_ok(rs, rs.len() as int);
    lemma_dd_ok(us, us.len() as int);
    lemma_dd_among(rs, us);
    lemma_dd_among(us, rs);
    lemma_asc_one(a, b, a.len() as int);
    lemma_asc_one(b, a, b.len() as int);
    assert(a =~= b);
}
proof fn lemma_dd_among(rs: Keys, us: Keys)
    requires sorted_ok(rs), sorted_ok(us), among(rs, us),
    ensures among(dd(rs, rs.len() as int), dd(us, us.len() as int)),
{
    let a = dd(rs, rs.len() as int);
    let b = dd(us, us.len() as int);
    assert forall|i: int| 0 <= i < a.len() implies b.contains(#[trigger] a[i]) by {
        lemma_dd_from(rs, rs.len() as int, i);
        let x = choose|x: int| 0 <= x < rs.len() && rs[x] == a[i];
        assert(us.contains(rs[x]));
        let y = choose|y: int| 0 <= y < us.len() && us[y] == rs[x];
        let j = lemma_dd_has(us, us.len() as int, y);
        assert(b[j] == a[i]);
    }
}
/// two filters of the same set of keys, each list with repetitions of its own, encoded in two ways
#[verifier::spinoff_prover] pub fn same_keys(k: &Vec<Str>, l: &Vec<Str>, dense: bool, other: bool, ratio: u32, rate: u32, ty: u32, hl: u32, rl: u32, a: &Str, ai: bool, b: &Str, bi: bool)
    requires legal(k@), legal(l@), among(strs(k@), strs(l@)), among(strs(l@), strs(k@)), 1 <= ratio <= 0x7000_0000, 1 <= rate <= 0x7000_0000, ty <= 3, hl <= 64, rl <= 64, hl + rl <= 64,
        a.b@.len() <= 0x7fff_ffff, b.b@.len() <= 0x7fff_ffff,
{
    hide(SuRF::holds);
    let mut f = SuRF::new_6(k, dense, ratio, ty, hl, rl);
    let mut g = SuRF::new_6(l, other, rate, ty, hl, rl);
    let ghost t = choose|t: Tr| f.holds(t) && trie_of(t, k@, cfg_of(ty, hl, rl));
    let ghost u = choose|t: Tr| g.holds(t) && trie_of(t, l@, cfg_of(ty, hl, rl));
    proof { lemma_dd_one(strs(k@), strs(l@)); }
    same_answers(&mut f, &mut g, a, ai, b, bi, Ghost(t), Ghost(u));
}
}
// ---- queries and each other (P19)
verus! {
impl SuRF {
    pub proof fn lemma_same_kept(&self, o: &SuRF)
        requires self.kept_filter(o),
        ensures self.same(o),
    {
        reveal(LoudsDense::same); reveal(LoudsSparse::same); reveal(BitvectorRank::same); reveal(BitvectorSelect::same); reveal(BitvectorSuffix::same); reveal(LabelVector::same);
    }
}
/// a query: which one, and its arguments
pub struct Query { pub op: u32, pub a: Str, pub ai: bool, pub b: Str, pub bi: bool }
#[verifier::opaque] pub open spec fn askable(qs: Seq<Query>) -> bool { forall|i: int| 0 <= i < qs.len() ==> (#[trigger] qs[i]).a.b@.len() <= 0x7fff_ffff && qs[i].b.b@.len() <= 0x7fff_ffff }
/// any queries one after the other
pub fn others(f: &mut SuRF, qs: &Vec<Query>, Ghost(t): Ghost<Tr>)
    requires t.ok(), old(f).holds(t), askable(qs@),
    ensures final(f).holds(t), final(f).kept_filter(old(f)),
{
    hide(SuRF::holds); hide(SuRF_Iter::at); hide(Tr::split); hide(Tr::within); hide(Tr::touches); hide(Tr::range); hide(Tr::counted); hide(Tr::seek_at); hide(Tr::seek_less_at);
    let mut i: usize = 0;
    while i < qs.len()
        invariant t.ok(), f.holds(t), f.kept_filter(old(f)), i <= qs@.len(),
            askable(qs@),
        decreases qs@.len() - i,
    {
        let q = &qs[i];
        proof { reveal(askable); }
        query(f, q, Ghost(t));
        i += 1;
    }
}
#[verifier::spinoff_prover] pub fn query(f: &mut SuRF, q: &Query, Ghost(t): Ghost<Tr>)
    requires t.ok(), old(f).holds(t), q.a.b@.len() <= 0x7fff_ffff, q.b.b@.len() <= 0x7fff_ffff,
    ensures final(f).holds(t), final(f).kept_filter(old(f)),
{
    hide(SuRF::holds); hide(SuRF_Iter::at); hide(Tr::split); hide(Tr::within); hide(Tr::touches); hide(Tr::range); hide(Tr::counted); hide(Tr::seek_at); hide(Tr::seek_less_at);
    let ghost mut h = 0int;
    let ghost mut l = 0int;
    proof { h = t.lemma_split_some(q.a.b@, q.ai); l = t.lemma_split_some(q.a.b@, !q.ai); }
    if q.op == 0 { let _ = f.lookupKey(&q.a, Ghost(t)); }
    else if q.op == 1 { let _ = f.lookupRange(&q.a, q.ai, &q.b, q.bi, Ghost(t)); }
    else if q.op == 2 { let _ = f.approxCount_Str_Str(&q.a, &q.b, Ghost(t)); }
    else if q.op == 3 { let _ = f.moveToKeyGreaterThan(&q.a, q.ai, Ghost(t), Ghost(h)); }
    else if q.op == 4 { let _ = f.moveToKeyLessThan(&q.a, q.ai, Ghost(t), Ghost(l)); }
    else if q.op == 5 { let _ = f.moveToFirst(Ghost(t)); }
    else if q.op == 6 { let _ = f.moveToLast(Ghost(t)); }
    else if q.op == 7 { let _ = f.serializedSize(Ghost(t)); }
    else { let _ = f.serialize(Ghost(t)); }
}
/// point and range queries before and after any queries
#[verifier::spinoff_prover] pub fn repeated_points(f: &mut SuRF, a: &Str, ai: bool, b: &Str, bi: bool, qs: &Vec<Query>, Ghost(t): Ghost<Tr>)
    requires t.ok(), old(f).holds(t), a.b@.len() <= 0x7fff_ffff, b.b@.len() <= 0x7fff_ffff,
        askable(qs@),
    ensures final(f).holds(t),
{
    hide(SuRF::holds); hide(SuRF::kept_filter); hide(Tr::within); hide(Tr::touches); hide(Tr::range); hide(Tr::finds); hide(Tr::ok);
    let p = f.lookupKey(a, Ghost(t));
    let q = f.lookupRange(a, ai, b, bi, Ghost(t));
    others(f, qs, Ghost(t));
    let v = f.lookupKey(a, Ghost(t));
    assert(v == p);
    let v = f.lookupRange(a, ai, b, bi, Ghost(t));
    assert(v == q);
}
/// counts
#[verifier::spinoff_prover] pub fn repeated_counts(f: &mut SuRF, a: &Str, b: &Str, qs: &Vec<Query>, Ghost(t): Ghost<Tr>)
    requires t.ok(), old(f).holds(t), a.b@.len() <= 0x7fff_ffff, b.b@.len() <= 0x7fff_ffff,
        askable(qs@),
    ensures final(f).holds(t),
{
    hide(SuRF::holds); hide(SuRF::kept_filter); hide(Tr::split); hide(Tr::between); hide(Tr::counted); hide(Tr::ok);
    let r = f.approxCount_Str_Str(a, b, Ghost(t));
    others(f, qs, Ghost(t));
    let v = f.approxCount_Str_Str(a, b, Ghost(t));
    proof { t.lemma_counted_one(a.b@, b.b@, v as int, r as int); }
    assert(v == r);
}
/// an iterator stands where it stood, which is where the seek still leads
#[verifier::spinoff_prover] pub fn repeated_seeks(f: &mut SuRF, a: &Str, ai: bool, q: &Str, qs: &Vec<Query>, Ghost(t): Ghost<Tr>, Ghost(h): Ghost<int>)
    requires t.ok(), old(f).holds(t), a.b@.len() <= 0x7fff_ffff, q.b@.len() <= 0x7fff_ffff, t.split(a.b@, ai, h),
        askable(qs@),
    ensures final(f).holds(t),
{
    hide(SuRF::holds); hide(SuRF::kept_filter); hide(SuRF_Iter::at); hide(SuRF_Iter::ready); hide(Tr::split); hide(Tr::seek_at);
    let mut i = f.moveToKeyGreaterThan(a, ai, Ghost(t), Ghost(h));
    let ghost gi = i;
    others(f, qs, Ghost(t));
    assert(i == gi);
    let mut k = f.moveToKeyGreaterThan(a, ai, Ghost(t), Ghost(h));
    let ghost j = if i.valid() { choose|j: int| #[trigger] i.at(t, j) && t.seek_at(a.b@, h, j, i.could_be_fp_) } else { h };
    let ghost e = if k.valid() { choose|j: int| #[trigger] k.at(t, j) && t.seek_at(a.b@, h, j, k.could_be_fp_) } else { h };
    proof {
        t.lemma_seek_one(a.b@, h, j, i.could_be_fp_, e, k.could_be_fp_);
        if i.valid() { i.lemma_stands(t, j); }
        if k.valid() { k.lemma_stands(t, e); }
    }
    same_iters(&mut i, &mut k, q, Ghost(t), Ghost(t), Ghost(j));
}
/// the serialized bytes
#[verifier::spinoff_prover] pub fn repeated_bytes(f: &mut SuRF, qs: &Vec<Query>, Ghost(t): Ghost<Tr>)
    requires t.ok(), old(f).holds(t),
        askable(qs@),
    ensures final(f).holds(t),
{
    hide(LoudsDense::holds); hide(LoudsSparse::holds);
    let ghost gf = *f;
    let m = f.serialize(Ghost(t));
    others(f, qs, Ghost(t));
    same_bytes(f, &m, Ghost(t), Ghost(gf));
}
fn same_bytes(f: &SuRF, m: &Vec<u8>, Ghost(t): Ghost<Tr>, Ghost(gf): Ghost<SuRF>)
    requires t.ok(), f.holds(t), gf.holds(t), f.kept_filter(&gf), gf.img(m@), m@.len() == gf.isz(),
{
    hide(LoudsDense::holds); hide(LoudsSparse::holds);
    let w = f.serialize(Ghost(t));
    proof { f.lemma_same_kept(&gf); f.lemma_img_one(&gf, w@, m@, t); }
    assert(w@ =~= m@);
}
}
