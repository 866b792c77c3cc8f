// P25: threads that query one filter at the same time. Every thread holds a shared reference to the filter and an iterator
// of its own. rustc checks that the filter may be shared between threads (no field of it, and of what it owns, can be
// written through a shared reference); each thread's answer then satisfies the contract of the query asked alone, and
// that contract determines the answer. How the threads' steps interleave does not enter.
use vstd::thread::*;
verus! {
/// what a thread asks: 0 a point query, 1 the first key greater, 2 the last key less, 3 the first key, 4 the last key;
/// then so many steps forward or back
pub struct Query { pub kind: u32, pub key: Str, pub inclusive: bool, pub steps: u32, pub back: bool }
/// what it is told: whether the key is there or the iterator valid, its flag, and what is read on the way
pub struct Answer { pub yes: bool, pub fp: bool, pub keys: Vec<Str>, pub suffixes: Vec<u64>, pub lens: Vec<i32> }
impl Query {
    pub open spec fn ok(self) -> bool { self.key.b@.len() <= 0x7fff_ffff && self.steps < 0xffff_ffff && self.kind <= 4 }
    /// the key that is read after i steps from key j
    pub open spec fn after(self, j: int, i: int) -> int { if self.back { j - i } else { j + i } }
    /// how many are read from key j on
    pub open spec fn many(self, t: Tr, j: int) -> int {
        let m = if self.back { j + 1 } else { t.n() - j };
        if m < self.steps + 1 { m } else { self.steps + 1 }
    }
}
impl Answer {
    /// it read n keys from key j on
    pub open spec fn read(self, t: Tr, q: Query, j: int, n: int) -> bool {
        &&& self.keys@.len() == n && self.suffixes@.len() == n && self.lens@.len() == n
        &&& forall|i: int| 0 <= i < n ==> #[trigger] self.keys@[i].b@ == t.kept(q.after(j, i))
        &&& forall|i: int| 0 <= i < n ==> #[trigger] self.suffixes@[i] == t.real(q.after(j, i))
        &&& forall|i: int| 0 <= i < n ==> #[trigger] self.lens@[i] == t.real_len()
    }
    /// equal answers
    pub open spec fn is(self, o: Answer) -> bool {
        &&& self.yes == o.yes && self.fp == o.fp && self.keys@.len() == o.keys@.len() && self.suffixes@ == o.suffixes@ && self.lens@ == o.lens@
        &&& forall|i: int| 0 <= i < self.keys@.len() ==> #[trigger] self.keys@[i].b@ == o.keys@[i].b@
    }
    pub proof fn lemma_is(self, o: Answer, t: Tr, q: Query, j: int)
        requires self.read(t, q, j, q.many(t, j)), o.read(t, q, j, q.many(t, j)), self.yes == o.yes, self.fp == o.fp,
        ensures self.is(o),
    {
        assert(self.suffixes@ =~= o.suffixes@) by {
            assert forall|i: int| 0 <= i < self.suffixes@.len() implies self.suffixes@[i] == o.suffixes@[i] by { assert(o.suffixes@[i] == t.real(q.after(j, i))); }
        }
        assert(self.lens@ =~= o.lens@) by {
            assert forall|i: int| 0 <= i < self.lens@.len() implies self.lens@[i] == o.lens@[i] by { assert(o.lens@[i] == t.real_len()); }
        }
        assert forall|i: int| 0 <= i < self.keys@.len() implies #[trigger] self.keys@[i].b@ == o.keys@[i].b@ by { assert(o.keys@[i].b@ == t.kept(q.after(j, i))); }
    }
}
impl Tr {
    /// h keys are less than q (inclusive: not greater)
    pub open spec fn cuts(self, q: Seq<u8>, inclusive: bool, h: int) -> bool { self.split(q, !inclusive, h) }
    /// the seek that query q asks for ends on key j, or nowhere
    pub open spec fn lands(self, q: Query, yes: bool, fp: bool, j: int) -> bool {
        if q.kind == 1 { exists|g: int| #[trigger] self.split(q.key.b@, q.inclusive, g) && (if yes { self.seek_at(q.key.b@, g, j, fp) } else { !fp && g == self.n() && self.seek_at(q.key.b@, g, g, false) }) }
        else if q.kind == 2 { exists|h: int| #[trigger] self.cuts(q.key.b@, q.inclusive, h) && (if yes { self.seek_less_at(q.key.b@, q.inclusive, h, j, fp) } else { !fp && h == 0 && self.no_hits(q.key.b@) }) }
        else if q.kind == 3 { yes && !fp && j == 0 }
        else { yes && !fp && j == self.n() - 1 }
    }
    /// a is an answer to q on a filter of these keys
    pub open spec fn answers(self, q: Query, a: Answer) -> bool {
        if q.kind == 0 { a.yes == self.finds(q.key.b@) && !a.fp && a.keys@.len() == 0 && a.suffixes@.len() == 0 && a.lens@.len() == 0 }
        else { exists|j: int| #[trigger] self.lands(q, a.yes, a.fp, j) && (if a.yes { 0 <= j < self.n() && a.read(self, q, j, q.many(self, j)) } else { a.keys@.len() == 0 && a.suffixes@.len() == 0 && a.lens@.len() == 0 }) }
    }
    proof fn lemma_lands_one(self, q: Query, y: bool, e: bool, i: int, z: bool, f: bool, j: int)
        requires self.ok(), self.lands(q, y, e, i), self.lands(q, z, f, j), y ==> 0 <= i < self.n(), z ==> 0 <= j < self.n(),
        ensures y == z, e == f, y ==> i == j,
    {
        hide(Tr::split); hide(Tr::ok);
        let k = q.key.b@;
        if q.kind == 1 {
            let g = choose|g: int| #[trigger] self.split(k, q.inclusive, g) && (if y { self.seek_at(k, g, i, e) } else { !e && g == self.n() && self.seek_at(k, g, g, false) });
            let h = choose|g: int| #[trigger] self.split(k, q.inclusive, g) && (if z { self.seek_at(k, g, j, f) } else { !f && g == self.n() && self.seek_at(k, g, g, false) });
            self.lemma_split_one(k, q.inclusive, g, h);
            self.lemma_seek_one(k, g, if y { i } else { g }, e, if z { j } else { g }, f);
        } else if q.kind == 2 {
            let g = choose|h: int| #[trigger] self.cuts(k, q.inclusive, h) && (if y { self.seek_less_at(k, q.inclusive, h, i, e) } else { !e && h == 0 && self.no_hits(k) });
            let h = choose|h: int| #[trigger] self.cuts(k, q.inclusive, h) && (if z { self.seek_less_at(k, q.inclusive, h, j, f) } else { !f && h == 0 && self.no_hits(k) });
            self.lemma_split_one(k, !q.inclusive, g, h);
            if y && z { self.lemma_less_one(k, q.inclusive, g, i, e, j, f); }
        }
    }
    /// which is the only one
    pub proof fn lemma_answers_one(self, q: Query, a: Answer, b: Answer)
        requires self.ok(), self.answers(q, a), self.answers(q, b),
        ensures a.is(b),
    {
        hide(Tr::lands); hide(Tr::ok); hide(Tr::finds);
        if q.kind == 0 {
            assert(a.suffixes@ =~= b.suffixes@); assert(a.lens@ =~= b.lens@);
        } else {
            let i = choose|j: int| #[trigger] self.lands(q, a.yes, a.fp, j) && (if a.yes { 0 <= j < self.n() && a.read(self, q, j, q.many(self, j)) } else { a.keys@.len() == 0 && a.suffixes@.len() == 0 && a.lens@.len() == 0 });
            let j = choose|j: int| #[trigger] self.lands(q, b.yes, b.fp, j) && (if b.yes { 0 <= j < self.n() && b.read(self, q, j, q.many(self, j)) } else { b.keys@.len() == 0 && b.suffixes@.len() == 0 && b.lens@.len() == 0 });
            self.lemma_lands_one(q, a.yes, a.fp, i, b.yes, b.fp, j);
            if a.yes { a.lemma_is(b, self, q, i); }
            else { assert(a.suffixes@ =~= b.suffixes@); assert(a.lens@ =~= b.lens@); }
        }
    }
}
/// what an iterator reads on its way
pub fn wander(it: SuRF_Iter, q: &Query, Ghost(t): Ghost<Tr>, Ghost(j): Ghost<int>) -> (r: Answer)
    requires q.ok(), t.ok(), it.valid() ==> it.at(t, j) && 0 <= j < t.n(),
    ensures r.yes == it.valid(), r.fp == it.could_be_fp_, r.yes ==> r.read(t, *q, j, q.many(t, j)), !r.yes ==> r.keys@.len() == 0 && r.suffixes@.len() == 0 && r.lens@.len() == 0,
{
    hide(SuRF_Iter::at); hide(SuRF_Iter::valid); hide(Tr::ok); hide(Tr::kept); hide(Tr::real); hide(Tr::real_len);
    let mut it = it;
    let mut a = Answer { yes: it.isValid(), fp: it.getFpFlag(), keys: Vec::new(), suffixes: Vec::new(), lens: Vec::new() };
    let mut more = a.yes;
    let mut i: u32 = 0;
    while more
        invariant q.ok(), t.ok(), i <= q.steps + 1, a.yes ==> 0 <= j < t.n() && i <= q.many(t, j) && a.read(t, *q, j, i as int), more ==> a.yes && i < q.many(t, j) && it.valid() && it.at(t, q.after(j, i as int)),
            !more && a.yes ==> i == q.many(t, j), !a.yes ==> !more && a.keys@.len() == 0 && a.suffixes@.len() == 0 && a.lens@.len() == 0,
        decreases q.steps + 2 - i,
    {
        let ghost k = q.after(j, i as int);
        let ghost a0 = a;
        let s = it.getKey(Ghost(t), Ghost(k));
        let mut x: u64 = 0;
        let n = it.getSuffix(&mut x, Ghost(t), Ghost(k));
        a.keys.push(s);
        a.suffixes.push(x);
        a.lens.push(n);
        more = if i < q.steps { if q.back { it.op_dec(0, Ghost(t), Ghost(k)) } else { it.op_inc(0, Ghost(t), Ghost(k)) } } else { false };
        proof {
            assert forall|m: int| 0 <= m < i + 1 implies #[trigger] a.keys@[m].b@ == t.kept(q.after(j, m)) by { if m < i { assert(a0.keys@[m].b@ == t.kept(q.after(j, m))); } }
            assert forall|m: int| 0 <= m < i + 1 implies #[trigger] a.suffixes@[m] == t.real(q.after(j, m)) by { if m < i { assert(a0.suffixes@[m] == t.real(q.after(j, m))); } }
            assert forall|m: int| 0 <= m < i + 1 implies #[trigger] a.lens@[m] == t.real_len() by { if m < i { assert(a0.lens@[m] == t.real_len()); } }
        }
        i += 1;
    }
    a
}
/// one thread's query
pub fn ask(f: &SuRF, q: &Query, Ghost(t): Ghost<Tr>) -> (r: Answer)
    requires q.ok(), t.ok(), f.holds(t),
    ensures t.answers(*q, r),
{
    hide(SuRF::holds); hide(SuRF_Iter::at); hide(Tr::ok); hide(Tr::split); hide(Tr::seek_at); hide(Tr::seek_less_at); hide(Tr::no_hits); hide(Tr::finds);
    if q.kind == 0 {
        let yes = f.lookupKey(&q.key, Ghost(t));
        return Answer { yes: yes, fp: false, keys: Vec::new(), suffixes: Vec::new(), lens: Vec::new() };
    }
    let ghost mut j = 0int;
    let it;
    if q.kind == 1 {
        let ghost mut g = 0int;
        proof { g = t.lemma_split_some(q.key.b@, q.inclusive); }
        it = f.moveToKeyGreaterThan(&q.key, q.inclusive, Ghost(t), Ghost(g));
        proof { if it.valid() { j = choose|p: int| #[trigger] it.at(t, p) && t.seek_at(q.key.b@, g, p, it.could_be_fp_); } }
    } else if q.kind == 2 {
        let ghost mut h = 0int;
        proof { h = t.lemma_split_some(q.key.b@, !q.inclusive); assert(t.cuts(q.key.b@, q.inclusive, h)); }
        it = f.moveToKeyLessThan(&q.key, q.inclusive, Ghost(t), Ghost(h));
        proof { if it.valid() { j = choose|p: int| #[trigger] it.at(t, p) && t.seek_less_at(q.key.b@, q.inclusive, h, p, it.could_be_fp_); } }
    } else if q.kind == 3 {
        it = f.moveToFirst(Ghost(t));
        proof { it.lemma_on_key(t, 0); }
    } else {
        it = f.moveToLast(Ghost(t));
        proof { j = t.n() - 1; it.lemma_on_key(t, t.n() - 1); }
    }
    proof {
        if it.valid() { it.lemma_on_key(t, j); }
        assert(t.lands(*q, it.valid(), it.could_be_fp_, j));
    }
    wander(it, q, Ghost(t), Ghost(j))
}
impl SuRF_Iter {
    proof fn lemma_on_key(&self, t: Tr, j: int)
        requires self.at(t, j), t.ok(),
        ensures self.valid(), 0 <= j < t.n(),
    { }
}
/// as many threads as there are queries, all on one filter; a thread that the system ends gives no answer
pub fn together(f: &Arc<SuRF>, qs: Vec<Query>, Ghost(t): Ghost<Tr>) -> (r: Vec<Option<Answer>>)
    requires t.ok(), f.holds(t), forall|i: int| 0 <= i < qs@.len() ==> #[trigger] qs@[i].ok(),
    ensures r@.len() == qs@.len(), forall|i: int| 0 <= i < qs@.len() ==> (#[trigger] r@[i] matches Some(a) ==> t.answers(qs@[i], a)),
{
    hide(SuRF::holds); hide(Tr::ok); hide(Tr::answers);
    let ghost q0 = qs@;
    let ghost n = qs@.len() as int;
    let mut qs = qs;
    let mut hs: Vec<JoinHandle<Answer>> = Vec::new();
    while qs.len() > 0
        invariant t.ok(), f.holds(t), n == q0.len(), qs@.len() + hs@.len() == n, qs@ == q0.subrange(0, qs@.len() as int), forall|i: int| 0 <= i < n ==> #[trigger] q0[i].ok(),
            forall|i: int, a: Answer| 0 <= i < hs@.len() && #[trigger] hs@[i].predicate(a) ==> t.answers(q0[n - 1 - i], a),
        decreases qs@.len(),
    {
        let ghost m = qs@.len() - 1;
        let q = qs.pop().unwrap();
        proof { assert(q == q0[m]); assert(qs@ =~= q0.subrange(0, m)); }
        let g = f.clone();
        let gt: Ghost<Tr> = Ghost(t);
        let h = spawn(move || -> (a: Answer)
            requires q.ok(), gt@.ok(), g.holds(gt@),
            ensures gt@.answers(q, a),
            { ask(&g, &q, gt) });
        hs.push(h);
    }
    let mut r: Vec<Option<Answer>> = Vec::new();
    while hs.len() > 0
        invariant n == q0.len(), r@.len() + hs@.len() == n,
            forall|i: int, a: Answer| 0 <= i < hs@.len() && #[trigger] hs@[i].predicate(a) ==> t.answers(q0[n - 1 - i], a),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i] matches Some(a) ==> t.answers(q0[i], a)),
        decreases hs@.len(),
    {
        let h = hs.pop().unwrap();
        match h.join() {
            Ok(a) => { r.push(Some(a)); }
            Err(_) => { r.push(None); }
        }
    }
    r
}
/// a thread that asks while others ask is told what it is told alone
pub fn as_alone(f: &Arc<SuRF>, q: Query, others: Vec<Query>, Ghost(t): Ghost<Tr>)
    requires t.ok(), f.holds(t), q.ok(), forall|i: int| 0 <= i < others@.len() ==> #[trigger] others@[i].ok(),
{
    hide(SuRF::holds); hide(Tr::ok); hide(Tr::answers);
    let ghost gq = q;
    let x = ask(&**f, &q, Ghost(t));
    let g = f.clone();
    let gt: Ghost<Tr> = Ghost(t);
    let h = spawn(move || -> (a: Answer)
        requires q.ok(), gt@.ok(), g.holds(gt@),
        ensures gt@.answers(q, a),
        { ask(&g, &q, gt) });
    let _o = together(f, others, Ghost(t));
    match h.join() {
        Ok(y) => { proof { t.lemma_answers_one(gq, x, y); } assert(x.is(y)); }
        Err(_) => { }
    }
}
}
