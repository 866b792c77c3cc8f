// Moving about in the dense levels.
verus! {
impl Tr {
    /// bit of key j's item on dense level l
    pub open spec fn dpos(self, j: int, l: int) -> int { self.d0(j, l) + self.ks[j][l] }
    /// the first key of the node that goes on with a greater byte than y is g
    pub open spec fn tail(self, a: int, b: int, l: int, y: int, g: int) -> bool {
        &&& self.node(a, b, l) && 0 <= l < self.s && -1 <= y < 256
        &&& a <= g <= b + 1
        &&& g > a ==> self.ks[g - 1].len() == l || self.ks[g - 1][l] <= y
        &&& g <= b ==> self.ks[g].len() > l && self.ks[g][l] > y
    }
    /// bytes of the keys of a node
    pub proof fn lemma_dnode(self, a: int, b: int, l: int, i: int, j: int)
        requires self.ok(), self.node(a, b, l), 0 <= l < self.s, a <= i <= j <= b,
        ensures self.has(i, l), self.has(j, l), sh(self.ks, a, j, l), sh(self.ks, i, j, l), sh(self.ks, j, b, l), self.ks[i].len() >= l, self.ks[j].len() >= l,
            self.d0(i, l) == self.d0(a, l), self.d0(j, l) == self.d0(a, l), self.gn(j, l) == self.gn(a, l), self.gn(i, l) == self.gn(a, l),
            i > a ==> self.ks[i].len() > l,
            self.ks[i].len() > l ==> self.ks[j].len() > l && self.ks[i][l] <= self.ks[j][l],
    {
        lemma_dep(self.ks, i);
        lemma_dep(self.ks, j);
        assert(sh(self.ks, a, i, l));
        assert(sh(self.ks, a, j, l));
        assert(sh(self.ks, i, j, l));
        if i > a { assert(dep(self.ks, i) >= l); }
        if j > a { assert(dep(self.ks, j) >= l); }
        lemma_same_node(self.ks, self.c, a, i, l);
        lemma_same_node(self.ks, self.c, a, j, l);
        lemma_sh(self.ks, i, j, l);
        if i < j { lemma_lcp(self.ks[i], self.ks[j]); }
    }
    /// a key of the node sets its bit
    pub proof fn lemma_dset(self, a: int, b: int, l: int, j: int) -> (i: int)
        requires self.ok(), self.node(a, b, l), 0 <= l < self.s, a <= j <= b, self.ks[j].len() > l,
        ensures a <= i <= j, self.has(i, l), self.ks[i].len() > l, self.ks[i][l] == self.ks[j][l], dep(self.ks, i) <= l,
            0 <= self.dpos(j, l) < 256 * self.dn(), self.dpos(j, l) < self.dls().len(), self.dpos(j, l) < self.dcs().len(), self.dls()[self.dpos(j, l)], self.d0(j, l) == self.d0(a, l), self.dpos(i, l) == self.dpos(j, l),
            self.dcs()[self.dpos(j, l)] == (l < leaf(self.ks, j)),
        decreases j - a,
    {
        self.lemma_dnode(a, b, l, a, j);
        self.lemma_dsizes();
        self.lemma_dbit(a, b, l, self.ks[j][l] as int);
        if dep(self.ks, j) <= l {
            j
        } else {
            assert(j > a);
            lemma_dep(self.ks, j);
            assert(self.ks[j - 1][l] == self.ks[j][l]);
            let i = self.lemma_dset(a, b, l, j - 1);
            assert(l < leaf(self.ks, j - 1));
            i
        }
    }
    /// the next label in a node
    pub proof fn lemma_dnext(self, a: int, b: int, l: int, y: int, g: int)
        requires self.ok(), self.tail(a, b, l, y, g),
        ensures forall|x: int| #![trigger self.dls()[x]] self.d0(a, l) + y < x < self.d0(a, l) + (if g <= b { self.ks[g][l] as int } else { 256int }) ==> !self.dls()[x],
            g <= b ==> self.has(g, l) && sh(self.ks, a, g, l) && self.ks[g].len() > l && self.d0(g, l) == self.d0(a, l) && dep(self.ks, g) <= l
                && self.d0(a, l) + y < self.dpos(g, l) && self.dpos(g, l) < 256 * self.dn() && self.dls()[self.dpos(g, l)],
    {
        let e = if g <= b { self.ks[g][l] as int } else { 256int };
        if g <= b {
            self.lemma_dnode(a, b, l, a, g);
            let i = self.lemma_dset(a, b, l, g);
            if g > a {
                self.lemma_dnode(a, b, l, g - 1, g);
                lemma_dep(self.ks, g);
            }
        }
        assert forall|x: int| #![trigger self.dls()[x]] self.d0(a, l) + y < x < self.d0(a, l) + e implies !self.dls()[x] by {
            let c = x - self.d0(a, l);
            self.lemma_dbit(a, b, l, c);
            if self.dls()[x] {
                let i = choose|i: int| a <= i <= b && #[trigger] self.has(i, l) && self.ks[i].len() > l && self.ks[i][l] == c && dep(self.ks, i) <= l;
                if i < g { self.lemma_dnode(a, b, l, i, g - 1); } else { self.lemma_dnode(a, b, l, g, i); }
            }
        }
    }
    /// the label before that of key j, which opens its item
    pub proof fn lemma_dprev(self, a: int, b: int, l: int, j: int)
        requires self.ok(), self.node(a, b, l), 0 <= l < self.s, a <= j <= b, self.ks[j].len() > l, dep(self.ks, j) <= l,
        ensures self.d0(j, l) == self.d0(a, l), 0 <= self.dpos(j, l) < 256 * self.dn(), self.has(j, l), self.dls()[self.dpos(j, l)],
            j == a || self.ks[j - 1].len() == l ==> (forall|x: int| #![trigger self.dls()[x]] self.d0(a, l) <= x < self.dpos(j, l) ==> !self.dls()[x]),
            j > a && self.ks[j - 1].len() == l ==> j - 1 == a,
            j > a && self.ks[j - 1].len() != l ==> self.ks[j - 1].len() > l && self.has(j - 1, l) && self.d0(j - 1, l) == self.d0(j, l) && self.dpos(j - 1, l) < self.dpos(j, l)
                && self.dls()[self.dpos(j - 1, l)] && (forall|x: int| #![trigger self.dls()[x]] self.dpos(j - 1, l) < x < self.dpos(j, l) ==> !self.dls()[x]),
    {
        self.lemma_dnode(a, b, l, a, j);
        let i0 = self.lemma_dset(a, b, l, j);
        if j > a {
            self.lemma_dnode(a, b, l, j - 1, j);
            lemma_dep(self.ks, j);
            if self.ks[j - 1].len() > l { let i1 = self.lemma_dset(a, b, l, j - 1); assert(sh(self.ks, j - 1, j, l)); assert(dep(self.ks, j) >= l); }
        }
        assert forall|x: int| #![trigger self.dls()[x]] (if j == a || self.ks[j - 1].len() == l { self.d0(a, l) - 1 } else { self.dpos(j - 1, l) }) < x < self.dpos(j, l) implies !self.dls()[x] by {
            let c = x - self.d0(a, l);
            self.lemma_dbit(a, b, l, c);
            if self.dls()[x] {
                let i = choose|i: int| a <= i <= b && #[trigger] self.has(i, l) && self.ks[i].len() > l && self.ks[i][l] == c && dep(self.ks, i) <= l;
                if i < j { self.lemma_dnode(a, b, l, i, j - 1); } else { self.lemma_dnode(a, b, l, j, i); }
            }
        }
    }
    /// the last label of a node
    pub proof fn lemma_dlast(self, a: int, b: int, l: int)
        requires self.ok(), self.node(a, b, l), 0 <= l < self.s,
        ensures self.d0(b, l) == self.d0(a, l), 0 <= self.dpos(b, l) < 256 * self.dn(), self.has(b, l), self.ks[b].len() > l, self.dls()[self.dpos(b, l)],
            self.dpos(b, l) < self.d0(a, l) + 256 <= 256 * self.dn(),
            forall|x: int| #![trigger self.dls()[x]] self.dpos(b, l) < x < self.d0(a, l) + 256 ==> !self.dls()[x],
    {
        self.lemma_dnode(a, b, l, a, b);
        self.lemma_dgn(a, l);
        if self.ks[b].len() == l { lemma_ends(self.ks, b, l); }
        let i0 = self.lemma_dset(a, b, l, b);
        assert forall|x: int| #![trigger self.dls()[x]] self.dpos(b, l) < x < self.d0(a, l) + 256 implies !self.dls()[x] by {
            let c = x - self.d0(a, l);
            self.lemma_dbit(a, b, l, c);
            if self.dls()[x] {
                let i = choose|i: int| a <= i <= b && #[trigger] self.has(i, l) && self.ks[i].len() > l && self.ks[i][l] == c && dep(self.ks, i) <= l;
                self.lemma_dnode(a, b, l, i, b);
            }
        }
    }
    /// out of the node
    pub proof fn lemma_tail_up(self, a: int, b: int, l: int, j: int) -> (r: (int, int))
        requires self.ok(), self.node(a, b, l), 0 < l <= self.s, a <= j <= b,
        ensures r.0 <= a, b <= r.1, self.tail(r.0, r.1, l - 1, self.ks[j][l - 1] as int, b + 1), self.has(j, l - 1), sh(self.ks, r.0, j, l - 1), self.ks[j].len() >= l, self.node(r.0, r.1, l - 1),
    {
        lemma_dep(self.ks, j);
        lemma_dep(self.ks, b);
        assert(self.has(j, l)) by { if j > a { assert(dep(self.ks, j) >= l); } }
        let r = self.lemma_node_of(j, l - 1);
        if r.0 > a { assert(dep(self.ks, r.0) >= l); }
        if r.1 < b { assert(dep(self.ks, r.1 + 1) >= l); }
        self.lemma_dnode(r.0, r.1, l - 1, j, b);
        assert(sh(self.ks, j, b, l));
        lemma_sh(self.ks, j, b, l);
        if j < b { lemma_lcp(self.ks[j], self.ks[b]); assert(self.ks[j][l - 1] == self.ks[b][l - 1]); }
        if b + 1 <= r.1 {
            self.lemma_dnode(r.0, r.1, l - 1, b, b + 1);
            lemma_dep(self.ks, b + 1);
            assert(dep(self.ks, b + 1) >= l - 1);
        }
        r
    }
    /// after a key's leaf
    pub proof fn lemma_tail_leaf(self, j: int) -> (r: (int, int))
        requires self.ok(), 0 <= j < self.n(), leaf(self.ks, j) < self.s, self.ks[j].len() > leaf(self.ks, j),
        ensures self.tail(r.0, r.1, leaf(self.ks, j), self.ks[j][leaf(self.ks, j)] as int, j + 1), self.has(j, leaf(self.ks, j)), sh(self.ks, r.0, j, leaf(self.ks, j)), r.0 <= j <= r.1, self.node(r.0, r.1, leaf(self.ks, j)),
    {
        let l = leaf(self.ks, j);
        lemma_dep(self.ks, j);
        let r = self.lemma_node_of(j, l);
        if j + 1 <= r.1 {
            self.lemma_dnode(r.0, r.1, l, j, j + 1);
            lemma_dep(self.ks, j + 1);
            assert(dep(self.ks, j + 1) >= l);
        }
        r
    }
    /// the first label of a node is that of the first key that goes on
    pub proof fn lemma_tail_first(self, a: int, b: int, l: int) -> (g: int)
        requires self.ok(), self.node(a, b, l), 0 <= l < self.s,
        ensures self.tail(a, b, l, -1, g), g <= b, g == if self.ks[a].len() == l { a + 1 } else { a },
            self.ks[a].len() == l ==> leaf(self.ks, a) == l && dep(self.ks, a + 1) == l,
    {
        lemma_dep(self.ks, a);
        if self.ks[a].len() == l {
            lemma_ends(self.ks, a, l);
            self.lemma_dnode(a, b, l, a + 1, a + 1);
            a + 1
        } else { a }
    }
    /// the byte of q is not in the node
    pub proof fn lemma_tail_seek(self, a: int, b: int, l: int, q: Seq<u8>, inc: bool, g: int)
        requires self.ok(), self.node(a, b, l), 0 <= l < self.s, pre(self.ks[a], q, l), l < q.len(), self.split(q, inc, g), !self.dls()[self.d0(a, l) + q[l]],
        ensures self.tail(a, b, l, q[l] as int, g),
    {
        let x = self.all();
        self.lemma_all();
        self.lemma_split_node(a, b, l, q, inc, g);
        assert(x.node(a, b, l));
        assert forall|j: int| a <= j <= b implies (#[trigger] self.ks[j]).len() >= l && pre(self.ks[j], q, l) && (self.ks[j].len() > l ==> self.ks[j][l] != q[l]) by {
            x.lemma_in_pre(a, b, l, j, q);
            if self.ks[j].len() > l { let i = self.lemma_dset(a, b, l, j); }
        }
        if g > a {
            lemma_lex_byte(self.ks[g - 1], q, l);
            lemma_passes(self.ks[g - 1], q, inc);
            assert(passes(self.ks[g - 1], q, inc) == (g - 1 >= g));
        }
        if g <= b {
            lemma_lex_byte(self.ks[g], q, l);
            lemma_passes(self.ks[g], q, inc);
            assert(passes(self.ks[g], q, inc) == (g >= g));
        }
    }
    pub proof fn lemma_tail_dep(self, a: int, b: int, l: int, y: int, g: int)
        requires self.ok(), self.tail(a, b, l, y, g),
        ensures g < self.n() ==> dep(self.ks, g) <= l,
    {
        if a < g <= b { lemma_dep(self.ks, g); self.lemma_dnode(a, b, l, g - 1, g); }
    }
    /// down into the child of an item, and the number of the child
    pub proof fn lemma_ddown(self, j: int, l: int) -> (r: (int, int))
        requires self.ok(), 0 <= j < self.n(), 0 <= l < self.s, l < leaf(self.ks, j),
        ensures self.node(r.0, r.1, l + 1), r.0 <= j <= r.1, self.has(j, l), self.has(j, l + 1), self.ks[j].len() > l, 0 <= self.dpos(j, l) < 256 * self.dn(), self.dcs()[self.dpos(j, l)],
            cnt(self.dcs(), self.dpos(j, l) + 1) == self.gn(j, l + 1), self.gn(r.0, l + 1) == self.gn(j, l + 1), self.gn(r.1, l + 1) == self.gn(j, l + 1),
            dep(self.ks, j) <= l ==> r.0 == j, (j + 1 < self.n() ==> dep(self.ks, j + 1) <= l) ==> r.1 == j,
            self.gn(j, l + 1) > 0, self.gn(j, l + 1) <= 0xff_0000,
        decreases j,
    {
        lemma_dep(self.ks, j);
        let r = self.lemma_node_of(j, l + 1);
        let x = self.lemma_node_of(j, l);
        let i = self.lemma_dset(x.0, x.1, l, j);
        if r.0 < j { assert(dep(self.ks, j) >= l + 1); }
        if r.1 > j { assert(dep(self.ks, j + 1) >= l + 1); }
        lemma_dep(self.ks, r.0);
        self.lemma_dnode(x.0, x.1, l, i, j);
        assert(sh(self.ks, r.0, j, l + 1));
        assert(self.ks[r.0].len() > l && self.ks[r.0][l] == self.ks[j][l]) by {
            lemma_sh(self.ks, r.0, j, l + 1);
            if r.0 < j { lemma_lcp(self.ks[r.0], self.ks[j]); }
        }
        assert(self.has(r.0, l));
        self.lemma_dchild(r.0, l);
        assert forall|t: int| r.0 < t <= j implies #[trigger] dep(self.ks, t) >= l by { assert(dep(self.ks, t) >= l + 1); }
        assert(sh(self.ks, r.0, j, l));
        lemma_same_node(self.ks, self.c, r.0, j, l);
        self.lemma_all();
        let z = self.all();
        z.lemma_sizes();
        z.lemma_at(j, l + 1);
        self.lemma_ns_split(0, 1, l + 1);
        self.lemma_dsizes();
        z.lemma_gn(j, l + 1);
        r
    }
    /// whether the key before j goes on in the node of j
    pub open spec fn beside(self, j: int, l: int) -> bool { j > 0 && dep(self.ks, j) == l && self.ks[j - 1].len() > l }
    pub proof fn lemma_dback(self, j: int, l: int)
        requires self.ok(), 0 <= j < self.n(), 0 <= l < self.s, dep(self.ks, j) <= l, l <= leaf(self.ks, j), self.ks[j].len() > l,
        ensures 0 <= self.d0(j, l) <= self.dpos(j, l) < self.d0(j, l) + 256 <= 256 * self.dn(), self.dls()[self.dpos(j, l)],
            self.beside(j, l) ==> self.has(j - 1, l) && self.d0(j - 1, l) == self.d0(j, l) && self.dpos(j - 1, l) < self.dpos(j, l) && self.dls()[self.dpos(j - 1, l)]
                && (forall|x: int| #![trigger self.dls()[x]] self.dpos(j - 1, l) < x < self.dpos(j, l) ==> !self.dls()[x]),
            !self.beside(j, l) ==> (forall|x: int| #![trigger self.dls()[x]] self.d0(j, l) <= x < self.dpos(j, l) ==> !self.dls()[x]),
            l > 0 ==> 0 <= self.dpos(j, 0) < self.d0(j, l) && self.dls()[self.dpos(j, 0)],
            l == 0 ==> self.beside(j, l) == (j > 0) && self.d0(j, 0) == 0,
            0 <= self.gn(j, l) < self.dps().len(),
            !self.beside(j, l) ==> self.dps()[self.gn(j, l)] == (j > 0 && dep(self.ks, j) == l && self.ks[j - 1].len() == l),
            !self.beside(j, l) && self.dps()[self.gn(j, l)] ==> leaf(self.ks, j - 1) == l && j > 0,
            !self.beside(j, l) && !self.dps()[self.gn(j, l)] ==> dep(self.ks, j) < l,
    {
        let r = self.lemma_node_of(j, l);
        self.lemma_dprev(r.0, r.1, l, j);
        self.lemma_dpre(r.0, r.1, l);
        self.lemma_dgn(j, l);
        self.lemma_dsizes();
        let z = self.lemma_node_of(j, 0);
        let i = self.lemma_dset(z.0, z.1, 0, j);
        self.lemma_all();
        self.all().lemma_root();
        lemma_dep(self.ks, j);
        lemma_dep(self.ks, r.0);
        if j > 0 {
            lemma_dep(self.ks, j - 1);
            if j > r.0 { assert(dep(self.ks, j) >= l); }
        }
        if self.ks[r.0].len() == l { lemma_ends(self.ks, r.0, l); }
        self.lemma_dgn(j, 0);
        assert(self.all().node(z.0, z.1, 0));
        self.all().lemma_gn(j, 0);
        assert(self.ns(0, 0) == 0);
    }
}
}
