// Paths of keys through the trie: where each key's items are, which keys share them.
verus! {
/// the whole level l
pub open spec fn tv(ks: Keys, c: Cfg, l: int) -> Lvl { tl(ks, c, ks.len() as int, l) }
/// the item of key j at level l
pub open spec fn pth(ks: Keys, c: Cfg, j: int, l: int) -> int { tl(ks, c, j + 1, l).lab.len() - 1 }
/// its node
pub open spec fn nno(ks: Keys, c: Cfg, j: int, l: int) -> int { tl(ks, c, j + 1, l).nodes - 1 }
/// keys i to j have the first l bytes in common
pub open spec fn sh(ks: Keys, i: int, j: int, l: int) -> bool { forall|t: int| i < t <= j ==> #[trigger] dep(ks, t) >= l }
/// key j has an item at level l
pub open spec fn has(ks: Keys, j: int, l: int) -> bool { 0 <= j < ks.len() && 0 <= l <= leaf(ks, j) }

/// level x is the beginning of level y
pub open spec fn begins(x: Lvl, y: Lvl) -> bool {
    &&& x.lab.len() == x.ch.len() == x.lo.len() <= y.lab.len() == y.ch.len() == y.lo.len()
    &&& x.sfx.len() <= y.sfx.len()
    &&& x.nodes <= y.nodes
    &&& forall|p: int| 0 <= p < x.lab.len() ==> x.lab[p] == #[trigger] y.lab[p]
    &&& forall|p: int| 0 <= p < x.lab.len() ==> x.ch[p] == #[trigger] y.ch[p]
    &&& forall|p: int| 0 <= p < x.lab.len() ==> x.lo[p] == #[trigger] y.lo[p]
    &&& forall|p: int| 0 <= p < x.sfx.len() ==> x.sfx[p] == #[trigger] y.sfx[p]
}
pub proof fn lemma_begins(ks: Keys, c: Cfg, a: int, b: int, l: int)
    requires 0 <= a <= b,
    ensures begins(tl(ks, c, a, l), tl(ks, c, b, l)),
    decreases b,
{
    lemma_tl_len(ks, c, a, l);
    if a < b {
        lemma_begins(ks, c, a, b - 1, l);
    }
}
/// what stands at the item of key j
pub proof fn lemma_item(ks: Keys, c: Cfg, j: int, l: int)
    requires keys_ok(ks), has(ks, j, l),
    ensures ({
        let x = tv(ks, c, l);
        let p = pth(ks, c, j, l);
        &&& 0 <= p < x.lab.len() && x.lab.len() == x.ch.len() == x.lo.len()
        &&& x.lab[p] == sym(ks[j], l)
        &&& x.ch[p] == (l < leaf(ks, j))
        &&& node_of(x, p) == nno(ks, c, j, l)
        &&& 0 <= nno(ks, c, j, l) < x.nodes
    }),
{
    lemma_tl_last(ks, c, j, l);
    lemma_tl_len(ks, c, j + 1, l);
    lemma_begins(ks, c, j + 1, ks.len() as int, l);
    lemma_tl_wf(ks, c, j + 1, l);
    lemma_tl_wf(ks, c, ks.len() as int, l);
    let y = tl(ks, c, j + 1, l);
    lemma_cnt_prefix(y.lo, tv(ks, c, l).lo, y.lab.len() as int);
    lemma_node_of(tv(ks, c, l), pth(ks, c, j, l));
}
/// key j opens the items from the depth at which it leaves the path before it
pub proof fn lemma_push(ks: Keys, c: Cfg, j: int, l: int)
    requires keys_ok(ks), has(ks, j, l), dep(ks, j) <= l,
    ensures pth(ks, c, j, l) == tl(ks, c, j, l).lab.len(), tv(ks, c, l).lo[pth(ks, c, j, l)] == (l > dep(ks, j)),
        nno(ks, c, j, l) == tl(ks, c, j, l).nodes - if l > dep(ks, j) { 0int } else { 1 },
{
    lemma_tl_len(ks, c, j, l);
    lemma_begins(ks, c, j + 1, ks.len() as int, l);
}
/// every item has a key that opens it
pub proof fn lemma_opener(ks: Keys, c: Cfg, m: int, l: int, p: int) -> (j: int)
    requires keys_ok(ks), 0 <= m <= ks.len(), 0 <= p < tl(ks, c, m, l).lab.len(),
    ensures 0 <= j < m, has(ks, j, l), dep(ks, j) <= l, pth(ks, c, j, l) == p,
    decreases m,
{
    lemma_tl_len(ks, c, m, l);
    lemma_tl_len(ks, c, m - 1, l);
    if p < tl(ks, c, m - 1, l).lab.len() { lemma_opener(ks, c, m - 1, l, p) } else { m - 1 }
}
pub proof fn lemma_sh(ks: Keys, i: int, j: int, l: int)
    requires keys_ok(ks), 0 <= i <= j < ks.len(), 0 <= l,
    ensures i < j ==> lexlt(ks[i], ks[j]) && (sh(ks, i, j, l) <==> lcp(ks[i], ks[j]) >= l),
    decreases j - i,
{
    if i < j {
        assert(ord(ks, j));
        if i < j - 1 {
            lemma_sh(ks, i, j - 1, l);
            lemma_lex_trans(ks[i], ks[j - 1], ks[j]);
            if sh(ks, i, j, l) { assert(sh(ks, i, j - 1, l)); assert(dep(ks, j) >= l); }
            if lcp(ks[i], ks[j]) >= l { assert(sh(ks, i, j, l)); }
        } else {
            if sh(ks, i, j, l) { assert(dep(ks, j) >= l); }
        }
    }
}
/// keys that share l + 1 bytes share the item, keys that share l bytes the node
pub proof fn lemma_same_item(ks: Keys, c: Cfg, i: int, j: int, l: int)
    requires keys_ok(ks), 0 <= i <= j < ks.len(), sh(ks, i, j, l + 1),
    ensures pth(ks, c, i, l) == pth(ks, c, j, l), nno(ks, c, i, l) == nno(ks, c, j, l),
    decreases j - i,
{
    if i < j {
        lemma_same_item(ks, c, i, j - 1, l);
        assert(dep(ks, j) >= l + 1);
    }
}
pub proof fn lemma_same_node(ks: Keys, c: Cfg, i: int, j: int, l: int)
    requires keys_ok(ks), 0 <= i <= j < ks.len(), sh(ks, i, j, l),
    ensures nno(ks, c, i, l) == nno(ks, c, j, l),
    decreases j - i,
{
    if i < j {
        lemma_same_node(ks, c, i, j - 1, l);
        assert(dep(ks, j) >= l);
    }
}
/// other keys do not
pub proof fn lemma_other_item(ks: Keys, c: Cfg, i: int, j: int, l: int, t: int)
    requires keys_ok(ks), 0 <= i < t <= j, dep(ks, t) <= l, has(ks, j, l),
    ensures pth(ks, c, i, l) < pth(ks, c, j, l),
    decreases j - i,
{
    lemma_begins(ks, c, i + 1, j, l);
    if dep(ks, j) <= l {
        lemma_push(ks, c, j, l);
    } else {
        lemma_dep(ks, j);
        lemma_other_item(ks, c, i, j - 1, l, t);
    }
}
pub proof fn lemma_other_node(ks: Keys, c: Cfg, i: int, j: int, l: int, t: int)
    requires keys_ok(ks), 0 <= i < t <= j, dep(ks, t) < l, has(ks, j, l),
    ensures nno(ks, c, i, l) < nno(ks, c, j, l),
    decreases j - i,
{
    lemma_begins(ks, c, i + 1, j, l);
    if dep(ks, j) < l {
        lemma_push(ks, c, j, l);
    } else {
        lemma_dep(ks, j);
        lemma_other_node(ks, c, i, j - 1, l, t);
    }
}
/// the first key of the node of key j at level l
pub proof fn lemma_first(ks: Keys, j: int, l: int) -> (i: int)
    requires keys_ok(ks), has(ks, j, l),
    ensures 0 <= i <= j, has(ks, i, l), dep(ks, i) < l, sh(ks, i, j, l),
    decreases j,
{
    if dep(ks, j) < l { j }
    else {
        lemma_dep(ks, j);
        let i = lemma_first(ks, j - 1, l);
        assert forall|t: int| i < t <= j implies #[trigger] dep(ks, t) >= l by { }
        i
    }
}
/// the last key of the node of key j at level l
pub proof fn lemma_final(ks: Keys, j: int, l: int) -> (i: int)
    requires keys_ok(ks), has(ks, j, l),
    ensures j <= i < ks.len(), has(ks, i, l), i + 1 == ks.len() || dep(ks, i + 1) < l, sh(ks, j, i, l),
    decreases ks.len() - j,
{
    if j + 1 == ks.len() || dep(ks, j + 1) < l { j }
    else {
        lemma_dep(ks, j + 1);
        let i = lemma_final(ks, j + 1, l);
        assert forall|t: int| j < t <= i implies #[trigger] dep(ks, t) >= l by { if t > j + 1 { } }
        i
    }
}
/// as many nodes on a level as children on the one above
pub proof fn lemma_children(ks: Keys, c: Cfg, m: int, l: int)
    requires keys_ok(ks), 0 <= m <= ks.len(), 0 <= l,
    ensures cnt(tl(ks, c, m, l).ch, tl(ks, c, m, l).lab.len() as int) == tl(ks, c, m, l + 1).nodes,
    decreases m,
{
    lemma_tl_len(ks, c, m, l);
    lemma_tl_len(ks, c, m, l + 1);
    if m > 0 {
        let j = m - 1;
        lemma_children(ks, c, j, l);
        lemma_tl_len(ks, c, j, l);
        lemma_dep(ks, j);
        lemma_cnt_push(tl(ks, c, j, l).ch, l < leaf(ks, j));
    }
}
/// one suffix for each item without a child
pub proof fn lemma_sfx_count(ks: Keys, c: Cfg, m: int, l: int)
    requires keys_ok(ks), 0 <= m <= ks.len(), 0 <= l,
    ensures tl(ks, c, m, l).sfx.len() == tl(ks, c, m, l).lab.len() - cnt(tl(ks, c, m, l).ch, tl(ks, c, m, l).lab.len() as int),
    decreases m,
{
    lemma_tl_len(ks, c, m, l);
    if m > 0 {
        let j = m - 1;
        lemma_sfx_count(ks, c, j, l);
        lemma_tl_len(ks, c, j, l);
        lemma_dep(ks, j);
        lemma_cnt_push(tl(ks, c, j, l).ch, l < leaf(ks, j));
    }
}
/// the child of key j's item at level l is key j's node at level l + 1
pub proof fn lemma_child(ks: Keys, c: Cfg, j: int, l: int)
    requires keys_ok(ks), has(ks, j, l + 1), 0 <= l,
    ensures cnt(tv(ks, c, l).ch, pth(ks, c, j, l) + 1) == nno(ks, c, j, l + 1) + 1,
{
    lemma_begins(ks, c, j + 1, ks.len() as int, l);
    lemma_children(ks, c, j + 1, l);
    let y = tl(ks, c, j + 1, l);
    lemma_cnt_prefix(y.ch, tv(ks, c, l).ch, y.lab.len() as int);
}
/// the suffix of key j
pub open spec fn ksfx(ks: Keys, c: Cfg, j: int) -> u64 { suffix_of(c.ty, ks[j], c.hl, leaf(ks, j) + 1, c.rl) }
pub proof fn lemma_leaf_sfx(ks: Keys, c: Cfg, j: int)
    requires keys_ok(ks), 0 <= j < ks.len(),
    ensures ({
        let l = leaf(ks, j);
        let x = tv(ks, c, l);
        let k = pth(ks, c, j, l) + 1 - cnt(x.ch, pth(ks, c, j, l) + 1) - 1;
        0 <= k < x.sfx.len() && x.sfx[k] == ksfx(ks, c, j)
    }),
{
    lemma_dep(ks, j);
    let l = leaf(ks, j);
    lemma_begins(ks, c, j + 1, ks.len() as int, l);
    lemma_sfx_count(ks, c, j + 1, l);
    let y = tl(ks, c, j + 1, l);
    lemma_cnt_prefix(y.ch, tv(ks, c, l).ch, y.lab.len() as int);
}
/// labels ascend within a node, after the mark of a key that ends there
pub proof fn lemma_labels(ks: Keys, c: Cfg, i: int, j: int, l: int)
    requires keys_ok(ks), has(ks, i, l), has(ks, j, l), i < j, sh(ks, i, j, l),
    ensures sym(ks[i], l) < sym(ks[j], l) || ks[i].len() == l || sh(ks, i, j, l + 1), ks[j].len() > l, ks[i].len() >= l,
        sh(ks, i, j, l + 1) ==> sym(ks[i], l) == sym(ks[j], l),
        sh(ks, i, j, l + 1) <==> ks[i].len() > l && ks[i][l] == ks[j][l],
{
    lemma_sh(ks, i, j, l);
    lemma_sh(ks, i, j, l + 1);
    lemma_lcp(ks[i], ks[j]);
    lemma_dep(ks, i);
    lemma_dep(ks, j);
    let a = ks[i];
    let b = ks[j];
    let x = lcp(a, b);
    if x >= l + 1 { assert(a[l] == b[l]); }
}
/// a key that ends at level l comes first in its node
pub proof fn lemma_ends(ks: Keys, i: int, l: int)
    requires keys_ok(ks), has(ks, i, l), ks[i].len() == l,
    ensures leaf(ks, i) == l, dep(ks, i) < l, i + 1 < ks.len(), dep(ks, i + 1) == l,
{
    lemma_dep(ks, i);
}
}
verus! {
// ---- sizes
pub open spec fn ksum(ks: Keys, m: int) -> int
    decreases m,
{
    if m <= 0 { 0 } else { ksum(ks, m - 1) + leaf(ks, m - 1) - maxl(dep(ks, m - 1), 0) + 1 }
}
/// the trie has few enough labels for 32-bit positions everywhere
pub open spec fn small(ks: Keys) -> bool { ksum(ks, ks.len() as int) <= 0xff_0000 }
pub open spec fn lab_rows(ks: Keys, c: Cfg, m: int) -> Rows<u8> { |l: int| tl(ks, c, m, l).lab }
pub proof fn lemma_ksum(ks: Keys, m: int)
    requires keys_ok(ks), 0 <= m <= ks.len(),
    ensures m <= ksum(ks, m),
    decreases m,
{
    if m > 0 { lemma_dep(ks, m - 1); lemma_ksum(ks, m - 1); }
}
proof fn lemma_total_step(ks: Keys, c: Cfg, m: int, e: int)
    requires keys_ok(ks), 0 <= m < ks.len(), 0 <= e,
    ensures flen(lab_rows(ks, c, m + 1), 0, e) <= flen(lab_rows(ks, c, m), 0, e) + minl(e, leaf(ks, m) + 1) - minl(e, maxl(dep(ks, m), 0)),
    decreases e,
{
    lemma_dep(ks, m);
    if e > 0 {
        lemma_total_step(ks, c, m, e - 1);
        lemma_tl_len(ks, c, m, e - 1);
    }
}
pub proof fn lemma_total(ks: Keys, c: Cfg, m: int, e: int)
    requires keys_ok(ks), 0 <= m <= ks.len(), 0 <= e,
    ensures 0 <= flen(lab_rows(ks, c, m), 0, e) <= ksum(ks, m),
    decreases m,
{
    lemma_flen(lab_rows(ks, c, m), 0, e);
    if m > 0 {
        lemma_total(ks, c, m - 1, e);
        lemma_total_step(ks, c, m - 1, e);
        lemma_dep(ks, m - 1);
    } else { lemma_total0(ks, c, e); }
}
proof fn lemma_total0(ks: Keys, c: Cfg, e: int)
    ensures flen(lab_rows(ks, c, 0), 0, e) == 0,
    decreases e,
{
    if e > 0 { lemma_total0(ks, c, e - 1); }
}
}
