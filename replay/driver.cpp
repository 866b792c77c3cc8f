// Concrete search for a failing input of one property, and replay of a case.
//   driver PROP SECONDS SEED NPROC OUT      search; OUT receives the first failing case
//   driver PROP --case CASESEED             re-run one case (prints PASS or FAIL)
#include <atomic>
#include <thread>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "surf.hpp"
#include "gen.hpp"
using namespace oracle; using std::string; using std::vector; using gen::Rng; using gen::hex;
using surf::SuRF; using surf::word_t; using surf::position_t;
struct Shared { char note[1 << 14]; char cur[60001]; long cases, evals; };
static Shared* sh;
static string cur;              // description of the current case
static bool failed; static string why;
static long evals;
static size_t shown; // length of the long description already copied
static void note(const string& s) { snprintf(sh->note, sizeof sh->note, "%s", s.c_str()); if (cur.size() < 2000 || cur.size() != shown) { snprintf(sh->cur, sizeof sh->cur, "%s", cur.c_str()); shown = cur.size(); } }
static void fail(const string& s) { if (!failed) { failed = true; why = s; } }
#define CHECK(c, msg) do { evals++; if (!(c)) { fail(msg); return; } } while (0)
static string S(long x) { return std::to_string(x); }

struct Ctx {
    Cfg c; vector<string> K; Model m; SuRF* s; vector<string> Q; Rng& r;
    Ctx(Rng& r_, size_t nq = 50, int maxcls = 3, const Cfg* fix = 0) : m({}, Cfg()), s(0), r(r_) {
        int p = r.below(100), cls = p < 70 ? 0 : p < 97 ? 1 : 2; if (cls == 2 && r.chance(1, 12)) cls = 3; if (cls > maxcls) cls = maxcls;
        c = fix ? *fix : gen::cfg(r); K = gen::keys(r, cls); m = Model(K, c); cur = desc(); note("build");
        s = build(c); Q = gen::queries(r, K, cls == 3 ? std::min<size_t>(nq, 12) : nq);
    }
    SuRF* build(const Cfg& c) { return new SuRF(K, c.dense, c.ratio, (surf::SuffixType)c.type, c.hlen, c.rlen); }
    ~Ctx() { if (s) { s->destroy(); delete s; } }
    string desc() { char b[120]; snprintf(b, 120, "dense=%d ratio=%u suffix_type=%d hash_len=%u real_len=%u keys(hex)=", c.dense, c.ratio, c.type, c.hlen, c.rlen); string d = b; for (auto& x : K) { d += hex(x) + ","; if (d.size() > 50000) { d += "..."; break; } } return d; }
    int keyAt(SuRF::Iter& it) { return find(it.getKey()); }
    int find(const string& k) {  // kept prefixes are distinct and ordered like the keys
        int lo = 0, hi = (int)m.size() - 1;
        while (lo <= hi) { int mid = (lo + hi) / 2; int cc = m.e[mid].prefix.compare(k); if (cc == 0) return mid; if (cc < 0) lo = mid + 1; else hi = mid - 1; }
        return -1;
    }
    // first key >= q (strict: > q)
    size_t lower(const string& q, bool strict) { size_t lo = 0, hi = m.size(); while (lo < hi) { size_t mid = (lo + hi) / 2; int cc = m.e[mid].key.compare(q); if (cc > 0 || (cc == 0 && !strict)) hi = mid; else lo = mid + 1; } return lo; }
    bool isPrefix(int j, const string& q) { auto& p = m.e[j].prefix; return q.size() >= p.size() && q.compare(0, p.size(), p) == 0; }
    // keys whose kept prefix is a prefix of q are close to lower(q)
    template <class F> bool anyNear(const string& q, F f) { size_t l = lower(q, false); for (size_t j = l >= 1 ? l - 1 : 0; j < m.size() && j <= l + 1; j++) if (f(j)) return true;
        for (size_t j = 0; j < m.size() && m.size() <= 64; j++) if (f(j)) return true;
        // a proper prefix of q that is itself a key kept whole may be further back
        if (m.size() > 64) for (size_t i = 0; i <= q.size(); i++) { int j = find(q.substr(0, i)); if (j >= 0 && f(j)) return true; } return false; }
    SuRF::Iter at(size_t i) { auto it = s->moveToFirst(); for (size_t k = 0; k < i && it.isValid(); k++) it++; return it; }
};

static void P01(Rng& r) { Ctx x(r, 1); for (auto& e : x.m.e) { note("lookup " + hex(e.key)); CHECK(x.s->lookupKey(e.key), "point query denies stored key " + hex(e.key)); } }

static bool range(Ctx& x, SuRF* s, const string& a, bool ai, const string& b, bool bi) { note("range " + hex(a) + (ai ? " incl " : " excl ") + hex(b) + (bi ? " incl" : " excl")); return s->lookupRange(a, ai, b, bi); }
static void rangeCases(Ctx& x, bool fn) {
    for (int n = 0; n < 300; n++) { string a = x.Q[x.r.below(x.Q.size())], b = x.Q[x.r.below(x.Q.size())];
        if (x.r.chance(1, 3)) a = x.m.e[x.r.below(x.m.size())].key; if (x.r.chance(1, 3)) b = x.m.e[x.r.below(x.m.size())].key;
        if (x.r.chance(1, 6)) b = a; if (x.r.chance(1, 6)) b = a + "a";
        if (b < a) std::swap(a, b); bool ai = x.r.below(2), bi = x.r.below(2);
        bool g = range(x, x.s, a, ai, b, bi); size_t l = x.lower(a, !ai); bool t = l < x.m.size() && (x.m.e[l].key < b || (bi && x.m.e[l].key == b));
        string d = "range " + hex(a) + (ai ? " incl " : " excl ") + hex(b) + (bi ? " incl" : " excl");
        if (fn) CHECK(!t || g, d + " denied although stored key " + hex(x.m.e[l < x.m.size() ? l : 0].key) + " lies in it");
        else if (g && !t) CHECK(x.anyNear(a, [&](size_t j) { return x.isPrefix(j, a); }) || x.anyNear(b, [&](size_t j) { return x.isPrefix(j, b); }), d + " answered true without a stored key or a kept prefix of an end point");
    } }
static void P02(Rng& r) { Ctx x(r); rangeCases(x, true); }
static void P04(Rng& r) { Ctx x(r); rangeCases(x, false); }

static void P03(Rng& r) { Ctx x(r, 120); auto& c = x.c;
    for (auto& q : x.Q) { note("lookup " + hex(q)); bool g = x.s->lookupKey(q);
        bool t = x.anyNear(q, [&](size_t j) { auto& e = x.m.e[j]; if (!x.m.prefixMatch(j, q)) return false;
            if (c.type == 0) return true;
            uint64_t h = 0; if (c.type & 1) { uint64_t hs = surf::suffixHash(e.key) >> surf::kHashShift, hq = surf::suffixHash(q) >> surf::kHashShift; uint64_t mk = c.hlen >= 64 ? ~0ull : (1ull << c.hlen) - 1; if ((hs & mk) != (hq & mk)) return false; }
            if (c.type >= 2) { size_t lv = e.prefix.size() + (e.term ? 1 : 0); uint64_t a = realBits(e.key, lv, c.rlen), b = realBits(q, lv, c.rlen);
                if (c.type == 2 && a == 0) return true;
                if (c.type == 2 && (q.size() < lv || (q.size() - lv) * 8 < c.rlen)) return false;
                if (a != b) return false; }
            (void)h; return true; });
        CHECK(g == t, "point query " + hex(q) + (g ? " answered true, no stored key justifies it" : " answered false, a stored prefix and suffix match")); } }

static void P05(Rng& r) { Ctx x(r, 1); size_t n = 0; note("moveToFirst"); auto it = x.s->moveToFirst();
    while (it.isValid() && n <= x.m.size()) { CHECK(n < x.m.size() && it.getKey() == x.m.e[n].prefix, "forward step " + S(n) + " is at " + hex(it.getKey())); n++; note("++ " + S(n)); it++; }
    CHECK(n == x.m.size(), "forward iteration ended after " + S(n) + " of " + S(x.m.size()) + " keys"); n = 0; note("moveToLast"); it = x.s->moveToLast();
    while (it.isValid() && n <= x.m.size()) { CHECK(n < x.m.size() && it.getKey() == x.m.e[x.m.size() - 1 - n].prefix, "backward step " + S(n) + " is at " + hex(it.getKey())); n++; note("-- " + S(n)); it--; }
    CHECK(n == x.m.size(), "backward iteration ended after " + S(n) + " of " + S(x.m.size()) + " keys"); }

static void P06(Rng& r) { Ctx x(r); for (auto& q : x.Q) for (int inc = 0; inc < 2; inc++) { string d = "seek greater than " + hex(q) + (inc ? " inclusive" : "") + ": "; note(d);
    auto it = x.s->moveToKeyGreaterThan(q, inc); size_t lo = x.lower(q, !inc);
    if (!it.isValid()) { CHECK(lo == x.m.size(), d + "invalid although key " + hex(x.m.e[lo < x.m.size() ? lo : 0].key) + " exists"); continue; }
    int p = x.keyAt(it); CHECK(p >= 0, d + "stands on " + hex(it.getKey()) + ", not a kept prefix"); CHECK((size_t)p <= lo, d + "skipped key " + hex(x.m.e[lo < x.m.size() ? lo : 0].key));
    if (!it.getFpFlag()) CHECK((size_t)p == lo, d + "stands before the first such key without the flag: " + hex(it.getKey())); else CHECK(x.isPrefix(p, q), d + "flag raised at non-matching prefix " + hex(it.getKey()));
    if (x.m.size() > 80 && !r.chance(1, 6)) continue;
    auto b = it; size_t n = p, steps = 0; while (it.isValid() && steps++ < 400) { note(d + "then ++"); CHECK(n < x.m.size() && it.getKey() == x.m.e[n].prefix, d + "stepping forward from there is at " + hex(it.getKey())); n++; it++; } CHECK(steps >= 400 || n == x.m.size(), d + "stepping forward stops early");
    int z = p; steps = 0; while (b.isValid() && steps++ < 400) { note(d + "then --"); CHECK(z >= 0 && b.getKey() == x.m.e[z].prefix, d + "stepping back from there is at " + hex(b.getKey())); z--; b--; } CHECK(steps >= 400 || z == -1, d + "stepping back stops early"); } }

static void P07(Rng& r) { Ctx x(r); for (auto& q : x.Q) for (int inc = 0; inc < 2; inc++) { string d = "seek less than " + hex(q) + (inc ? " inclusive" : "") + ": "; note(d);
    auto it = x.s->moveToKeyLessThan(q, inc); int hi = (int)x.lower(q, inc) - 1;
    if (!it.isValid()) { CHECK(hi < 0, d + "invalid although key " + hex(x.m.e[hi < 0 ? 0 : hi].key) + " exists"); continue; }
    int p = x.keyAt(it); CHECK(p >= 0, d + "stands on " + hex(it.getKey()) + ", not a kept prefix"); CHECK(p >= hi, d + "skipped key " + hex(x.m.e[hi < 0 ? 0 : hi].key));
    if (p > hi) { CHECK(it.getFpFlag(), d + "stands past the last such key without the flag"); CHECK(x.isPrefix(p, q), d + "stands past the last such key on a non-matching prefix " + hex(it.getKey())); } } }

static void P08(Rng& r) { Ctx x(r, 40); size_t n = x.m.size();
    vector<SuRF::Iter> its; { auto it = x.s->moveToFirst(); while (it.isValid() && its.size() <= n) { its.push_back(it); it++; } }
    for (int t = 0; t < 200 && !its.empty(); t++) { size_t i = r.below(its.size()), j = r.below(its.size()); if (i > j) std::swap(i, j); note("count of iterators " + S(i) + "," + S(j));
        SuRF::Iter a = its[i], b = its[j]; 
        if (r.chance(1, 5)) { a = x.s->moveToKeyGreaterThan(x.m.e[i].key, true); int p = a.isValid() ? x.keyAt(a) : -1; if (p < 0 || p > (int)j) continue; i = p; }
        if (r.chance(1, 5)) { b = x.s->moveToLast(); for (size_t k = n - 1; k > j && b.isValid(); k--) b--; if (!b.isValid()) continue; }
        uint64_t g = x.s->approxCount(&a, &b), w = j > i ? j - i - 1 : 0; CHECK(g == w, "count between positions " + S(i) + " and " + S(j) + " is " + S(g)); }
    for (int t = 0; t < 150; t++) { string a = x.Q[r.below(x.Q.size())], b = x.Q[r.below(x.Q.size())]; if (b < a) std::swap(a, b); note("count " + hex(a) + ".." + hex(b)); uint64_t g = x.s->approxCount(a, b);
        uint64_t lo = x.lower(a, false), h1 = x.lower(b, false), h2 = x.lower(b, true); CHECK(g <= h2 - lo && g + 2 >= h1 - lo, "count in " + hex(a) + ".." + hex(b) + " is " + S(g) + ", true " + S(h1 - lo) + ".." + S(h2 - lo)); } }

static string answers(Ctx& x, SuRF* s, Rng r) { string o; 
    for (auto& q : x.Q) { note("answers " + hex(q)); o += s->lookupKey(q) ? '1' : '0'; for (int inc = 0; inc < 2; inc++) { auto a = s->moveToKeyGreaterThan(q, inc); o += a.isValid() ? hex(a.getKey()) + (a.getFpFlag() ? "!" : ".") : string("-"); auto b = s->moveToKeyLessThan(q, inc); o += b.isValid() ? hex(b.getKey()) + (b.getFpFlag() ? "!" : ".") : string("-");
        if (a.isValid()) { unsigned bl = 0; o += hex(a.getKeyWithSuffix(&bl)) + S(bl); word_t w = 0; o += S(a.getSuffix(&w)) + S((long)w); int cc = a.compare(x.Q[r.below(x.Q.size())]); o += cc == surf::kCouldBePositive ? "?" : cc < 0 ? "<" : cc > 0 ? ">" : "="; } } }
    for (int t = 0; t < 60; t++) { string a = x.Q[r.below(x.Q.size())], b = x.Q[r.below(x.Q.size())]; if (b < a) std::swap(a, b); o += range(x, s, a, r.below(2), b, r.below(2)) ? 'T' : 'F'; o += S(s->approxCount(a, b)); }
    auto it = s->moveToFirst(); for (size_t n = 0; it.isValid() && n < 3000; n++) { o += hex(it.getKey()) + ","; it++; } it = s->moveToLast(); for (size_t n = 0; it.isValid() && n < 3000; n++) { o += hex(it.getKey()) + ","; it--; }
    return o; }

static void P09(Rng& r) { Ctx x(r, 25); note("serialize"); uint64_t sz = x.s->serializedSize(); char* d = x.s->serialize();
    string want = answers(x, x.s, Rng(7));
    // exactly sz bytes, 8-byte aligned, nothing after them
    char* e = (char*)malloc(sz); memcpy(e, d, sz); delete[] d; note("deSerialize"); SuRF* t = SuRF::deSerialize(e); 
    note("serializedSize of copy"); CHECK(t->serializedSize() == sz, "copy reports another serialized size"); char* f = t->serialize(); bool same = memcmp(e, f, sz) == 0; delete[] f; memset(e, 0xA5, sz); free(e);
    CHECK(same, "copy serializes to other bytes"); CHECK(answers(x, t, Rng(7)) == want, "deserialized filter answers differently"); t->destroy(); delete t; }

struct Vecs { gen::Levels L; string d; }; static string lev(const gen::Levels& L) { string d = "start=" + S(L.s) + " end=" + S(L.e) + " levels:"; for (size_t l = 0; l < L.n.size(); l++) { d += " n=" + S(L.n[l]) + "["; char b[20]; for (auto w : L.w[l]) { snprintf(b, 20, "%016lx ", (unsigned long)w); d += b; } d += "]"; } return d; }
static void P10(Rng& r) { auto L = gen::levels(r, false, 3000); cur = lev(L); if (L.flat.empty()) return; note("rank"); uint32_t bs[] = {64, 128, 512, 512, 512, 1024, 4096}; surf::BitvectorRank v(bs[r.below(7)], L.w, L.n, L.s, L.e); size_t c = 0;
    for (size_t i = 0; i < L.flat.size(); i++) { c += L.flat[i]; note("rank " + S(i)); CHECK(v.rank(i) == c, "rank(" + S(i) + ") is " + S(v.rank(i)) + " not " + S(c)); } v.destroy(); }
static void P11(Rng& r) { auto L = gen::levels(r, true, 3000); cur = lev(L); if (L.flat.empty() || !L.flat[0]) return; note("select"); uint32_t ss[] = {1, 2, 3, 16, 64, 64, 64, 100, 300, 1000}; surf::BitvectorSelect v(ss[r.below(10)], L.w, L.n, L.s, L.e); size_t c = 0;
    for (size_t i = 0; i < L.flat.size(); i++) if (L.flat[i]) { c++; note("select " + S(c)); CHECK(v.select(c) == i, "select(" + S(c) + ") is " + S(v.select(c)) + " not " + S(i)); } CHECK(v.numOnes() == c, "number of ones is " + S(v.numOnes()) + " not " + S(c)); v.destroy(); }
static void P12(Rng& r) { auto L = gen::levels(r, false, 700); cur = lev(L); size_t n = L.flat.size(); if (!n) return; note("scan"); surf::Bitvector v(L.w, L.n, L.s, L.e);
    size_t next = n; for (size_t i = n; i-- > 0;) { if (n < 9000 || r.chance(1, 64)) { note("next " + S(i)); CHECK(v.distanceToNextSetBit(i) == next - i, "distance to next set bit from " + S(i) + " is " + S(v.distanceToNextSetBit(i))); } if (L.flat[i]) next = i; }
    long prev = -1; for (size_t i = 0; i <= n; i++) { if (n >= 9000 && !r.chance(1, 64)) { if (i < n && L.flat[i]) prev = i; continue; } note("prev " + S(i)); position_t g = v.distanceToPrevSetBit(i); if (prev >= 0) CHECK(g == i - prev, "distance to previous set bit from " + S(i) + " is " + S(g)); else if (i) CHECK(g > i, "distance to previous set bit from " + S(i) + " is " + S(g) + " with none before"); if (i < n && L.flat[i]) prev = i; } }
static void P23(Rng& r) { auto L = gen::levels(r, false, 700); cur = lev(L); note("concat"); surf::Bitvector v(L.w, L.n, L.s, L.e); CHECK(v.numBits() == L.flat.size(), "length is " + S(v.numBits())); for (size_t i = 0; i < L.flat.size(); i++) { note("bit " + S(i)); CHECK(v.readBit(i) == L.flat[i], "bit " + S(i) + " differs"); } }

static void P13(Rng& r) { vector<vector<surf::label_t>> lv; struct Node { size_t pos, len; bool term; }; vector<Node> nd; vector<uint8_t> flat; size_t nl = 1 + r.below(3);
    for (size_t l = 0; l < nl; l++) { lv.emplace_back(); for (int n = 1 + r.below(6); n > 0; n--) { std::set<uint8_t> s; int mode = r.below(5); size_t k = mode == 0 ? 1 + r.below(3) : mode == 1 ? 1 + r.below(16) : mode == 2 ? 1 + r.below(40) : 1 + r.below(256); uint8_t b = r(); for (size_t i = 0; i < k; i++) s.insert(mode == 4 ? (uint8_t)(b + i) : (uint8_t)r()); if (r.chance(1, 4)) s.insert(255); bool term = r.chance(1, 3); nd.push_back({flat.size(), s.size() + term, term}); if (term) { flat.push_back(255); lv[l].push_back(255); } for (uint8_t c : s) { flat.push_back(c); lv[l].push_back(c); } } }
    cur = "labels=" + hex(string(flat.begin(), flat.end())); note("build"); surf::LabelVector v(lv);
    for (auto& x : nd) for (int t = 0; t < 256; t++) { uint8_t c = t; size_t b = x.pos + (x.term ? 1 : 0), e = x.pos + x.len; string d = "node at " + S(x.pos) + " length " + S(x.len) + (x.term ? " with terminator" : "") + " label " + S(t) + ": "; note(d);
        size_t at = std::lower_bound(flat.begin() + b, flat.begin() + e, c) - flat.begin(), gt = std::upper_bound(flat.begin() + b, flat.begin() + e, c) - flat.begin(); bool has = at < e && flat[at] == c;
        position_t p = x.pos; bool g = v.search(c, p, x.len); CHECK(g == has && (!g || p == at), d + "search gives " + S(g) + " at " + S(p));
        p = x.pos; g = v.searchGreaterThan(c, p, x.len); CHECK(g == (gt < e) && (!g || p == gt), d + "search for a greater label gives " + S(g) + " at " + S(p));
        if (e > b) for (int k = 0; k < 3; k++) { p = b; g = k == 0 ? v.linearSearch(c, p, e - b) : k == 1 ? v.binarySearch(c, p, e - b) : v.simdSearch(c, p, e - b); CHECK(g == has && (!g || p == at), d + "search variant " + S(k) + " gives " + S(g) + " at " + S(p)); } } }

static void P14(Rng& r) { Cfg c; c.dense = false; c.ratio = 16; c.type = 1 + r.below(3); c.hlen = c.rlen = 0; if (c.type == 1) c.hlen = 1 + r.below(64); if (c.type == 2) c.rlen = 1 + r.below(64); if (c.type == 3) { c.hlen = 1 + r.below(63); c.rlen = 1 + r.below(64 - c.hlen); }
    auto K = gen::keys(r, r.below(2)); Model m(K, c); cur = "type=" + S(c.type) + " hash_len=" + S(c.hlen) + " real_len=" + S(c.rlen) + " keys(hex)="; for (auto& k : K) cur += hex(k) + ","; note("build");
    surf::SuRFBuilder b(c.dense, c.ratio, (surf::SuffixType)c.type, c.hlen, c.rlen); b.build(K); size_t H = b.getTreeHeight(); vector<vector<word_t>> want(H); 
    for (auto& e : m.e) { size_t lv = e.prefix.size() + (e.term ? 1 : 0); if (lv > H) { fail("tree too low"); return; } want[lv - 1].push_back(surf::BitvectorSuffix::constructSuffix((surf::SuffixType)c.type, e.key, c.hlen, lv, c.rlen)); }
    vector<position_t> nb; for (size_t l = 0; l < H; l++) { CHECK(b.getSuffixCounts()[l] == want[l].size(), "suffix count of level " + S(l)); nb.push_back(b.getSuffixCounts()[l] * (c.hlen + c.rlen)); }
    size_t st = r.below(H), en = st + 1 + r.below(H - st); surf::BitvectorSuffix v((surf::SuffixType)c.type, c.hlen, c.rlen, b.getSuffixes(), nb, st, en); size_t i = 0;
    for (size_t l = st; l < en; l++) for (auto w : want[l]) { note("read " + S(i)); CHECK(v.read(i) == w, "suffix " + S(i) + " reads differently"); uint64_t mk = c.rlen >= 64 ? ~0ull : (1ull << c.rlen) - 1; CHECK(v.readReal(i) == (w & mk), "real suffix " + S(i) + " reads differently"); i++; } v.destroy(); }

static uint32_t refHash(const string& k) { const uint32_t m = 0xc6a4a793; uint32_t h = 0xbc9f1d34u ^ (uint32_t)(k.size() * m); size_t i = 0; for (; i + 4 <= k.size(); i += 4) { uint32_t w = 0; for (int b = 3; b >= 0; b--) w = (w << 8) | (uint8_t)k[i + b]; h += w; h *= m; h ^= h >> 16; } size_t rem = k.size() - i; if (rem == 3) h += (uint32_t)(uint8_t)k[i + 2] << 16; if (rem >= 2) h += (uint32_t)(uint8_t)k[i + 1] << 8; if (rem >= 1) { h += (uint8_t)k[i]; h *= m; h ^= h >> 24; } return h; }
static void P15(Rng& r) { for (int t = 0; t < 200; t++) { string k; size_t L = r.below(r.chance(1, 4) ? 60 : 14); for (size_t i = 0; i < L; i++) k += r.chance(1, 5) ? (char)0 : (char)r(); uint32_t hl = r.below(65), rl = r.below(65), lv = r.below(L + 4); uint32_t hm = r.below(65), rm = hm >= 64 ? 0 : r.below(65 - hm); if (rm == 64) rm = 63; cur = "key=" + hex(k) + " level=" + S(lv) + " hash_len=" + S(hl) + " real_len=" + S(rl); note("suffix");
        auto mask = [](uint32_t n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }; uint64_t hs = refHash(k) >> surf::kHashShift; using surf::BitvectorSuffix;
        string copy(k); CHECK(surf::suffixHash(k) == refHash(k), "hash differs"); CHECK(surf::suffixHash(copy.data(), copy.size()) == surf::suffixHash(k), "hash overloads differ");
        uint64_t g = BitvectorSuffix::constructSuffix(surf::kHash, k, hl, lv, 0); CHECK(g == (hs & mask(hl)), "hash suffix differs"); g = BitvectorSuffix::constructSuffix(surf::kReal, k, 0, lv, rl); CHECK(g == realBits(k, lv, rl), "real suffix differs");
        g = BitvectorSuffix::constructSuffix(surf::kMixed, k, hm, lv, rm); CHECK(g == (((rm >= 64 ? 0 : (hs & mask(hm)) << rm)) | realBits(k, lv, rm)), "mixed suffix differs for lengths " + S(hm) + "," + S(rm)); CHECK(BitvectorSuffix::extractRealSuffix(g, rm) == realBits(k, lv, rm), "real part of mixed suffix"); if (rm < 64) CHECK(BitvectorSuffix::extractHashSuffix(g, rm) == (hs & mask(hm)), "hash part of mixed suffix"); CHECK(BitvectorSuffix::constructSuffix(surf::kNone, k, hl, lv, 0) == 0, "suffix without type"); } }
static void P16(Rng& r) { for (int t = 0; t < 400; t++) { uint64_t a = r() >> r.below(64), b = r.chance(1, 2) ? a + r.below(5) - 2 : r.chance(1, 2) ? a ^ (1ull << r.below(64)) : r(); cur = S((long)a) + " " + S((long)b); note("convert"); string x = surf::uint64ToString(a), y = surf::uint64ToString(b); CHECK(x.size() == 8, "key length"); CHECK((a < b) == (x < y) && (a == b) == (x == y), "order of keys differs"); CHECK(surf::stringToUint64(x) == a, "inverse differs"); } }
static void P17(Rng& r) { Ctx x(r, 40); answers(x, x.s, Rng(r())); for (auto& e : x.m.e) { note("lookup"); x.s->lookupKey(e.key); if (r.chance(1, 50)) break; } auto it = x.at(r.below(x.m.size())); for (int i = 0; i < 60 && it.isValid(); i++) { note("walk"); if (r.below(2)) it++; else it--; if (it.isValid()) { word_t w; unsigned b; it.getKey(); it.getSuffix(&w); it.getKeyWithSuffix(&b); it.compare(x.Q[r.below(x.Q.size())]); } } char* d = x.s->serialize(); uint64_t sz = x.s->serializedSize(); char* e = (char*)malloc(sz); memcpy(e, d, sz); delete[] d; SuRF* t = SuRF::deSerialize(e); free(e); answers(x, t, Rng(3)); x.s->getMemoryUsage(); t->destroy(); delete t; evals++; }
// seeks and point queries on the same kept prefix must not depend on the split; compare everything
static void P18(Rng& r) { Ctx x(r, 25); string want = answers(x, x.s, Rng(11)); vector<string> U; for (auto& e : x.m.e) U.push_back(e.key);
    for (int t = 0; t < 4; t++) { Cfg c = x.c; uint32_t rs[] = {1, 2, 4, 16, 64, 1000, 100000}; c.ratio = rs[r.below(7)]; c.dense = t == 0 ? false : t == 1 ? true : r.below(2); bool dup = r.chance(1, 2); string d = "compared with dense=" + S(c.dense) + " ratio=" + S(c.ratio) + (dup ? " without duplicates" : ""); note(d);
        SuRF* o = new SuRF(dup ? U : x.K, c.dense, c.ratio, (surf::SuffixType)c.type, c.hlen, c.rlen); { string g = answers(x, o, Rng(11)); size_t i = 0; while (i < g.size() && i < want.size() && g[i] == want[i]) i++; CHECK(g == want, "answers differ " + d + ": ..." + g.substr(i > 60 ? i - 60 : 0, 100) + " instead of ..." + want.substr(i > 60 ? i - 60 : 0, 100)); } o->destroy(); delete o; } }
static void P19(Rng& r) { Ctx x(r, 25); note("serialize"); uint64_t sz = x.s->serializedSize(); char* d = x.s->serialize(); vector<char> before(d, d + sz); delete[] d; size_t j = r.below(x.m.size()); auto keep = x.at(j); if (!keep.isValid()) { fail("iterator ended early"); return; }
    auto look = [](SuRF::Iter& a) { if (!a.isValid()) return string("-"); unsigned bl = 0; word_t w = 0; int l = a.getSuffix(&w); return hex(a.getKey()) + "/" + hex(a.getKeyWithSuffix(&bl)) + "/" + S(bl) + "/" + S(l) + "/" + (l ? S((long)w) : string()) + (a.getFpFlag() ? "!" : ""); };
    const string kept = look(keep); SuRF::Iter roam = keep; auto one = [&](int k, const string& q, const string& q2) { note("history query " + S(k) + " " + hex(q) + " " + hex(q2)); string o; switch (k) { case 0: return string(x.s->lookupKey(q) ? "1" : "0"); case 1: case 2: { auto a = x.s->moveToKeyGreaterThan(q, k == 1); return a.isValid() ? hex(a.getKey()) : string("-"); } case 3: case 4: { auto a = x.s->moveToKeyLessThan(q, k == 3); return a.isValid() ? hex(a.getKey()) : string("-"); } case 5: return string(x.s->lookupRange(std::min(q, q2), true, std::max(q, q2), false) ? "T" : "F"); case 6: return S(x.s->approxCount(std::min(q, q2), std::max(q, q2))); case 7: { auto a = x.s->moveToFirst(); return a.isValid() ? hex(a.getKey()) : string("-"); } case 8: { auto a = x.s->moveToLast(); return a.isValid() ? hex(a.getKey()) : string("-"); } case 9: { auto a = keep; a++; return a.isValid() ? hex(a.getKey()) : string("-"); } case 10: { auto a = keep; a--; return a.isValid() ? hex(a.getKey()) : string("-"); }
        case 11: { roam = q < q2 ? keep : x.s->moveToKeyGreaterThan(q, true); for (int i = 0; i < 3 && roam.isValid(); i++) roam++; return roam.isValid() ? hex(roam.getKey()) : string("-"); } case 12: { auto a = x.s->moveToKeyLessThan(q, true); auto b = a; for (int i = 0; i < 2 && b.isValid(); i++) b--; return look(a) + " " + look(b); }
        default: return S(x.s->approxCount(&keep, &keep)); } };
    struct Qy { int k; string a, b, res; }; vector<Qy> seen; for (int t = 0; t < 150; t++) { if (!seen.empty() && r.chance(1, 2)) { auto& s = seen[r.below(seen.size())]; CHECK(one(s.k, s.a, s.b) == s.res, "query of kind " + S(s.k) + " on " + hex(s.a) + " " + hex(s.b) + " changed its answer"); } else { Qy s; s.k = r.below(14); s.a = x.Q[r.below(x.Q.size())]; s.b = x.Q[r.below(x.Q.size())]; s.res = one(s.k, s.a, s.b); seen.push_back(s); } CHECK(keep.isValid() && keep.getKey() == x.m.e[j].prefix && look(keep) == kept, "an iterator obtained earlier moved"); }
    char* f = x.s->serialize(); bool same = x.s->serializedSize() == sz && memcmp(f, before.data(), sz) == 0; delete[] f; CHECK(same, "serialized bytes changed"); }
static void P20(Rng& r) { using namespace surf; for (int t = 0; t < 200; t++) { uint64_t w = r(); switch (r.below(6)) { case 0: w &= r() & r(); break; case 1: w |= r() | r(); break; case 2: w = 1ull << r.below(64); break; case 3: w = ~0ull; break; case 4: w = r() >> r.below(64) << r.below(64); break; } char b[40]; snprintf(b, 40, "word %016lx", (unsigned long)w); cur = b; note("kernels"); int n = 0; vector<int> pos; for (int i = 0; i < 64; i++) if (w >> (63 - i) & 1) { n++; pos.push_back(i); }
        CHECK(suxpopcount(w) == n && popcount(w) == n, "popcount"); for (int k = 1; k <= n; k++) { CHECK(select64_popcount_search(w, k) == pos[k - 1], "select64_popcount_search " + S(k)); CHECK(select64_naive(w, k) == pos[k - 1], "select64_naive " + S(k)); CHECK(select64(w, k) == pos[k - 1], "select64 " + S(k)); CHECK(select64_broadword(w, k - 1) == 63 - pos[n - k], "select64_broadword " + S(k - 1)); } }
    vector<uint64_t> v(1 + r.below(20)); for (auto& w : v) { w = r(); if (r.chance(1, 3)) w = 0; if (r.chance(1, 5)) w &= r() & r(); } cur = "words"; for (auto w : v) { char b[40]; snprintf(b, 40, " %016lx", (unsigned long)w); cur += b; } note("arrays"); auto bit = [&](size_t i) { return v[i / 64] >> (63 - i % 64) & 1; };
    for (int t = 0; t < 100; t++) { size_t x = r.below(v.size()), n = r.below((v.size() - x) * 64 + 1), c = 0; if (r.chance(1, 3)) n = std::min<size_t>((v.size() - x) * 64, 64 * r.below(20)); for (size_t i = 0; i < n; i++) c += bit(x * 64 + i); CHECK(popcountLinear(v.data(), x, n) == c, "popcountLinear from " + S(x) + " bits " + S(n)); }
    { size_t x = 0, c = 0; for (size_t i = 0; i < v.size() * 64; i++) if (bit(i)) { c++; CHECK(selectLinear(v.data(), v.size(), x, c) == i, "selectLinear " + S(c)); if (i < 512 && v.size() >= 8) CHECK((size_t)select512(v.data(), 0, c) == i, "select512 " + S(c)); } } }
static void P21(Rng& r) { Ctx x(r, 20); auto chk = [&](SuRF::Iter& it, const string& d) { note(d); int p = x.keyAt(it); if (p < 0) { fail(d + " key " + hex(it.getKey()) + " is no kept prefix"); return; } auto& e = x.m.e[p]; evals++;
        word_t w = 1; int l = it.getSuffix(&w); if (x.c.type >= 2 ? (l != (int)x.c.rlen || w != e.real) : (l != 0 || w != 0)) { fail(d + " suffix of " + hex(e.key) + " is wrong"); return; }
        unsigned bl = 99; string ks = it.getKeyWithSuffix(&bl), want = e.prefix; unsigned wb = 0; if (e.real) { wb = x.c.rlen % 8; for (uint32_t i = 0; i < x.c.rlen; i += 8) { int v = 0; for (int b = 0; b < 8; b++) v = v * 2 + (i + b < x.c.rlen ? (e.real >> (x.c.rlen - 1 - i - b) & 1) : 0); want += (char)v; } } if (ks != want || bl != wb) fail(d + " key with suffix of " + hex(e.key) + " is " + hex(ks) + " bits " + S(bl)); };
    auto it = x.s->moveToFirst(); for (size_t n = 0; it.isValid() && n < 400 && !failed; n++) { chk(it, "forward"); it++; } it = x.s->moveToLast(); for (size_t n = 0; it.isValid() && n < 400 && !failed; n++) { chk(it, "backward"); it--; } for (auto& q : x.Q) { if (failed) return; it = x.s->moveToKeyGreaterThan(q, r.below(2)); if (it.isValid()) chk(it, "seek " + hex(q)); it = x.s->moveToKeyLessThan(q, r.below(2)); if (!failed && it.isValid()) chk(it, "seek less " + hex(q)); } }
static void P22(Rng& r) { Ctx x(r, 50); for (int t = 0; t < 12; t++) { size_t i = r.below(x.m.size()); if (x.m.size() > 200) i = r.below(200); auto it = x.at(i); if (!it.isValid()) { fail("iterator ended early"); return; } auto& e = x.m.e[i]; for (auto& q : x.Q) { note("compare " + hex(e.key) + " with " + hex(q)); int g = it.compare(q); int c = e.key.compare(q); string d = "compare at " + hex(e.key) + " with " + hex(q) + " gives " + S(g); if (g == surf::kCouldBePositive || g == 0) CHECK(x.isPrefix(i, q), d + ": kept prefix does not match"); else if (g < 0) CHECK(c < 0, d); else CHECK(c > 0, d); } } }

#include "bloom_case.hpp"
// P25: threads with iterators of their own on one filter; built with ThreadSanitizer
struct Ask { int kind; string q; bool inc; unsigned steps; bool back; string want, got; };
static void askOne(const SuRF* f, const Ask& a, string& o) {
    if (a.kind == 0) { o = f->lookupKey(a.q) ? "yes" : "no"; return; }
    SuRF::Iter it = a.kind == 1 ? f->moveToKeyGreaterThan(a.q, a.inc) : a.kind == 2 ? f->moveToKeyLessThan(a.q, a.inc) : a.kind == 3 ? f->moveToFirst() : f->moveToLast();
    o = it.isValid() ? it.getFpFlag() ? "!" : "." : "-";
    for (unsigned i = 0; it.isValid() && i <= a.steps; i++) { unsigned bl = 0; word_t w = 0; int l = it.getSuffix(&w); o += hex(it.getKey()) + "/" + hex(it.getKeyWithSuffix(&bl)) + "/" + S(bl) + "/" + S(l) + "/" + (l ? S((long)w) : string()) + ","; int c = it.compare(a.q); o += c == surf::kCouldBePositive ? "?" : c < 0 ? "<" : c > 0 ? ">" : "="; if (a.back) it--; else it++; } }
static const char* ASKS[] = {"lookupKey ", "moveToKeyGreaterThan ", "moveToKeyLessThan ", "moveToFirst ", "moveToLast "};
static void P25(Rng& r) { Ctx x(r, 30, 1); const SuRF* f = x.s; const size_t T = 4; vector<vector<Ask>> A(T);
    for (auto& v : A) for (int n = 0; n < 60; n++) { Ask a; a.kind = r.chance(1, 3) ? 0 : 1 + r.below(4); a.q = r.chance(1, 2) ? x.m.e[r.below(x.m.size())].key : x.Q[r.below(x.Q.size())]; a.inc = r.below(2); a.steps = r.below(6); a.back = a.kind == 4 || (a.kind != 3 && r.below(2)); v.push_back(a); }
    note("queries asked alone"); for (auto& v : A) for (auto& a : v) askOne(f, a, a.want);
    note("queries asked at the same time by " + S(T) + " threads");
    std::atomic<unsigned> up(0); vector<std::thread> th;
    for (size_t t = 0; t < T; t++) th.emplace_back([&, t] { up++; while (up < T) { } for (auto& a : A[t]) askOne(f, a, a.got); });
    for (auto& t : th) t.join();
    for (auto& v : A) for (auto& a : v) CHECK(a.want == a.got, string(ASKS[a.kind]) + hex(a.q) + (a.inc ? " inclusive" : "") + " asked by a thread gives " + a.got + ", asked alone " + a.want); }

struct Prop { const char* id; void (*f)(Rng&); };
static Prop E[] = {{"P01", P01}, {"P02", P02}, {"P03", P03}, {"P04", P04}, {"P05", P05}, {"P06", P06}, {"P07", P07}, {"P08", P08}, {"P09", P09}, {"P10", P10}, {"P11", P11}, {"P12", P12}, {"P13", P13}, {"P14", P14}, {"P15", P15}, {"P16", P16}, {"P17", P17}, {"P18", P18}, {"P19", P19}, {"P20", P20}, {"P21", P21}, {"P22", P22}, {"P23", P23}, {"P24", P24}, {"P25", P25}};
static void one(void (*f)(Rng&), uint64_t cs) { failed = false; cur = ""; shown = 0; Rng r(cs); f(r); }
// seconds of processor time (the machine may be busy); four times that on the clock
static void limit(int secs) { itimerval t = {{0, 0}, {secs, 0}}; setitimer(ITIMER_PROF, &t, 0); alarm(4 * secs); }
int main(int argc, char** argv) {
    void (*f)(Rng&) = 0; for (auto& e : E) if (argc > 1 && string(argv[1]) == e.id) f = e.f; if (!f || argc < 4) return 2;
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (string(argv[2]) == "--case") { one(f, strtoull(argv[3], 0, 0)); printf("%s %s\n%s\n", failed ? "FAIL" : "PASS", why.c_str(), cur.c_str()); return failed; }
    double secs = atof(argv[2]); uint64_t seed = strtoull(argv[3], 0, 0); int np = argc > 4 ? atoi(argv[4]) : 8; const char* out = argc > 5 ? argv[5] : 0;
    struct Slot { Shared s; uint64_t cs; int state; char msg[1 << 14]; char desc[1 << 16]; }; Slot* sl = (Slot*)mmap(0, sizeof(Slot) * np, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    time_t end = time(0) + (time_t)secs; vector<pid_t> pid(np);
    for (int i = 0; i < np; i++) { pid[i] = fork(); if (!pid[i]) { sh = &sl[i].s; for (uint64_t n = 0; time(0) < end; n++) { sl[i].cs = (seed * 1000003ull + n) * 64 + i; 
            limit(60); one(f, sl[i].cs); limit(0); sl[i].s.cases++; sl[i].s.evals = evals; if (failed) { sl[i].state = 1; snprintf(sl[i].msg, sizeof sl[i].msg, "%s", why.c_str()); snprintf(sl[i].desc, sizeof sl[i].desc, "%s", cur.c_str()); _exit(1); } } _exit(0); } }
    int bad = -1; string what; for (int left = np; left > 0;) { int st; pid_t p = wait(&st); if (p < 0) break; left--; for (int i = 0; i < np; i++) if (pid[i] == p) { pid[i] = 0; if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue; if (bad < 0) { bad = i; if (sl[i].state == 1) what = sl[i].msg; else { what = string(WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF) ? "no answer within 60 s" : "crash, sanitizer report or failed assertion") + " in " + sl[i].s.note + " | " + sl[i].s.cur; } for (int j = 0; j < np; j++) if (pid[j]) kill(pid[j], SIGKILL); } } }
    long c = 0, e = 0; for (int i = 0; i < np; i++) { c += sl[i].s.cases; e += sl[i].s.evals; }
    printf("CASES %ld EVALS %ld\n", c, e); if (bad >= 0) { printf("FAILING-CASE %llu %s\n", (unsigned long long)sl[bad].cs, what.substr(0, 2000).c_str()); if (out) { FILE* o = fopen(out, "w"); if (o) { fprintf(o, "property %s\ncase %llu\nwhat: %s\ninput: %s\n", argv[1], (unsigned long long)sl[bad].cs, what.c_str(), sl[bad].desc); fclose(o); } } }
    return bad >= 0; }
