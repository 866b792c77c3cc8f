// Deterministic generators of keys, configurations and queries.
#pragma once
#include <random>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include "oracle.hpp"
namespace gen {
using std::string; using std::vector;
struct Rng {
    std::mt19937_64 g;
    explicit Rng(uint64_t s) : g(s * 0x9E3779B97F4A7C15ull + 12345) {}
    uint64_t operator()() { return g(); }
    uint64_t below(uint64_t n) { return n ? g() % n : 0; }
    bool chance(unsigned num, unsigned den) { return g() % den < num; }
};
inline string alphabet(Rng& r) {
    string a;
    switch (r.below(5)) {
    case 0: return "ab";
    case 1: return string("\0a\xff", 3);
    case 2: for (int i = 0; i < 256; i++) a += (char)i; return a;
    case 3: for (int i = 'a'; i <= 'z'; i++) a += (char)i; return a;
    default: return string("\0\x01" "abc\x7f\x80\xfe\xff", 9);
    }
}
// size class: 0 tiny, 1 middle, 2 large, 3 beyond 2^16 keys or levels
inline vector<string> keys(Rng& r, int cls) {
    std::set<string> S;
    string al = alphabet(r);
    size_t maxlen = 1 + r.below(cls == 0 ? 5 : 9), n;
    int style = r.below(8);
    if (cls == 0) n = 1 + r.below(style < 5 ? 8 : 40);
    else if (cls == 1) n = 1 + r.below(300);
    else n = 300 + r.below(4000);
    if (cls == 3) {
        if (r.chance(1, 3)) {  // few keys, many levels
            string p(65530 + r.below(300), al[r.below(al.size())]); n = r.below(4);
            S.insert(p + "b"); S.insert(p + "c"); if (r.chance(1, 2)) S.insert(p.substr(0, p.size() - r.below(9)));
        } else {
            size_t l = 3 + r.below(3), m = 66000 + r.below(30000); uint32_t top = r.chance(1, 3) ? 16 : 256;
            while (S.size() < m) { string k(1, (char)r.below(top)); while (k.size() < l) k += (char)r(); S.insert(k); }
            n = r.below(2000);
        }
        style = 0;
    }
    if (style == 6) {  // one node with many labels
        string pre; for (int i = r.below(3); i > 0; i--) pre += al[r.below(al.size())];
        int c = 1 + r.below(256), st = r.below(250);
        for (int i = 0; i < c && st + i < 256; i++) if (!r.chance(1, 9)) S.insert(pre + (char)(st + i));
        if (r.chance(1, 2) && !pre.empty()) S.insert(pre);
        n = r.below(6);
    } else if (style == 7 && cls > 0) {  // integers, big endian
        uint64_t base = r(), step = 1 + r.below(r.chance(1, 2) ? 20 : 100000);
        if (r.chance(1, 2)) base &= 0xffffff;
        for (size_t i = 0; i < n; i++) {
            uint64_t v = base + i * step; string k(8, 0);
            for (int b = 0; b < 8; b++) k[b] = (char)(v >> (56 - 8 * b));
            S.insert(k);
        }
        n = r.below(10);
    } else if (style == 5) {  // long common prefixes
        string p; size_t L = r.below(cls == 0 ? 12 : 80);
        for (size_t i = 0; i < L; i++) { p += al[r.below(al.size())]; if (r.chance(1, 4)) S.insert(p); }
    }
    if (cls == 0 && r.chance(1, 60)) {  // key lengths around values with a special meaning in the code
        string p(2014 + r.below(8), al[r.below(al.size())]); n = r.below(4);
        S.insert(p + "b"); S.insert(p + "c"); if (r.chance(1, 2)) S.insert(p);
    }
    for (size_t i = 0; i < n; i++) {
        string k; size_t l = 1 + r.below(maxlen);
        for (size_t j = 0; j < l; j++) k += al[r.below(al.size())];
        if (r.chance(1, 3) && !S.empty()) {
            auto it = S.lower_bound(k); if (it == S.end()) it = S.begin();
            k = it->substr(0, r.below(it->size() + 1)) + k;
        }
        S.insert(k);
    }
    if (S.empty()) S.insert(string(1, al[r.below(al.size())]));
    vector<string> v(S.begin(), S.end());
    if (r.chance(1, 5)) { vector<string> d; for (auto& x : v) { d.push_back(x); while (r.chance(1, 3)) d.push_back(x); } v = d; }
    return v;
}
inline oracle::Cfg cfg(Rng& r) {
    oracle::Cfg c; c.dense = !r.chance(1, 4);
    uint32_t rs[] = {1, 2, 16, 16, 64, 1000, 100000}; c.ratio = rs[r.below(7)];
    c.type = r.below(4); c.hlen = c.rlen = 0;
    uint32_t ls[] = {1, 3, 4, 7, 8, 8, 8, 9, 13, 16, 24, 26, 31, 32};
    if (c.type & 1) c.hlen = ls[r.below(14)];
    if (c.type >= 2) c.rlen = ls[r.below(14)];
    if (c.type == 1 && r.chance(1, 8)) c.hlen = r.chance(1, 2) ? 64 : 33 + r.below(31);
    if (c.type == 2 && r.chance(1, 6)) c.rlen = r.chance(1, 2) ? 64 : 33 + r.below(31);
    if (c.type == 3 && r.chance(1, 10)) { if (r.chance(1, 2)) { c.hlen = 0; c.rlen = r.chance(1, 2) ? 64 : ls[r.below(14)]; } else { c.hlen = r.chance(1, 2) ? 64 : ls[r.below(14)]; c.rlen = 0; } }
    if (c.type && r.chance(1, 24)) c.hlen = c.rlen = 0;
    return c;
}
inline vector<string> queries(Rng& r, const vector<string>& K, size_t max) {
    std::set<string> q; q.insert("");
    const char ext[] = {0, 1, 'a', 'b', 'c', (char)0x7f, (char)0x80, (char)0xff};
    for (size_t n = 0; n < K.size() && n < 12; n++) {
        auto& k = K[K.size() <= 12 ? n : r.below(K.size())];
        size_t i0 = k.size() > 200 ? k.size() - 20 : k.size() > 24 ? r.below(k.size() - 20) : 0;
        for (size_t d = 2014; d <= 2022; d++) if (k.size() >= d) q.insert(k.substr(0, k.size() - d));
        for (size_t i = i0; i <= k.size(); i++) {
            string p = k.substr(0, i); q.insert(p);
            for (char c : ext) { q.insert(p + c); if (r.chance(1, 4)) q.insert(p + c + ext[r.below(8)]); }
            if (i) { string x = p; x[i - 1]++; q.insert(x); x[i - 1] -= 2; q.insert(x); if (r.chance(1, 3)) q.insert(x + k.substr(i)); }
        }
        q.insert(k + k + k); q.insert(k + string(r.below(40), ext[r.below(8)]));
        { string x = k; x[r.below(x.size())] ^= 1 << r.below(8); q.insert(x); }
    }
    for (int n = 0; n < 4; n++) { string x; for (int i = r.below(12); i > 0; i--) x += (char)r(); q.insert(x); }
    vector<string> v(q.begin(), q.end());
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
    if (v.size() > max) v.resize(max);
    return v;
}
// random per-level bit vectors; bits past the declared length are zero
struct Levels { vector<vector<uint64_t>> w; vector<uint32_t> n; uint32_t s, e; vector<bool> flat; };
inline Levels levels(Rng& r, bool first_one, size_t maxbits) {
    Levels L; size_t nl = 1 + r.below(6);
    // now and then one level beyond 2^16 bits, or more than 2^8 levels
    size_t huge = r.chance(1, 150) ? r.below(nl) : nl; if (huge == nl && r.chance(1, 100)) { nl = 250 + r.below(100); maxbits = 70; huge = nl; }
    for (size_t l = 0; l < nl; l++) {
        uint32_t n; switch (r.below(6)) { case 0: n = 64 * r.below(6); break; case 1: n = r.below(3); break; case 2: n = r.below(64); break;
          case 3: n = 512 * (1 + r.below(2)) + r.below(3) - 1; break; default: n = r.below(maxbits); }
        if (nl > 6 && n > 200) n = r.below(70);
        if (l == huge) n = 66000 + r.below(80000);
        vector<uint64_t> w((n + 63) / 64 + r.below(3), 0);
        int den = r.below(5); bool rare = l == huge && r.chance(2, 3);
        for (uint32_t i = 0; i < n; i++) { bool b = den == 0 ? false : den == 1 ? true : den == 2 ? r.chance(1, 97) : den == 3 ? r.chance(1, 2) : r.chance(1, 9); if (rare) b = r.chance(1, 50000); if (b) w[i / 64] |= 1ull << (63 - i % 64); }
        L.w.push_back(w); L.n.push_back(n);
    }
    L.s = r.below(nl); L.e = r.chance(1, 4) ? 0 : L.s + 1 + r.below(nl - L.s);
    if (r.chance(1, 2)) { L.s = 0; }
    uint32_t e = L.e ? L.e : nl;
    if (first_one) { for (uint32_t l = L.s; l < e; l++) if (L.n[l]) { L.w[l][0] |= 1ull << 63; break; } }
    for (uint32_t l = L.s; l < e; l++) for (uint32_t i = 0; i < L.n[l]; i++) L.flat.push_back((L.w[l][i / 64] >> (63 - i % 64)) & 1);
    return L;
}
inline string hex(const string& s) { if (s.empty()) return "''"; static const char* d = "0123456789abcdef"; string o(2 * s.size(), 0); char* p = &o[0]; for (unsigned char c : s) { *p++ = d[c >> 4]; *p++ = d[c & 15]; } return o; }
}
