// Brute-force reference model of a SuRF filter, written from the property
// statements only (sorted list of keys), not from the code under test.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <algorithm>

namespace oracle {

struct Cfg {
    bool dense; uint32_t ratio; int type; uint32_t hlen, rlen;
};

inline size_t lcp(const std::string& a, const std::string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    return i;
}

struct Entry {
    std::string key;     // full key
    std::string prefix;  // what the trie keeps of it (without the terminator)
    bool term;           // kept completely, with an end-of-key marker
    bool real_known;     // the stored real suffix bits are known (and non-zero)
    uint64_t real;       // stored real suffix (0 = nothing known)
};

inline uint64_t realBits(const std::string& k, size_t level, uint32_t len) {
    if (len == 0 || k.size() < level || (k.size() - level) * 8 < len) return 0;
    uint64_t v = 0;
    for (uint32_t b = 0; b < len; b++) {
        uint8_t byte = (uint8_t)k[level + b / 8];
        v = (v << 1) | ((byte >> (7 - b % 8)) & 1);
    }
    return v;
}

struct Model {
    std::vector<Entry> e;  // unique keys in order
    Cfg cfg;
    Model(const std::vector<std::string>& keys, const Cfg& c) : cfg(c) {
        std::vector<std::string> u;
        for (auto& k : keys)
            if (u.empty() || u.back() != k) u.push_back(k);
        for (size_t i = 0; i < u.size(); i++) {
            size_t m = 0;
            if (i > 0) m = std::max(m, lcp(u[i - 1], u[i]));
            if (i + 1 < u.size()) m = std::max(m, lcp(u[i], u[i + 1]));
            Entry x;
            x.key = u[i];
            x.term = (m == u[i].size());
            x.prefix = x.term ? u[i] : u[i].substr(0, m + 1);
            x.real = 0;
            if (c.type >= 2 && !x.term) x.real = realBits(u[i], x.prefix.size(), c.rlen);
            x.real_known = x.real != 0;
            e.push_back(x);
        }
    }
    size_t size() const { return e.size(); }
    // stored prefix admits q: q could be the key as far as the kept prefix tells
    bool prefixMatch(size_t j, const std::string& q) const {
        if (e[j].term) return q == e[j].key;
        return q.size() >= e[j].prefix.size() && q.compare(0, e[j].prefix.size(), e[j].prefix) == 0;
    }
    // index of first key >= q (strict: > q)
    size_t lower(const std::string& q, bool strict) const {
        for (size_t j = 0; j < e.size(); j++) {
            int c = e[j].key.compare(q);
            if (c > 0 || (c == 0 && !strict)) return j;
        }
        return e.size();
    }
    bool contains(const std::string& q) const {
        for (auto& x : e) if (x.key == q) return true;
        return false;
    }
    bool rangeNonEmpty(const std::string& l, bool li, const std::string& r, bool ri) const {
        for (auto& x : e) {
            int a = x.key.compare(l), b = x.key.compare(r);
            if ((a > 0 || (a == 0 && li)) && (b < 0 || (b == 0 && ri))) return true;
        }
        return false;
    }
};

}  // namespace oracle
