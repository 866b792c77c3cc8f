#include <cstdio>
#include <cstdlib>
#include "bloom.hpp"
#include "gen.hpp"
string bloomCase(uint64_t seed, long* evals, string* desc) {
    gen::Rng r(seed); int bpk = 1 + r.below(60); bool big = r.chance(1, 100), ints = r.below(2); BloomFilter f(bpk); string dst, pre;
    if (r.chance(1, 3)) for (int n = 1 + r.below(80); n > 0; n--) pre += (char)(r.chance(1, 2) ? 0 : r());   // filters are appended to what is there
    dst = pre;
    if (r.chance(1, 3)) bpk = 10;
    *desc = "bits_per_key=" + std::to_string(bpk) + (ints ? " integer keys" : " string keys") + " appended to " + std::to_string(pre.size()) + " bytes";
    if (ints) { std::vector<uint64_t> k; for (int n = big ? 60000 + r.below(20000) : 1 + r.below(300); n > 0; n--) k.push_back(r() >> r.below(64)); f.CreateFilter(k, k.size(), &dst); dst.erase(0, pre.size()); for (auto x : k) { ++*evals; if (!f.KeyMayMatch(x, dst)) return "integer key " + std::to_string(x) + " of " + std::to_string(k.size()) + " denied"; } }
    else { auto k = gen::keys(r, big ? 2 : r.below(2)); if (big && r.chance(1, 3)) while (k.size() < 66000) { string x; for (int l = 3 + r.below(9); l > 0; l--) x += (char)r(); k.push_back(x); } f.CreateFilter(k, k.size(), &dst); dst.erase(0, pre.size()); for (auto& x : k) { ++*evals; if (!f.KeyMayMatch(x, dst)) return "key " + gen::hex(x) + " of " + std::to_string(k.size()) + " denied"; } }
    return "";
}
