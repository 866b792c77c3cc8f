#pragma once
// defined in bloom.cpp (bench/bloom.hpp has names of its own that clash with include/hash.hpp)
string bloomCase(uint64_t seed, long* evals, string* desc);
static void P24(Rng& r) { string d; note("bloom"); string w = bloomCase(r(), &evals, &d); cur = d; if (!w.empty()) fail(w); }
