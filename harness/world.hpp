// Semantic oracle and instrumented solver used by all solver-level harnesses.
#pragma once
#include "SAT-API.hpp"
#include "Sentinel-API.hpp"
#include "common.hpp"
#include <memory>

namespace vf {
using namespace napsat;

// Literals in scripts are DIMACS integers.
inline Tlit L(int l) { return Tlit(Tvar((unsigned)std::abs(l)), l > 0 ? 1u : 0u); }
inline int I(Tlit l) { return l.pol() ? (int)l.var().value : -(int)l.var().value; }
inline int Iraw(unsigned l) { return (l & 1) ? (int)(l >> 1) : -(int)(l >> 1); }

// Set of total assignments over variables 1..n (n <= 13): bit a of the set is assignment a,
// bit (v-1) of a is the value of variable v.
struct Models {
  unsigned n = 0; vector<uint64_t> w;
  static const vector<uint64_t>& var_mask(unsigned n, unsigned v) {
    static vector<uint64_t> cache[20][20];
    auto& c = cache[n][v];
    if (c.empty()) {
      unsigned words = n <= 6 ? 1 : 1u << (n - 6);
      c.resize(words);
      for (uint64_t a = 0; a < (1ull << n); a++) if (a >> (v - 1) & 1) c[a / 64] |= 1ull << (a % 64);
    }
    return c;
  }
  uint64_t full_word() const { return n >= 6 ? ~0ull : (1ull << (1u << n)) - 1; }
  explicit Models(unsigned n_ = 0, bool all = true) : n(n_), w(n_ <= 6 ? 1 : 1u << (n_ - 6), 0) { if (all) for (auto& x : w) x = full_word(); }
  bool empty() const { for (auto x : w) if (x) return false; return true; }
  uint64_t count() const { uint64_t c = 0; for (auto x : w) c += __builtin_popcountll(x); return c; }
  void and_lit(int l) {
    const auto& m = var_mask(n, std::abs(l));
    for (size_t i = 0; i < w.size(); i++) w[i] &= l > 0 ? m[i] : ~m[i];
  }
  void and_clause(const vector<int>& c) {
    vector<uint64_t> u(w.size(), 0);
    for (int l : c) { const auto& m = var_mask(n, std::abs(l)); for (size_t i = 0; i < w.size(); i++) u[i] |= l > 0 ? m[i] : ~m[i]; }
    for (size_t i = 0; i < w.size(); i++) w[i] &= u[i];
  }
  bool entails_lit(int l) const { Models t = *this; t.and_lit(-l); return t.empty(); }
  bool entails_clause(const vector<int>& c) const { Models t = *this; for (int l : c) t.and_lit(-l); return t.empty(); }
  bool operator==(const Models& o) const { return n == o.n && w == o.w; }
  void grow(unsigned m) {                       // add variables up to m
    while (n < m) {
      Models t(n + 1, false);
      for (uint64_t a = 0; a < (1ull << n); a++) if (w[a / 64] >> (a % 64) & 1) { uint64_t b = a | (1ull << n); t.w[a / 64] |= 1ull << (a % 64); t.w[b / 64] |= 1ull << (b % 64); }
      *this = t;
    }
  }
};

inline vector<string> split(const string& s, char d) {
  vector<string> r; string cur;
  for (char c : s) if (c == d) { r.push_back(cur); cur.clear(); } else cur += c;
  r.push_back(cur);
  return r;
}
inline vector<int> ints(const string& s) { vector<int> r; if (s.empty()) return r; for (auto& t : split(s, ',')) if (!t.empty()) r.push_back(std::stoi(t)); return r; }
inline string cl_str(const vector<int>& c) { string s; for (size_t i = 0; i < c.size(); i++) { if (i) s += ','; s += std::to_string(c[i]); } return s; }

inline void quiet() { env::set_suppress_warning(true); env::set_suppress_info(true); }

inline options make_options(const string& o) {
  vector<string> t;
  for (auto& x : split(o, ' ')) if (!x.empty() && x[0] != '@') t.push_back(x);
  t.push_back("-ssi"); t.push_back("off");
  return options(t);
}
}
