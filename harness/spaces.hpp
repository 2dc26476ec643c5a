// Enumerations shared by the solver-level harnesses.
#pragma once
#include "solver.hpp"

namespace vf {
// All non-tautological clauses over variables 1..V with at most K literals (literals ascending).
inline vector<vector<int>> clause_pool(int V, int K, int minK = 1) {
  vector<vector<int>> pool; int tot = 1;
  for (int i = 0; i < V; i++) tot *= 3;
  for (int c = 1; c < tot; c++) {
    vector<int> cl; int x = c;
    for (int v = 1; v <= V; v++) { int d = x % 3; x /= 3; if (d == 1) cl.push_back(v); else if (d == 2) cl.push_back(-v); }
    if ((int)cl.size() <= K && (int)cl.size() >= minK) pool.push_back(cl);
  }
  std::stable_sort(pool.begin(), pool.end(), [](auto& a, auto& b) { return a.size() < b.size(); });
  return pool;
}
// Clauses with repeated or complementary literals, as a user may write them.
inline vector<vector<int>> dirty_pool(int V) {
  vector<vector<int>> p;
  for (int a = 1; a <= V; a++) for (int s = -1; s <= 1; s += 2) {
    int x = a * s; p.push_back({x, x}); p.push_back({x, -x});
    for (int b = 1; b <= V; b++) if (b != a) for (int t = -1; t <= 1; t += 2) { int y = b * t; p.push_back({y, x, y}); p.push_back({x, y, -x}); if (b < a) p.push_back({x, y}); }
  }
  return p;
}
// Depth-first enumeration of choice sequences: run, then advance the last choice that has an alternative.
struct Sched {
  vector<int> ch, br; size_t pos = 0;
  int choose(int k) { if (pos == ch.size()) { ch.push_back(0); br.push_back(k); } else if (br[pos] != k) throw Bad("replay divergence: the same choices led to a different number of alternatives"); return ch[pos++]; }
  bool next() { while (!ch.empty()) { if (++ch.back() < br.back()) { pos = 0; return true; } ch.pop_back(); br.pop_back(); } return false; }
  string str() const { string s; for (int c : ch) s += std::to_string(c) + "."; return s; }
};
// Boring reference decision procedure for formulas too large for the assignment bitset.
struct Dpll {
  const vector<vector<int>>& F; vector<signed char> a; uint64_t nodes = 0;
  Dpll(const vector<vector<int>>& f, unsigned n) : F(f), a(n + 1, 0) {}
  int v(int l) const { int x = a[std::abs(l)]; return l > 0 ? x : -x; }
  bool solve() {
    nodes++;
    vector<int> undo; bool ch = true; 
    auto back = [&]() { for (int x : undo) a[x] = 0; };
    const vector<int>* pick = nullptr;
    while (ch) {
      ch = false; pick = nullptr;
      for (auto& c : F) {
        int un = 0, ul = 0; bool sat = false;
        for (int l : c) { int x = v(l); if (x > 0) { sat = true; break; } if (!x && l != ul) { un++; ul = l; } }
        if (sat) continue;
        if (!un) { back(); return false; }
        if (un == 1) { a[std::abs(ul)] = ul > 0 ? 1 : -1; undo.push_back(std::abs(ul)); ch = true; }
        else if (!pick || c.size() < pick->size()) pick = &c;
      }
    }
    if (!pick) return true;
    int b = 0; for (int l : *pick) if (!v(l)) { b = l; break; }
    for (int s = 0; s < 2; s++) {
      a[std::abs(b)] = (b > 0) != (s == 1) ? 1 : -1;
      if (solve()) return true;
      a[std::abs(b)] = 0;
    }
    back(); return false;
  }
};
// Structured formula families; `d` is decoded by make_family.
inline vector<vector<int>> php(int p, int h) {
  vector<vector<int>> F; auto x = [&](int i, int j) { return i * h + j + 1; };
  for (int i = 0; i < p; i++) { vector<int> c; for (int j = 0; j < h; j++) c.push_back(x(i, j)); F.push_back(c); }
  for (int j = 0; j < h; j++) for (int i = 0; i < p; i++) for (int k = i + 1; k < p; k++) F.push_back({-x(i, j), -x(k, j)});
  return F;
}
inline void xor_clauses(vector<vector<int>>& F, const vector<int>& vs, bool rhs) {
  int k = vs.size();
  for (int m = 0; m < (1 << k); m++) if ((__builtin_popcount(m) & 1) == (rhs ? 0 : 1)) { vector<int> c; for (int i = 0; i < k; i++) c.push_back(m >> i & 1 ? -vs[i] : vs[i]); F.push_back(c); }
}
// Tseitin parity constraints on a graph; edges are variables
inline vector<vector<int>> tseitin(int nodes, const vector<std::pair<int, int>>& E, int charge) {
  vector<vector<int>> F;
  for (int v = 0; v < nodes; v++) { vector<int> vs; for (size_t i = 0; i < E.size(); i++) if (E[i].first == v || E[i].second == v) vs.push_back(i + 1); xor_clauses(F, vs, charge >> v & 1); }
  return F;
}
inline vector<vector<int>> coloring(int nodes, const vector<std::pair<int, int>>& E, int k) {
  vector<vector<int>> F; auto x = [&](int i, int j) { return i * k + j + 1; };
  for (int i = 0; i < nodes; i++) { vector<int> c; for (int j = 0; j < k; j++) c.push_back(x(i, j)); F.push_back(c); for (int j = 0; j < k; j++) for (int l = j + 1; l < k; l++) F.push_back({-x(i, j), -x(i, l)}); }
  for (auto& e : E) for (int j = 0; j < k; j++) F.push_back({-x(e.first, j), -x(e.second, j)});
  return F;
}
// R(3,3): no monochromatic triangle in K_n
inline vector<vector<int>> ramsey(int n) {
  vector<vector<int>> F; vector<vector<int>> id(n, vector<int>(n)); int c = 0;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) id[i][j] = ++c;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int k = j + 1; k < n; k++) for (int s = -1; s <= 1; s += 2) F.push_back({s * id[i][j], s * id[i][k], s * id[j][k]});
  return F;
}
// van der Waerden W(3,3)>n : 2-colouring of 1..n without monochromatic 3-term progression
inline vector<vector<int>> vdw(int n) {
  vector<vector<int>> F;
  for (int a = 1; a <= n; a++) for (int d = 1; a + 2 * d <= n; d++) for (int s = -1; s <= 1; s += 2) F.push_back({s * a, s * (a + d), s * (a + 2 * d)});
  return F;
}
// all 2^k sign patterns over k variables, k-literal clauses, optionally with clause `skip` left out
inline vector<vector<int>> complete(int k) {
  vector<vector<int>> F;
  for (int m = 0; m < (1 << k); m++) { vector<int> c; for (int i = 0; i < k; i++) c.push_back(m >> i & 1 ? -(i + 1) : i + 1); F.push_back(c); }
  return F;
}
inline vector<std::pair<int, int>> kn(int n) { vector<std::pair<int, int>> E; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) E.push_back({i, j}); return E; }
inline vector<std::pair<int, int>> cyc(int n) { vector<std::pair<int, int>> E; for (int i = 0; i < n; i++) E.push_back({i, (i + 1) % n}); return E; }
inline vector<std::pair<int, int>> grid(int a, int b) { vector<std::pair<int, int>> E; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { if (i + 1 < a) E.push_back({i * b + j, (i + 1) * b + j}); if (j + 1 < b) E.push_back({i * b + j, i * b + j + 1}); } return E; }
// exactly reproducible pseudo-random k-CNF (fixed, part of the enumerated family; not a sample of runs)
inline vector<vector<int>> lcg_cnf(int n, int m, int k, unsigned seed) {
  uint64_t x = seed * 2654435761u + 88172645463325252ull; auto r = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (unsigned)(x >> 20); };
  vector<vector<int>> F;
  for (int i = 0; i < m; i++) { std::set<int> vs; while ((int)vs.size() < k) vs.insert(1 + r() % n); vector<int> c; for (int v : vs) c.push_back(r() & 1 ? v : -v); F.push_back(c); }
  return F;
}
inline vector<vector<int>> family(const string& name) {
  auto p = split(name, '_'); auto a = [&](int i) { return std::stoi(p[i]); };
  if (p[0] == "php") return php(a(1), a(2));
  if (p[0] == "tskn") return tseitin(a(1), kn(a(1)), a(2));
  if (p[0] == "tscy") return tseitin(a(1), cyc(a(1)), a(2));
  if (p[0] == "tsgr") return tseitin(a(1) * a(2), grid(a(1), a(2)), a(3));
  if (p[0] == "colkn") return coloring(a(1), kn(a(1)), a(2));
  if (p[0] == "colcy") return coloring(a(1), cyc(a(1)), a(2));
  if (p[0] == "ramsey") return ramsey(a(1));
  if (p[0] == "vdw") return vdw(a(1));
  if (p[0] == "full") return complete(a(1));
  if (p[0] == "rnd") return lcg_cnf(a(1), a(2), a(3), a(4));
  throw Bad("unknown family " + name);
}
inline unsigned max_var(const vector<vector<int>>& F) { unsigned m = 0; for (auto& c : F) for (int l : c) m = std::max<unsigned>(m, std::abs(l)); return m; }
inline vector<string> cfgs(const string& s) { return split(s, '|'); }
}
