// helpers of the demonstrations: formulas, reference verdicts and a checked run
#pragma once
#include "SAT-API.hpp"
#include "SAT-options.hpp"
#include "SAT-types.hpp"
#include "Sentinel-API.hpp"
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <vector>
#include <sstream>
using namespace napsat;
typedef std::vector<int> Cl; typedef std::vector<Cl> Cnf;
inline Tlit L(int x) { return Tlit(Tvar(x < 0 ? -x : x), x > 0); }
inline std::vector<std::string> words(const std::string& s) { std::istringstream i(s); std::vector<std::string> r; std::string w; while (i >> w) r.push_back(w); return r; }
struct Solver {
  std::unique_ptr<options> o; NapSAT* s = nullptr;
  Solver(const std::string& opt, unsigned n) { env::set_suppress_warning(true); env::set_suppress_info(true); auto w = words(opt); o = std::make_unique<options>(w); s = create_solver(n, 0, *o); }
  ~Solver() { if (s) delete_solver(s); }
  void add(const Cl& c) { std::vector<Tlit> l; for (int x : c) l.push_back(L(x)); add_clause(s, l.data(), l.size()); }
  void add(const Cnf& f) { for (auto& c : f) add(c); }
  bool is_true(int x) { Tval v = get_variable_value(s, Tvar(x < 0 ? -x : x)); return v == (x > 0 ? Tval::TRUE : Tval::FALSE); }
};
inline bool holds(const Cnf& f, unsigned long m) { for (auto& c : f) { bool ok = false; for (int x : c) ok |= (((m >> (abs(x) - 1)) & 1) != 0) == (x > 0); if (!ok) return false; } return true; }
// small DPLL used as the reference for formulas too big to enumerate
struct Ref {
  std::vector<signed char> a;
  bool solve(const Cnf& f, int n, const std::vector<int>& units = {}) { a.assign(n + 1, 0); Cnf g = f; for (int u : units) g.push_back({u}); return rec(g, n); }
  bool rec(const Cnf& f, int n) {
    std::vector<int> set;
    for (bool ch = true; ch;) { ch = false; for (auto& c : f) { int u = 0, nu = 0; bool sat = false; for (int x : c) { int v = a[abs(x)] * (x > 0 ? 1 : -1); if (v > 0) { sat = true; break; } if (!v && x != u) { u = x; nu++; } } if (sat) continue; if (!nu) { for (int v : set) a[v] = 0; return false; } if (nu == 1) { a[abs(u)] = u > 0 ? 1 : -1; set.push_back(abs(u)); ch = true; } } }
    int d = 0; for (auto& c : f) { bool sat = false; int u = 0; for (int x : c) { int v = a[abs(x)] * (x > 0 ? 1 : -1); if (v > 0) sat = true; if (!v) u = x; } if (!sat) { d = u; break; } }
    if (!d) return true;
    for (int s : {1, -1}) { a[abs(d)] = (d > 0 ? 1 : -1) * s; if (rec(f, n)) return true; a[abs(d)] = 0; }
    for (int v : set) a[v] = 0; return false;
  }
};
inline Cnf rnd(int n, int m, int k, unsigned seed) { std::mt19937 g(seed); Cnf f; for (int i = 0; i < m; i++) { Cl c; while ((int) c.size() < k) { int v = g() % n + 1; bool dup = false; for (int x : c) dup |= abs(x) == v; if (!dup) c.push_back(g() % 2 ? v : -v); } f.push_back(c); } return f; }
inline Cnf php(int p, int h) { Cnf f; auto v = [&](int i, int j) { return i * h + j + 1; }; for (int i = 0; i < p; i++) { Cl c; for (int j = 0; j < h; j++) c.push_back(v(i, j)); f.push_back(c); } for (int j = 0; j < h; j++) for (int i = 0; i < p; i++) for (int k = 0; k < i; k++) f.push_back({-v(i, j), -v(k, j)}); return f; }
inline int nvars(const Cnf& f) { int n = 0; for (auto& c : f) for (int x : c) n = std::max(n, abs(x)); return n; }
inline bool model_ok(Solver& S, const Cnf& f) { for (auto& c : f) { bool ok = false; for (int x : c) ok |= S.is_true(x); if (!ok) return false; } return true; }
#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); printf("\n"); return 1; } while (0)
