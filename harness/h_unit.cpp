// The data structures the solver is built on, explored exhaustively on the real code.
//   pairs CAP POS        every pair of subsets of the positions, every operation and every second operation on the result
//   bits CAP POS DEPTH   every sequence of operations on two bitsets
//   heap N V DEPTH       every operation sequence on keys 0..N-1 with V activity levels
//   heapinit N V DEPTH   every insertion of N keys with V activity levels, then every sequence, then drained
//   avl K DATA           breadth-first search over the reachable trees with K keys (DATA payloads per key)
//   avlseq K DATA DEPTH  every operation sequence
//   luby N R             N increments, and a reset after every r <= R
//   deps I L DEPTH       every sequence of dependency recording operations
//   proof I L1 L2        every set of at most I input clauses over two variables, a first chain of at most L1 links with any claim, a second chain of at most L2 links claiming the empty clause
//   proof1 I L           every set of at most I input clauses, every chain of at most L links, every claim
#include "solver.hpp"
#include "src/utils/heap.hpp"
#include "src/utils/luby-counter.hpp"
#include "src/utils/partition.hpp"
#include "src/proof/dependency_tracker.hpp"
#include "src/proof/proof.hpp"
#include "src/utils/bitset.hpp"
using namespace vf;
typedef std::set<unsigned> S;
static vector<string> split_(const string& s, char d) { return split(s, d); }
static vector<unsigned> nums(const string& s) { vector<unsigned> r; for (auto& t : split_(s, ',')) if (!t.empty()) r.push_back(std::stoul(t)); return r; }
static string str(const S& s) { string r = "{"; for (unsigned x : s) r += std::to_string(x) + " "; return r + "}"; }

// ---------------------------------------------------------------- bitsets
static void same(const bitset& b, const S& m, const vector<unsigned>& probes, const string& w) {
  REQ(b.count() == m.size(), w + ": count is " + std::to_string(b.count()) + " for " + str(m));
  REQ(b.empty() == m.empty(), w + ": emptiness is wrong for " + str(m));
  auto it = b.cbegin(); unsigned n = 0;
  for (unsigned x : m) { REQ(it != b.cend(), w + ": iteration ends early, in " + str(m)); REQ(*it == x, w + ": iteration gives " + std::to_string(*it) + " instead of " + std::to_string(x)); if (n++ & 1) ++it; else { auto old = it++; REQ(*old == x, w + ": post-increment"); } }
  REQ(it == b.cend() && !(it != b.cend()), w + ": iteration visits more than the members of " + str(m));
  for (unsigned p : probes) if (p < b.capacity()) REQ(b.get(p) == (m.count(p) > 0) && b[p] == b.get(p), w + ": membership of " + std::to_string(p) + " in " + str(m));
  string t = "["; bool f = true; for (unsigned x : m) { if (!f) t += ", "; t += std::to_string(x); f = false; }
  REQ(b.to_string() == t + "]", w + ": text " + b.to_string() + " for " + str(m));
  Hash h; h.add(b.capacity()); for (unsigned x : m) h.add(x); new_state(h.h);
}
static void cmp(const bitset& a, const S& x, const bitset& b, const S& y, const string& w) {
  if (a.capacity() != b.capacity()) return;
  bool le = std::includes(y.begin(), y.end(), x.begin(), x.end()), ge = std::includes(x.begin(), x.end(), y.begin(), y.end()), in = false;
  for (unsigned e : x) if (y.count(e)) in = true;
  string d = w + " on " + str(x) + " and " + str(y) + ": ";
  REQ((a == b) == (x == y), d + "=="); REQ((a != b) == (x != y), d + "!="); REQ((a <= b) == le, d + "<="); REQ((a >= b) == ge, d + ">=");
  REQ((a < b) == (le && x != y), d + "<"); REQ((a > b) == (ge && x != y), d + ">"); REQ(a.has_intersection(b) == in, d + "has_intersection"); REQ(a.has_difference(b) == !le, d + "has_difference");
}
static S op(int o, const S& x, const S& y) {
  S r;
  if (o == 0) std::set_intersection(x.begin(), x.end(), y.begin(), y.end(), std::inserter(r, r.end()));
  else if (o == 1) std::set_union(x.begin(), x.end(), y.begin(), y.end(), std::inserter(r, r.end()));
  else if (o == 2) std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::inserter(r, r.end()));
  else std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::inserter(r, r.end()));
  return r;
}
static bitset bop(int o, const bitset& a, const bitset& b) { return o == 0 ? a & b : o == 1 ? a | b : o == 2 ? a ^ b : a - b; }
static void bupd(int o, bitset& a, const bitset& b) { if (o == 0) a &= b; else if (o == 1) a |= b; else if (o == 2) a ^= b; else a -= b; }
static const char* ON[] = {"&", "|", "^", "-"};
static vector<unsigned> probes_of(const vector<unsigned>& pos) { S r; for (unsigned p : pos) { r.insert(p); r.insert(p + 1); if (p) r.insert(p - 1); r.insert(p ^ 64); } r.insert(0); return vector<unsigned>(r.begin(), r.end()); }
static void run_pair(unsigned cap, const vector<unsigned>& pos, unsigned ma, unsigned mb) {
  auto pr = probes_of(pos);
  auto mk = [&](unsigned m, S& s, bool rev) { bitset b(cap); for (size_t i = 0; i < pos.size(); i++) { size_t j = rev ? pos.size() - 1 - i : i; if (m >> j & 1) { b.set(pos[j], true); s.insert(pos[j]); } } return b; };
  S x, y; bitset a = mk(ma, x, false), b = mk(mb, y, true);
  same(a, x, pr, "set"); same(b, y, pr, "set"); cmp(a, x, b, y, "compare"); cnt().evals++;
  for (int o = 0; o < 4; o++) {
    bitset c = bop(o, a, b), d = a; S z = op(o, x, y); bupd(o, d, b); cnt().transitions += 2;
    same(c, z, pr, string("operator") + ON[o]); same(d, z, pr, string("operator") + ON[o] + "="); cmp(c, z, d, z, "results");
    cmp(c, z, a, x, "result and operand"); cmp(b, y, c, z, "operand and result");
    for (int q = 0; q < 4; q++) { bitset e = bop(q, c, a), f = d; bupd(q, f, b); cnt().transitions += 2; same(e, op(q, z, x), pr, string(ON[o]) + " then " + ON[q]); same(f, op(q, z, y), pr, string(ON[o]) + "= then " + ON[q] + "="); }
    bitset g = c; S zg = z; for (unsigned p : pos) { g.set(p, !g.get(p)); if (!zg.insert(p).second) zg.erase(p); } same(g, zg, pr, "toggled result");
    bitset k = d; k.clear(); same(k, S(), pr, "cleared"); cmp(k, S(), c, z, "cleared and result");
    bitset u = c; u.resize(cap + 1); u.resize(2 * cap + 4032); same(u, z, pr, "resized"); bitset v = a; v.resize(2 * cap + 4032); same(v, x, pr, "resized"); cmp(u, z, v, x, "resized"); bupd(1, u, v); same(u, op(1, z, x), pr, "union after resize"); u.set(2 * cap + 1, true); S uz = op(1, z, x); uz.insert(2 * cap + 1); same(u, uz, pr, "set after resize"); cmp(u, uz, v, x, "after resize");
  }
  bitset s = a; bupd(0, s, a); same(s, x, pr, "self &="); bupd(2, s, s); same(s, S(), pr, "self ^=");
  if (ma && mb) cnt().nontrivial++;
}
static void run_bits(unsigned cap, const vector<unsigned>& pos, const string& ops) {
  auto pr = probes_of(pos); bitset B[2] = {bitset(cap), bitset(cap)}; S M[2]; cnt().evals++; size_t big = 0;
  for (auto& t : split_(ops, ' ')) {
    if (t.empty()) continue; cnt().transitions++;
    int k = t[0] - 'a';
    if (k < 0 || k > 1) throw Bad("bad token");
    char c = t[1];
    if (c == '+' || c == '*') { unsigned p = pos[std::stoi(t.substr(2))]; if (p >= B[k].capacity()) continue; B[k].set(p, c == '+'); if (c == '+') M[k].insert(p); else M[k].erase(p); }
    else if (c == '0') { B[k].clear(); M[k].clear(); }
    else if (c == 'r') { B[0].resize(2 * cap + 4032); B[1].resize(2 * cap + 4032); }
    else if (c == '=') { B[k] = B[1 - k]; M[k] = M[1 - k]; }
    else if (c == 'm') { bitset x = std::move(B[k]); B[k] = x; }
    else { int o = c == '&' ? 0 : c == '|' ? 1 : c == '^' ? 2 : 3; bupd(o, B[k], B[1 - k]); M[k] = op(o, M[k], M[1 - k]); }
    same(B[0], M[0], pr, t); same(B[1], M[1], pr, t); cmp(B[0], M[0], B[1], M[1], t); cmp(B[1], M[1], B[0], M[0], t); big = std::max(big, M[0].size());
  }
  if (big > 1) cnt().nontrivial++;
}
// ---------------------------------------------------------------- heap
static string run_heap(int N, const string& ops, bool pretend = false) {
  napsat::utils::heap h; std::map<unsigned, double> m; std::map<unsigned, double> all; (void)pretend; if (!pretend) cnt().evals++; size_t big = 0;
  auto chk = [&](const string& w) {
    REQ(h.size() == m.size() && h.empty() == m.empty(), w + ": size is " + std::to_string(h.size()) + " instead of " + std::to_string(m.size()));
    for (int i = 0; i < N + 2; i++) REQ(h.contains(Tvar(i)) == (m.count(i) > 0), w + ": membership of " + std::to_string(i));
    if (!m.empty()) { unsigned t = h.top().value; REQ(m.count(t), w + ": the top is not in the heap"); for (auto& [k, a] : m) REQ(a <= m[t], w + ": the top " + std::to_string(t) + " is not maximal, " + std::to_string(k) + " is larger"); }
    big = std::max(big, m.size());
  };
  for (auto& t : split_(ops, ' ')) {
    if (t.empty()) continue; cnt().transitions++;
    char c = t[0]; auto a = split_(t.substr(1), ':'); unsigned k = a[0].empty() ? 0 : std::stoul(a[0]); double v = a.size() > 1 ? std::stod(a[1]) : 0;
    if (c == 'i') { if (m.count(k)) return ""; h.insert(Tvar(k), v); m[k] = v; }
    else if (c == 'r') { if (!m.count(k)) return ""; h.remove(Tvar(k)); m.erase(k); }
    else if (c == 'u') { if (!m.count(k)) return ""; h.update(Tvar(k), v); m[k] = v; }
    else if (c == '+') { if (!m.count(k) || m[k] > v) return ""; h.increase_activity(Tvar(k), v); m[k] = v; }
    else if (c == 'p') { if (m.empty()) return ""; unsigned x = h.pop().value; REQ(m.count(x), "pop returned a key that is not in the heap"); for (auto& [q, y] : m) REQ(y <= m[x], "pop returned " + std::to_string(x) + " although " + std::to_string(q) + " is larger"); m.erase(x); }
    else if (c == 'n') { h.normalize(0.5); for (auto& [q, y] : m) y *= 0.5; }
    chk(t); Hash s; for (auto& [q, y] : m) { s.add(q); s.add((uint64_t)(y * 64)); } new_state(s.h);
  }
  while (!m.empty()) { unsigned x = h.pop().value; REQ(m.count(x), "draining: key not in the heap"); for (auto& [q, y] : m) REQ(y <= m[x], "draining: " + std::to_string(x) + " popped although " + std::to_string(q) + " is larger"); m.erase(x); chk("draining"); }
  if (big > 1) cnt().nontrivial++;
  return "";
}
// ---------------------------------------------------------------- AVL tree
typedef std::map<std::pair<unsigned, size_t>, int> AM;
static void avl_step(::utils::AVLTree& t, AM& m, int k, int D, bool ins, const string& w) {
  unsigned key = 10 * (k / D + 1); size_t d = 1000 + k % D; bool was = m.count({key, d});
  bool r = ins ? t.insert(key, (void*)d) : t.remove(key, (void*)d); cnt().transitions++;
  REQ(r == (ins ? !was : was), w + ": returned " + (r ? "true" : "false"));
  if (ins) m[{key, d}] = 1; else m.erase({key, d});
}
static void avl_check(::utils::AVLTree& t, const AM& m, int K, const string& w) {
  REQ(t.is_bst(), w + ": not a search tree"); REQ(t.is_balanced(), w + ": not balanced");
  for (unsigned q = 0; q <= 10u * K + 10; q += 5) {
    void* r = t.find_best_fit(q); auto it = m.lower_bound({q, 0});
    if (it == m.end()) REQ(!r, w + ": a fit for " + std::to_string(q) + " although there is none");
    else REQ(m.count({it->first.first, (size_t)r}), w + ": wrong fit for " + std::to_string(q));
  }
}
static string run_avl(int K, int D, const string& ops) {
  ::utils::AVLTree t; AM m; cnt().evals++;
  for (auto& o : split_(ops, ' ')) { if (o.empty()) continue; avl_step(t, m, std::stoi(o.substr(1)), D, o[0] == 'i', o); avl_check(t, m, K, o); Hash h; h.add(capture([&] { t.print(); })); new_state(h.h); }
  if (m.size() > 1) cnt().nontrivial++;
  return "";
}
static string run_avlbfs(int K, int D, int from, int n) {
  // all reachable trees; a tree is identified by its printed shape and keys. This case expands the states of its share.
  std::set<string> seen; vector<vector<int>> q = {{}}; seen.insert("");
  for (size_t i = 0; i < q.size(); i++) {
    for (int o = 0; o < 2 * K * D; o++) {
      ::utils::AVLTree t; AM m; auto p = q[i]; p.push_back(o);
      // only the last step is checked, the earlier ones were checked when their states were found
      string w; auto name = [&] { if (w.empty()) for (int x : p) w += (x % 2 ? "r" : "i") + std::to_string(x / 2) + " "; return w; };
      for (size_t j = 0; j + 1 < p.size(); j++) { unsigned key = 10 * (p[j] / 2 / D + 1); size_t d = 1000 + p[j] / 2 % D; if (p[j] % 2) { t.remove(key, (void*)d); m.erase({key, d}); } else { t.insert(key, (void*)d); m[{key, d}] = 1; } }
      avl_step(t, m, o / 2, D, o % 2 == 0, name()); cnt().evals++;
      avl_check(t, m, K, name());
      string s = capture([&] { t.print(); }); if (D > 1) for (auto& [kk, z] : m) s += std::to_string(kk.second) + " ";
      if (seen.insert(s).second) { cnt().states++; if (m.size() > 2) cnt().nontrivial++; q.push_back(p); }
    }
  }
  (void)from; (void)n; return "";
}
// ---------------------------------------------------------------- Luby
// gap number i of the sequence 1 1 2, 1 1 2 4, 1 1 2 4 8, ... (round k is 1, 1, 2, .., 2^k)
static uint64_t luby(uint64_t i) { static vector<uint64_t> g; for (static uint64_t k = 1; g.size() < i; k++) { g.push_back(1); for (uint64_t j = 0; j <= k; j++) g.push_back(1ull << j); } return g[i - 1]; }
static string run_luby(uint64_t N, uint64_t R) {
  luby_counter c; cnt().evals++;
  for (uint64_t i = 0; i < R; i++) c.increment();
  if (R) c.reset();
  uint64_t idx = 1, left = luby(1);
  for (uint64_t i = 0; i < N; i++) {
    bool r = c.increment(); cnt().transitions++; left--;
    REQ(r == (left == 0), "increment " + std::to_string(i + 1) + (r ? " triggers" : " does not trigger") + ", gap number " + std::to_string(idx) + " has length " + std::to_string(luby(idx)));
    if (!left) { idx++; left = luby(idx); if (!R) { Hash h; h.add(idx); new_state(h.h); } }
  }
  if (N > 2) cnt().nontrivial++;
  return "";
}
// ---------------------------------------------------------------- dependencies
static string run_deps(int I, const string& ops) {
  proof::dependency_tracker t; std::map<unsigned, std::set<unsigned>> m; cnt().evals++; bool track = false; std::set<unsigned> cur; int learned = 0;
  auto in = [&](unsigned x) { return m.count(x) > 0; };
  for (auto& o : split_(ops, ' ')) {
    if (o.empty()) continue; cnt().transitions++;
    char c = o[0]; auto a = split_(o.substr(1), ':'); unsigned x = a[0].empty() ? 0 : std::stoul(a[0]), y = a.size() > 1 ? std::stoul(a[1]) : 0;
    if (c == 'i') { if (in(x)) return ""; t.add_input(Tclause(x)); m[x] = {x}; }
    else if (c == 's') { if (track) return ""; t.start_tracking(); track = true; }
    else if (c == 't') { if (!track || !in(x)) return ""; t.track_dependency(Tclause(x)); cur.insert(m[x].begin(), m[x].end()); }
    else if (c == 'c') { if (!track) return ""; t.cancel_tracking(); track = false; cur.clear(); }
    else if (c == 'f') { if (!track || in(x)) return ""; t.add_learned(Tclause(x)); t.finalize_tracking(Tclause(x)); m[x] = cur; cur.clear(); track = false; learned++; }
    else if (c == 'l') { if (!in(x) || !in(y) || (int)x < I) return ""; t.link_dependencies(Tclause(x), Tclause(y)); auto d = m[y]; m[x].insert(d.begin(), d.end()); }
    else if (c == 'd') { if (!in(x) || (int)x < I) return ""; t.delete_clause(Tclause(x)); m.erase(x); }
    for (auto& [k, d] : m) { std::set<unsigned> g; for (auto e : t.get_dependencies(Tclause(k))) g.insert(e.value); REQ(g == d, o + ": the dependencies of clause " + std::to_string(k) + " differ"); }
    Hash h; for (auto& [k, d] : m) { h.add(k); for (unsigned e : d) h.add(100 + e); } h.add(track); for (unsigned e : cur) h.add(200 + e); new_state(h.h);
  }
  if (learned) cnt().nontrivial++;
  return "";
}
// ---------------------------------------------------------------- proofs
typedef std::set<int> C;
static const vector<vector<int>>& cl2() { static vector<vector<int>> r = {{}, {1}, {-1}, {2}, {-2}, {1, 2}, {1, -2}, {-1, 2}, {-1, -2}}; return r; }
struct Link { int pivot, cl; };   // pivot 0: none
struct PRef {                     // independent checker
  struct E { C lits; vector<Link> chain; }; vector<E> e; int empty = -1;
  bool ok(int i, std::set<int>& seen) {
    if (!seen.insert(i).second) return true; auto& x = e[i]; if (x.chain.empty()) return true;
    C r; for (size_t k = 0; k < x.chain.size(); k++) { auto& l = x.chain[k]; const C& d = e[l.cl].lits; if (k == 0) { if (l.pivot) return false; r = d; continue; } if (!l.pivot || !r.count(l.pivot) || !d.count(-l.pivot)) return false; r.erase(l.pivot); for (int y : d) if (y != -l.pivot) r.insert(y); }
    if (r != x.lits) return false;
    for (auto& l : x.chain) if (!ok(l.cl, seen)) return false;
    return true;
  }
  bool accept() { if (empty < 0) return false; std::set<int> s; return ok(empty, s); }
};
static const int PIV[5] = {1, -1, 2, -2, 0};
struct Step { vector<Link> chain; int claim; int reuse; };   // claim: index into cl2; reuse: id of the clause that is replaced, or -1
static string run_proof(const vector<int>& in, const vector<Step>& st) {
  cnt().evals++; proof::resolution_proof p; PRef r; vector<vector<int>> F; vector<int> slot;   // slot: proof id -> index of the entry
  auto lits = [&](int c) { vector<Tlit> v; for (int l : cl2()[c]) v.push_back(L(l)); return v; };
  for (size_t i = 0; i < in.size(); i++) { auto v = lits(in[i]); p.input_clause(Tclause(i), v.data(), v.size()); r.e.push_back({C(cl2()[in[i]].begin(), cl2()[in[i]].end()), {}}); if (v.empty()) r.empty = i; F.push_back(cl2()[in[i]]); slot.push_back(i); cnt().transitions++; }
  bool len1 = false;
  for (auto& s : st) {
    p.start_resolution_chain(); PRef::E e; e.lits = C(cl2()[s.claim].begin(), cl2()[s.claim].end());
    for (auto& l : s.chain) { p.link_resolution(l.pivot ? L(l.pivot) : LIT_UNDEF, Tclause(l.cl)); e.chain.push_back({l.pivot, slot[l.cl]}); cnt().transitions++; }
    if (s.chain.size() < 2) len1 = true;
    int id = s.reuse >= 0 ? s.reuse : (int)slot.size();
    if (s.reuse >= 0) p.deactivate_clause(Tclause(s.reuse)); else slot.push_back(0);
    auto v = lits(s.claim); p.finalize_resolution(Tclause(id), v.data(), v.size()); slot[id] = r.e.size(); r.e.push_back(e); if (v.empty()) r.empty = r.e.size() - 1;
  }
  bool got, want = r.accept(); std::ostringstream sink; auto* old = std::cerr.rdbuf(sink.rdbuf()); string out = capture([&] { got = p.check_proof(); }); bool again; capture([&] { again = p.check_proof(); }); std::cerr.rdbuf(old);
  REQ(got == want, string("the checker ") + (got ? "accepts a wrong proof" : "rejects a correct proof"));
  REQ(again == want, string("checked a second time, the checker ") + (again ? "accepts a wrong proof" : "rejects a correct proof"));
  cnt().outcome[want]++;
  if (want) { cnt().nontrivial++; Models m(2); for (auto& c : F) m.and_clause(c); REQ(m.empty(), "accepted although the input is satisfiable"); if (!len1) { string t = capture([&] { p.print_proof(); }); uint64_t n; string e = verify_proof(t, F, &n); REQ(e.empty(), "printed proof: " + e); } }
  Hash h; for (auto& e : r.e) { for (int l : e.lits) h.add(l + 10); h.add(e.chain.size()); } h.add(want); new_state(h.h);
  return "";
}
static vector<vector<Link>> chains(int ncl, int L, bool full) {   // full: also unusable pivots
  vector<vector<Link>> r; vector<Link> c;
  std::function<void()> rec = [&] { if (!c.empty()) r.push_back(c); if ((int)c.size() == L) return; for (int k = 0; k < ncl; k++) { if (c.empty()) { c.push_back({0, k}); rec(); c.pop_back(); } else for (int p = 0; p < (full ? 5 : 4); p++) { c.push_back({PIV[p], k}); rec(); c.pop_back(); } } };
  rec(); return r;
}
static string chain_str(const vector<Link>& c) { string r; for (auto& l : c) r += std::to_string(l.pivot) + ":" + std::to_string(l.cl) + ","; return r; }
static vector<Link> chain_of(const string& s) { vector<Link> r; for (auto& t : split_(s, ',')) if (!t.empty()) { auto a = split_(t, ':'); r.push_back({std::stoi(a[0]), std::stoi(a[1])}); } return r; }

static string run(const string& key) {
  auto p = split_(key, ';');
  try {
    const string& m = p[0];
    if (m == "pairs") run_pair(std::stoi(p[1]), nums(p[2]), std::stoi(p[3]), std::stoi(p[4]));
    else if (m == "bits") run_bits(std::stoi(p[1]), nums(p[2]), p[3]);
    else if (m == "heap") return run_heap(std::stoi(p[1]), p[2]);
    else if (m == "avl") return run_avl(std::stoi(p[1]), std::stoi(p[2]), p[3]);
    else if (m == "avlbfs") return run_avlbfs(std::stoi(p[1]), std::stoi(p[2]), 0, 0);
    else if (m == "luby") return run_luby(std::stoull(p[1]), std::stoull(p[2]));
    else if (m == "deps") return run_deps(std::stoi(p[1]), p[2]);
    else if (m == "proof") {       // proof;inputs;chain1;claim1;reuse1;L2   every second chain is tried inside
      vector<int> in; for (unsigned x : nums(p[1])) in.push_back(x);
      vector<Step> st; if (!p[2].empty()) st.push_back({chain_of(p[2]), std::stoi(p[3]), std::stoi(p[4])});
      if (p[5].size() && p[5][0] == '=') { st.push_back({chain_of(p[5].substr(1)), 0, -1}); return run_proof(in, st); }
      int n = in.size() + (!st.empty() && st[0].reuse < 0);
      for (auto& c : chains(n, std::stoi(p[5]), true)) { auto s = st; s.push_back({c, 0, -1}); try { run_proof(in, s); } catch (Bad& e) { throw Bad(string(e.what()) + " (second chain " + chain_str(c) + ")"); } }
    }
    else if (m == "proof1") { vector<int> in; for (unsigned x : nums(p[1])) in.push_back(x); int L = std::stoi(p[2]); run_proof(in, {}); for (auto& c : chains(in.size(), L, true)) for (int claim = 0; claim < 9; claim++) try { run_proof(in, {{c, claim, -1}}); } catch (Bad& e) { throw Bad(string(e.what()) + " (chain " + chain_str(c) + " claim " + std::to_string(claim) + ")"); } }
    else throw Bad("unknown mode");
  } catch (Bad& e) { return e.what(); }
  return "";
}

typedef std::function<bool()> Want;
static void seqs(const vector<string>& alpha, int depth, const string& prefix, const Want& want, const EmitFn& emit) {
  std::function<void(int, string)> rec = [&](int left, string s) { if (!left) { if (want()) emit(prefix + s); return; } for (auto& a : alpha) rec(left - 1, s + a + " "); };
  rec(depth, "");
}
int main(int argc, char** argv) {
  Main M(argc, argv); string mode = M.arg(0);
  auto A = [&](int i) { return M.arg(i); }; auto N = [&](int i) { return M.num(i, 1); };
  if (mode == "pairs") { string c = A(1), p = A(2); unsigned n = nums(p).size(); M.e.gen = [=](auto& want, auto& emit) { for (unsigned a = 0; a < 1u << n; a++) for (unsigned b = 0; b < 1u << n; b++) if (want()) emit("pairs;" + c + ";" + p + ";" + std::to_string(a) + ";" + std::to_string(b)); }; }
  else if (mode == "bits") { string c = A(1), p = A(2); int d = N(3); vector<string> al; for (char k : {'a', 'b'}) { for (size_t i = 0; i < nums(p).size(); i++) { al.push_back(string() + k + "+" + std::to_string(i)); al.push_back(string() + k + "*" + std::to_string(i)); } for (char o : {'&', '|', '^', '-'}) al.push_back(string() + k + o); }
    for (auto x : {"a0", "ar", "a=", "am"}) al.push_back(x);
    M.e.gen = [=](auto& want, auto& emit) { seqs(al, d, "bits;" + c + ";" + p + ";", want, emit); }; }
  else if (mode == "heap" || mode == "heapinit") { int n = N(1), v = N(2), d = N(3); vector<string> al; for (int k = 0; k < n; k++) { for (int x = 0; x < v; x++) for (char o : {'i', 'u', '+'}) al.push_back(string() + o + std::to_string(k) + ":" + std::to_string(x)); al.push_back("r" + std::to_string(k)); } al.push_back("p"); al.push_back("n");
    M.e.gen = [=](auto& want, auto& emit) {
      if (mode == "heap") { // operations that do not apply end a sequence: prune them here
        std::function<void(int, string, unsigned)> rec = [&](int left, string s, unsigned in) { if (!left) { if (want()) emit("heap;" + std::to_string(n) + ";" + s); return; } for (auto& a : al) { unsigned k = isdigit(a[1]) ? a[1] - '0' : 0; unsigned nx = in, popped = in & 1u << 31; if (a[0] == 'i') { if (!popped && in >> k & 1) continue; nx |= 1u << k; } else if (a[0] == 'r') { if (!(in >> k & 1)) continue; nx &= ~(1u << k); } else if (a[0] == 'u' || a[0] == '+') { if (!(in >> k & 1)) continue; } else if (a[0] == 'p') { if (!in) continue; nx |= 1u << 31; } rec(left - 1, s + a + " ", nx); } };
        // the member set after a pop depends on the activities: sequences that do not apply are cut short by the runner
        rec(d, "", 0);
      } else {
        uint64_t T = 1; for (int i = 0; i < n; i++) T *= v;
        for (uint64_t t = 0; t < T; t++) { string s; uint64_t y = t; for (int i = 0; i < n; i++) { s += "i" + std::to_string(i) + ":" + std::to_string(y % v) + " "; y /= v; } vector<string> al2; for (auto& a : al) if (a[0] != 'i') al2.push_back(a); seqs(al2, d, "heap;" + std::to_string(n) + ";" + s, want, emit); }
      } }; }
  else if (mode == "avl") { int k = N(1), d = N(2); M.e.gen = [=](auto& want, auto& emit) { if (want()) emit("avlbfs;" + std::to_string(k) + ";" + std::to_string(d)); }; }
  else if (mode == "avlseq") { int k = N(1), dd = N(2), d = N(3); vector<string> al; for (int i = 0; i < k * dd; i++) { al.push_back("i" + std::to_string(i)); al.push_back("r" + std::to_string(i)); } M.e.gen = [=](auto& want, auto& emit) { seqs(al, d, "avl;" + std::to_string(k) + ";" + std::to_string(dd) + ";", want, emit); }; }
  else if (mode == "luby") { string n = A(1); int r = N(2); M.e.gen = [=](auto& want, auto& emit) { if (want()) emit("luby;" + n + ";0"); for (int i = 1; i <= r; i++) if (want()) emit("luby;2000;" + std::to_string(i)); }; }
  else if (mode == "deps") { int i = N(1), l = N(2), d = N(3); vector<string> al = {"s", "c"}; for (int x = 0; x < i + l; x++) { string k = std::to_string(x); al.push_back("t" + k); if (x < i) al.push_back("i" + k); else { al.push_back("f" + k); al.push_back("d" + k); for (int y = 0; y < i + l; y++) if (x != y) al.push_back("l" + k + ":" + std::to_string(y)); } }
    M.e.gen = [=](auto& want, auto& emit) {
      // prune what the preconditions exclude
      std::function<void(int, string, unsigned, bool)> rec = [&](int left, string s, unsigned in, bool tr) { if (!left) { if (want()) emit("deps;" + std::to_string(i) + ";" + s); return; }
        for (auto& a : al) { unsigned x = a.size() > 1 ? a[1] - '0' : 0, nx = in; bool t = tr, has = in >> x & 1;
          if (a[0] == 's') { if (tr) continue; t = true; } else if (a[0] == 'c') { if (!tr) continue; t = false; } else if (a[0] == 't') { if (!tr || !has) continue; } else if (a[0] == 'i') { if (has) continue; nx |= 1u << x; } else if (a[0] == 'f') { if (!tr || has) continue; nx |= 1u << x; t = false; } else if (a[0] == 'd') { if (!has) continue; nx &= ~(1u << x); } else { unsigned y = a[3] - '0'; if (!has || !(in >> y & 1)) continue; }
          rec(left - 1, s + a + " ", nx, t); } };
      rec(d, "", (1u << 0) * 0, false); }; }
  else if (mode == "proof" || mode == "proof1") { int I = N(1), l1 = N(2), l2 = N(3);
    M.e.gen = [=](auto& want, auto& emit) {
      std::function<void(int, vector<int>)> rec = [&](int from, vector<int> in) {
        string is; for (int x : in) is += std::to_string(x) + ",";
        if (!in.empty()) { if (mode == "proof1") { if (want()) emit("proof1;" + is + ";" + std::to_string(l1)); }
          else for (auto& c : chains(in.size(), l1, false)) for (int claim = 1; claim < 9; claim++) for (int reuse = -1; reuse < (int)in.size(); reuse++) if (want()) emit("proof;" + is + ";" + chain_str(c) + ";" + std::to_string(claim) + ";" + std::to_string(reuse) + ";" + std::to_string(l2)); }
        if ((int)in.size() == I) return; for (int x = from; x < 9; x++) { auto i2 = in; i2.push_back(x); rec(x + 1, i2); }
      };
      rec(mode == "proof1" ? 0 : 1, {}); }; }
  else { fprintf(stderr, "unknown space\n"); return 3; }
  M.e.run = run;
  return M.finish();
}
