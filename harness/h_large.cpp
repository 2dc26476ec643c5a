// Structured formulas beyond the reach of the assignment bitset, long enough to trigger restarts,
// clause deletion and purging many times. Verdicts come from a boring DPLL procedure; learned
// clauses are checked by unit propagation over the live clauses, falling back on DPLL.
//   run MODES FAMILIES d CFGS     every family with every set of at most d clauses left out
//   MODES (comma separated): solve, steps (propagate/decide by hand), half (second half of the clauses after a
//   first solve), limit (solve in slices of 5 conflicts), enum3 (block three models), assume (every literal of the
//   first two variables assumed in turn, graph backtracking only), twin (the same run with and without observer, proof, statistics)
#include "spaces.hpp"
#include "dimacs.hpp"
using namespace vf;

struct Big {
  NapSAT* s = nullptr; options op; vector<vector<int>> F; vector<unsigned> ids; unsigned n; std::unique_ptr<Mirror> mir; string flags; bool P, K, m, D, S, B, H; uint64_t n_unsat = 0; std::set<int> assumed;
  Big(const string& o, unsigned n_) : op(make_options(World::opt_text(o))), n(n_), flags(World::flags_of(o)) {
    auto has = [&](char c) { return flags.find(c) != string::npos; };
    P = has('P'); K = has('K'); D = has('D'); S = has('S'); B = has('B') || has('W'); bool Iv = has('I'); H = has('H'); m = has('m') || H || D || S || B || Iv;
    if (m) { mir.reset(new Mirror); sentinel::set_hooks(mir.get()); if (B) mir->bt = bt_kind(op); if (has('W')) use_cost(*mir, op, flags); if (Iv) use_invariants(*mir); if (H) { use_choice(*mir, op); }
      if (D) mir->on_clause = [this](unsigned id, const vector<int>& c, bool ext) { if (!ext) learned(id, c); };
      if (D) mir->on_shrink = [this](unsigned, int l) { if (!entailed({-l})) mir->bad("literal " + std::to_string(l) + " removed from a clause although it can still be true"); dirty = true; };
      if (D) mir->on_delete = [this](unsigned) { dirty = true; n_del++; };
    }
    s = create_solver(n, 0, op);
    for (char c : flags) if (c >= '1' && c <= '5') set_weight_function(s, World::weight(c - '0'));
  }
  ~Big() { if (s) delete_solver(s); static sentinel::Hooks d; sentinel::set_hooks(&d); }
  Big(const Big&) = delete;
  int val(int v) { Tval t = get_variable_value(s, (unsigned)std::abs(v)); if (t == Tval::UNDEF) return 0; int b = t == Tval::TRUE ? 1 : -1; return v > 0 ? b : -b; }
  vector<int> trail() { vector<int> r; for (Tlit l : get_partial_assignment(s)) r.push_back(I(l)); return r; }
  bool rup(const vector<const vector<int>*>& cl, const vector<int>& c) {
    vector<signed char> a(n + 1, 0); auto v = [&](int l) { int x = a[std::abs(l)]; return l > 0 ? x : -x; };
    for (int l : c) { if (v(l) > 0) return true; a[std::abs(l)] = l > 0 ? -1 : 1; }
    for (bool ch = true; ch;) { ch = false; for (auto* k : cl) { int un = 0, ul = 0; bool sat = false; for (int l : *k) { int x = v(l); if (x > 0) { sat = true; break; } if (!x && l != ul) { un++; ul = l; } } if (sat) continue; if (!un) return true; if (un == 1) { a[std::abs(ul)] = ul > 0 ? 1 : -1; ch = true; } } }
    return false;
  }
  bool entailed(const vector<int>& c) {
    // by unit propagation over the live clauses (each of them checked when it was announced)
    vector<const vector<int>*> cl; for (auto& f : F) cl.push_back(&f); for (auto& [i, k] : mir->cls) if (k.alive && !k.ext) cl.push_back(&k.lits);
    if (rup(cl, c)) return true;
    cnt().outcome[30]++;
    auto G = F; for (int l : c) G.push_back({-l});
    return !Dpll(G, n).solve();
  }
  void learned(unsigned id, const vector<int>& c) { auto k = mir->cls[id]; mir->cls.erase(id); if (!entailed(c)) mir->bad("learned clause " + cl_str(c) + " does not follow from the input clauses"); mir->cls[id] = k; cnt().outcome[31]++; }
  void add(const vector<int>& c) { vector<Tlit> v; for (int l : c) v.push_back(L(l)); F.push_back(c); bool un = false; if (H) { un = mir->unsure; mir->unsure = true; mir->late |= mir->was_conflict || mir->ndec; mir->act.clear(); for (int l : c) mir->occ[std::abs(l)]++; } struct Back { bool on; Mirror* m; bool un; ~Back() { if (on) m->unsure = un; } } back{H, mir.get(), un}; ids.push_back(add_clause(s, v.data(), v.size()).value); cnt().transitions++; }
  bool dirty = false; unsigned n_del = 0; int guard = 0;
  // the live clauses and the root literals imply every input clause
  void check_db() {
    dirty = false; if (get_status(s) == status::UNSAT) return;
    vector<vector<int>> live; std::set<vector<int>> have; vector<int> root;
    for (int l : trail()) if (is_root_level(s, (unsigned)std::abs(l))) { live.push_back({l}); root.push_back(l); }
    std::set<int> rs(root.begin(), root.end());
    for (auto& [i, k] : mir->cls) if (k.alive) { live.push_back(k.lits); auto c = k.lits; std::sort(c.begin(), c.end()); have.insert(c); }
    for (auto& f : F) {
      std::set<int> fs(f.begin(), f.end()); vector<int> c(fs.begin(), fs.end()); if (have.count(c)) continue;
      bool sat = false; vector<int> r; for (int l : c) { if (rs.count(l) || fs.count(-l)) sat = true; if (!rs.count(-l)) r.push_back(l); } if (sat || have.count(r)) continue;
      cnt().outcome[32]++; vector<const vector<int>*> lp; for (auto& k : live) lp.push_back(&k); if (rup(lp, c)) continue;
      auto G = live; for (int l : c) G.push_back({-l}); if (guard) G.push_back({-guard}); cnt().outcome[33]++;
      if (Dpll(G, n).solve()) { mir->bad("input clause " + cl_str(f) + " does not follow from the clauses kept any more"); return; }
    }
  }
  void check() {
    if (D && dirty) check_db();
    auto t = trail(); std::set<int> seen;
    for (int l : t) { REQ(!seen.count(l) && !seen.count(-l), "variable " + std::to_string(std::abs(l)) + " occurs twice in the assignment"); seen.insert(l); REQ(val(l) == 1, "literal listed as assigned has another value"); }
    Hash h; for (int l : t) { h.add((uint64_t)(l + 100000)); h.add(is_decided(s, L(l))); } h.add(F.size()); new_state(h.h);
    if (mir) {
      if (B) count_bt(*mir); if (H) count_heur(*mir); count_inv(*mir);
      REQ(mir->err.empty(), "notification stream: " + mir->err);
      REQ(mir->asg.size() == t.size(), "notification stream: a different set of literals is assigned");
      for (int l : t) { REQ(mir->asg.count(l), "notification stream: literal not announced"); REQ(is_decided(s, L(l)) == (mir->asg[l] == ~0u), "notification stream: decision status differs"); }
    }
  }
  void fixpoint() {
    for (auto& c : F) { bool sat = false; int un = 0; for (int l : c) { int v = val(l); if (v == 1) sat = true; else if (!v) un++; } if (!sat) { REQ(un, "a clause is falsified after propagation completed"); REQ(un >= 2, "clause " + cl_str(c) + " is unit after propagation completed"); } }
  }
  bool reference(const std::set<int>& as) {
    static std::map<string, bool> memo; string k; for (auto& c : F) k += cl_str(c) + " "; k += ";"; for (int a : as) k += std::to_string(a) + " ";
    auto it = memo.find(k); if (it != memo.end()) return it->second;
    auto G = F; for (int a : as) G.push_back({a});
    return memo[k] = Dpll(G, n).solve();
  }
  void verdict() {
    check();
    status x = get_status(s);
    REQ(x == status::SAT || x == status::UNSAT, "ended with status " + st_str(x));
    bool ref = reference(assumed);
    REQ((x == status::SAT) == ref, "wrong verdict " + st_str(x));
    if (x == status::SAT) {
      for (unsigned v = 1; v <= n; v++) if (!op.ignore_unused_variables) REQ(val(v) != 0, "reports SAT but a variable has no value");
      for (auto& c : F) { bool sat = false; for (int l : c) if (val(l) == 1) sat = true; REQ(sat, "reports SAT but clause " + cl_str(c) + " is not satisfied"); }
      for (int a : assumed) REQ(val(a) == 1, "reports SAT but an assumption does not hold");
    } else {
      if (P && assumed.empty()) { bool ok = false; capture([&] { ok = check_proof(s); }); REQ(ok, "the built-in proof checker rejects the proof"); string t = capture([&] { print_proof(s); }); uint64_t st = 0; auto e = verify_proof(t, F, &st); REQ(e.empty(), "printed proof: " + e); cnt().outcome[21]++; }
      if (K && op.graph_backtracking) {
        auto core = clause_unsat_core(s); vector<vector<int>> G;
        for (auto id : core) { bool f = false; for (size_t i = 0; i < ids.size(); i++) if (ids[i] == id.value) { f = true; G.push_back(F[i]); } REQ(f, "the clause core contains a clause that is not an input clause"); }
        for (int a : assumed) G.push_back({a});
        REQ(!Dpll(G, n).solve(), "the clauses of the core are satisfiable"); cnt().outcome[23]++;
      }
      if (!assumed.empty()) { auto core = unsat_core(s); std::set<int> cs; for (Tlit l : core) { REQ(assumed.count(I(l)), "the failed-assumption core contains a literal that is not assumed"); cs.insert(I(l)); } REQ(!reference(cs), "the clauses are satisfiable under the failed-assumption core"); }
      cnt().nontrivial++;
    }
    if (S) check_statistics(s, *mir, op, -1, x == status::UNSAT ? 1 + n_unsat : n_unsat, x == status::UNSAT, S1 && !op.graph_backtracking && !op.chronological_backtracking && !op.lazy_strong_chronological_backtracking); if (!assumed.empty() && x == status::UNSAT) n_unsat++;
    cnt().evals++;
  }
  bool S1 = false;
};

static vector<vector<int>> formula(const string& spec) { auto p = split(spec, '~'); auto F = family(p[0]); vector<vector<int>> R; std::set<int> del; for (size_t i = 1; i < p.size(); i++) del.insert(std::stoi(p[i])); for (size_t i = 0; i < F.size(); i++) if (!del.count(i)) R.push_back(F[i]); return R; }

// everything observable from one long run: slices of 10 conflicts, clauses arriving in between, assumptions at the end
static vector<string> long_run(const string& o, const vector<vector<int>>& F, unsigned n) {
  Big b(o, n); vector<string> sig;
  auto look = [&]() { cnt().transitions++; string t = st_str(get_status(b.s)) + ": "; for (int l : b.trail()) { t += std::to_string(l); t += is_decided(b.s, L(l)) ? "d " : is_root_level(b.s, (unsigned)std::abs(l)) ? "r " : " "; } sig.push_back(t); };
  auto slices = [&]() { int k = 0; do { REQ(++k < 20000, "does not terminate"); } while (solve_limited(b.s, 10) == status::UNKNOWN && (look(), true)); look(); };
  size_t i = 0; for (; i < F.size() - F.size() / 4; i++) b.add(F[i]);
  slices();
  for (; i < F.size() && get_status(b.s) != status::UNSAT; i++) { b.add(F[i]); look(); }
  slices();
  if (b.op.graph_backtracking) for (int a : {1, -2, 3}) {
    if (get_status(b.s) == status::UNSAT) break;
    sig.push_back(add_assumption(b.s, L(a)) ? "accepted" : "refused"); look(); slices();
    if (a == -2) { forget_assumption(b.s); look(); }
  }
  b.check();
  return sig;
}
static string twin(const string& o, const vector<vector<int>>& F, unsigned n, const vector<string>& extras) {
  auto base = long_run(o, F, n);
  for (auto& e : extras) {
    auto t = long_run(e[0] == '!' ? o + " " + e.substr(1) : o + (e.empty() ? "" : " " + e), F, n);
    cnt().evals++;
    if (e[0] == '!') { auto last = [](const vector<string>& r) { string v; for (auto& x : r) { if (x == "accepted" || x == "refused") break; v = x.substr(0, x.find(':')); } return v; }; REQ(last(t) == last(base), "the verdict with \"" + e.substr(1) + "\" differs"); continue; }
    for (size_t i = 0; i < std::max(t.size(), base.size()); i++) REQ(i < t.size() && i < base.size() && t[i] == base[i], (e.empty() ? "two identical runs differ" : "the run with \"" + e + "\" differs from the run without") + string(" at step ") + std::to_string(i) + ": " + (i < t.size() ? t[i].substr(0, 200) : "ended") + " instead of " + (i < base.size() ? base[i].substr(0, 200) : "ended"));
  }
  if (base.size() > 3) cnt().nontrivial++;
  Hash h; for (auto& t : base) { for (char c : t) h.add((uint64_t)c); new_state(h.h); }
  return "";
}

static string run(const string& key) {
  auto p = split(key, ';'); const string& mode = p[0]; string o = p[1]; auto F = formula(p[2]); unsigned n = max_var(family(split(p[2], '~')[0]));
  try {
    if (mode == "twin") return twin(o, F, n, {"", "-o", "-bp", "-o -stat -bp", "-o -live-stat", "!--record-dependencies"});
    Big b(o, n);
    if (mode == "solve") { b.S1 = true; for (auto& c : F) b.add(c); solve(b.s); b.verdict(); }
    else if (mode == "cw") {            // from a file that gives a weight to every variable
      auto w = [](int v) { return v % 3 ? v * 0.75 : 0.0; };
      string f = path(".cnf"); { std::ofstream o(f); o << "p cnf " << n << " " << F.size() << "\n"; for (unsigned v = 1; v <= n; v++) o << "cw " << v << " " << w(v) << "\n"; for (auto& c : F) { for (int l : c) o << l << " "; o << "0\n"; } }
      REQ(parse_dimacs(b.s, f.c_str()), "the file is refused"); unlink(f.c_str()); b.F = F; cnt().transitions++;
      if (b.mir && b.mir->cost) b.mir->cost = [w](int x) { return w(std::abs(x)); };
      if (get_status(b.s) == status::UNKNOWN) solve(b.s); b.verdict(); b.check();
    }
    else if (mode == "steps") {
      for (auto& c : F) b.add(c);
      uint64_t k = 0;
      while (get_status(b.s) == status::UNKNOWN) { cnt().transitions++; bool r = propagate(b.s); if (k++ % 8 == 0) b.check(); if (!r) break; b.fixpoint(); decide(b.s); REQ(k < 2000000, "does not terminate"); }
      b.verdict();
    }
    else if (mode == "half") { size_t i = 0; for (; i < F.size() / 2; i++) b.add(F[i]); solve(b.s); b.verdict(); for (; i < F.size(); i++) { b.add(F[i]); if (i % 8 == 0) { b.check(); if (get_status(b.s) == status::UNKNOWN) { solve(b.s); b.verdict(); } } } solve(b.s); b.verdict(); }
    else if (mode == "limitS") {         // every call that gives up has dealt with exactly the conflicts it was allowed
      for (auto& c : F) b.add(c); int lim = 1, r = 0; long long c0 = 0;
      while (solve_limited(b.s, lim) == status::UNKNOWN) { cnt().transitions++; long long c = read_stats(b.s)["Conflicts"]; REQ(c == c0 + lim, "a call limited to " + std::to_string(lim) + " conflicts gave up after " + std::to_string(c - c0)); c0 = c; lim = lim % 13 + 1; REQ(++r < 20000, "does not terminate"); }
      REQ(read_stats(b.s)["Conflicts"] <= c0 + lim, "a call limited to " + std::to_string(lim) + " conflicts had more"); b.S1 = true; b.verdict();
    }
    else if (mode == "limit") { for (auto& c : F) b.add(c); int r = 0; while (solve_limited(b.s, 5) == status::UNKNOWN) { cnt().transitions++; b.check(); REQ(++r < 20000, "does not terminate"); } b.verdict(); }
    else if (mode.substr(0, 4) == "grow") {        // growS_K: a second copy arrives K clauses at a time after S conflicts each (from the first deletion on), on variables of its own
      int slice = 40, per = 3; if (mode.size() > 4) { auto q = split(mode.substr(4), '_'); slice = std::stoi(q[0]); per = std::stoi(q[1]); } bool late = mode.size() > 4;
      // a selector guards the long clauses of the first copy, so that the whole stays satisfiable
      size_t i = 0; int sel = n + 1, off = sel; auto G = F; b.n = sel;
      for (auto c : F) { if (c.size() > 2 || c[0] > 0) c.push_back(-sel); b.add(c); }
      b.guard = sel;
      status st = status::UNKNOWN; int r = 0;
      while (st == status::UNKNOWN && ++r < 2000) {
        if (propagate(b.s) && b.val(sel) == 0) decide(b.s, L(sel));
        st = solve_limited(b.s, slice); cnt().transitions++; b.check();
        if (late && !b.n_del) continue;
        for (int k = 0; k < per && i < G.size() && get_status(b.s) != status::UNSAT; i++) { if (i % 3 == 2) continue; auto c = G[i]; for (int& l : c) { l += l > 0 ? off : -off; b.n = std::max(b.n, (unsigned)std::abs(l)); } b.add(c); k++; }
      }
      for (; i < G.size(); i++) if (i % 3 != 2) { auto c = G[i]; for (int& l : c) { l += l > 0 ? off : -off; b.n = std::max(b.n, (unsigned)std::abs(l)); } b.add(c); }
      solve(b.s); b.verdict();
    }
    else if (mode == "enum3") { for (auto& c : F) b.add(c); solve(b.s); b.verdict(); for (int i = 0; i < 3 && get_status(b.s) == status::SAT; i++) { vector<int> bl; for (int l : b.trail()) bl.push_back(-l); b.add(bl); solve(b.s); b.verdict(); } }
    else if (mode == "assume") {
      for (auto& c : F) b.add(c);
      if (!propagate(b.s) && get_status(b.s) == status::UNSAT) { b.verdict(); return ""; }
      for (int a : {1, -1, 2, -2, (int)n, -(int)n}) {
        if (get_status(b.s) == status::UNSAT) break;
        if (get_status(b.s) == status::UNKNOWN && !propagate(b.s) && get_status(b.s) == status::UNSAT) break;
        bool r = add_assumption(b.s, L(a)); if (r) b.assumed.insert(a); else { auto as = b.assumed; as.insert(a); REQ(!b.reference(as), "assumption refused although it is consistent"); }
        solve(b.s); b.verdict(); forget_assumption(b.s); b.assumed.clear(); 
        if (get_status(b.s) != status::UNSAT && std::abs(a) == 2 && add_assumption(b.s, L(-a))) { b.assumed.insert(-a); if (get_status(b.s) != status::UNSAT) { propagate(b.s); } if (get_status(b.s) != status::UNSAT && add_assumption(b.s, L(3))) b.assumed.insert(3); solve(b.s); b.verdict(); forget_assumption(b.s); b.assumed.clear(); }
      }
      solve(b.s); b.verdict();
    }
    else if (mode.substr(0, 6) == "ahist:") {
      for (auto& c : F) b.add(c);
      auto un = [&] { return get_status(b.s) == status::UNSAT; };
      auto op = [&](const string& t) {
        cnt().transitions++;
        if (t == "s") { if (!un()) solve(b.s); b.verdict(); }
        else if (t == "F") { forget_assumption(b.s); b.assumed.clear(); }
        else if (t[0] == 'f') { int l = std::stoi(t.substr(1)); if (!b.assumed.count(l)) return; forget_assumption(b.s, L(l)); b.assumed.erase(l); }
        else if (t[0] == 'd') { int k = std::stoi(t.substr(1)); for (int i = 0; i < k && get_status(b.s) == status::UNKNOWN && propagate(b.s); i++) { b.fixpoint(); decide(b.s); } }
        else if (t[0] == 'l') { if (!un()) solve_limited(b.s, std::stoi(t.substr(1))); }
        else if (t[0] == 'c') b.add(ints(t.substr(1)));
        else if (t[0] == 'A') {     // at any time: clauses and literals may still wait for propagation
          if (un()) return;
          int l = std::stoi(t.substr(1)); bool r = add_assumption(b.s, L(l));
          if (r) { b.assumed.insert(l); REQ(b.val(l) == 1, "accepted assumption is not true"); } else { auto as = b.assumed; as.insert(l); REQ(!b.reference(as), "assumption refused although it is consistent"); }
        }
        b.check();
        if (!un()) for (int a : b.assumed) REQ(b.val(a) == 1, "assumption " + std::to_string(a) + " is not true in the current assignment");
        if (un()) b.verdict();
      };
      for (auto& t : split(mode.substr(6), ' ')) if (!t.empty()) op(t);
      op("s"); op("F"); op("s");
    }
    else throw Bad("unknown mode");
  } catch (Bad& e) { return e.what(); }
  return "";
}

int main(int argc, char** argv) {
  quiet();
  Main m(argc, argv);
  auto modes = split(m.arg(1), ','), fams = split(m.arg(2), ','); int d = m.num(3, 0); auto cf = cfgs(m.arg(4));
  m.e.gen = [=](auto& want, auto& emit) {
    for (auto& f : fams) { int n = family(f).size();
      for (auto& mo : modes) for (auto& o : cf) {
        std::function<void(int, int, string)> rec = [&](int from, int left, string s) { if (want()) emit(mo + ";" + o + ";" + s); if (!left) return; for (int i = from; i < n; i++) rec(i + 1, left - 1, s + "~" + std::to_string(i)); };
        rec(0, d, f);
      } }
  };
  if (m.pos[0] == "ahist") {          // ahist FAMILIES CFGS VARS DEPTH [1]: every history of assumption operations (1: and of binary clauses over VARS)
    fams = split(m.arg(1), ','); cf = cfgs(m.arg(2)); auto vars = ints(m.arg(3)); int depth = m.num(4, 3); bool cls = m.num(5, 0);
    m.e.gen = [=](auto& want, auto& emit) {
      vector<string> alpha = {"s", "d3", "d8", "l2", "F"};
      for (int v : vars) for (int l : {v, -v}) { if (cls) for (auto w : vars) if (w != v) for (int k : {w, -w}) if (w > v) alpha.push_back("c" + cl_str({l, k})); alpha.push_back("A" + std::to_string(l)); alpha.push_back("f" + std::to_string(l)); }
      for (auto& f : fams) for (auto& o : cf) { std::function<void(int, string)> rec = [&](int left, string s) { if (!left) { if (want()) emit("ahist:" + s + ";" + o + ";" + f); return; } for (auto& a : alpha) rec(left - 1, s + a + " "); }; rec(depth, ""); }
    };
  }
  m.e.run = run; make_scratch();
  int rc = m.finish(); drop_scratch(); return rc;
}
