// Assumption handling under graph backtracking: every sequence of assume / forget / add / decide /
// propagate / solve operations, against the models of clauses and assumptions.
#include "spaces.hpp"
using namespace vf;

static string run(const string& key) {
  auto p = split(key, ';'); unsigned nv = stoi(p[1]);
  World w(p[0], nv);
  bool nontriv = false;
  auto failed = [&]() {
    if (w.st() != status::UNSAT) return;
    std::ostringstream o; auto core = unsat_core(w.s);
    Models m = w.M;
    for (Tlit l : core) { REQ(w.assumed.count(I(l)), "the failed-assumption core contains " + std::to_string(I(l)) + ", which is not a current assumption"); m.and_lit(I(l)); }
    REQ(m.empty(), "the clauses are satisfiable under the failed-assumption core");
    if (!w.M.empty()) nontriv = true;
  };
  try {
    auto step = [&](const string& t) {
      if (t == "p") { if (w.st() != status::UNKNOWN) return; if (w.prop()) w.check_fixpoint(); }
      else if (t == "s") { w.solve_(); }
      else if (t[0] == 'D') { if (w.st() != status::UNKNOWN) return; if (!w.prop()) { w.check(); return; } w.check(); w.check_fixpoint(); int l = std::stoi(t.substr(1)); if (w.val(l) == 0) w.dec(l); }
      else if (t[0] == 'c') { w.add(ints(t.substr(1))); }
      else if (t[0] == 'A' || t[0] == 'a') {
        // A after propagating, a at any time
        if (w.st() == status::UNSAT) return;
        if (t[0] == 'A' && w.st() == status::UNKNOWN) { bool r = w.prop(); w.check(); if (!r && w.st() == status::UNSAT) return; }
        int l = std::stoi(t.substr(1)); w.note(t);
        bool r = add_assumption(w.s, L(l));
        if (r) { w.assumed.insert(l); REQ(w.val(l) == 1, "accepted assumption " + std::to_string(l) + " is not true"); }
        else { Models m = w.with_assumptions(); m.and_lit(l); REQ(m.empty(), "assumption " + std::to_string(l) + " refused although it is consistent with the clauses and the other assumptions"); }
      }
      else if (t[0] == 'V' || t[0] == 'v') {
        if (w.st() == status::UNSAT) return;
        if (t[0] == 'V' && w.st() == status::UNKNOWN) { bool r = w.prop(); w.check(); if (!r && w.st() == status::UNSAT) return; }
        vector<int> ls = ints(t.substr(1)); vector<Tlit> v; for (int l : ls) v.push_back(L(l)); w.note(t);
        bool r = add_assumption(w.s, v);
        if (r) for (int l : ls) w.assumed.insert(l);
        else { Models m = w.with_assumptions(); for (int l : ls) m.and_lit(l); REQ(m.empty(), "assumptions " + cl_str(ls) + " refused although they are consistent with the clauses and the other assumptions"); }
      }
      else if (t[0] == 'F') {
        w.note(t);
        if (t == "F*") { forget_assumption(w.s); w.assumed.clear(); }
        else { int l = std::stoi(t.substr(1)); bool had = w.assumed.count(l); bool root = is_root_level(w.s, (unsigned)std::abs(l)); bool r = forget_assumption(w.s, L(l)); if (!root) REQ(r == had, "forget reports " + std::to_string(r) + " for assumption " + std::to_string(l)); w.assumed.erase(l); }
        if (w.M.empty() && w.st() == status::UNSAT) {}
      }
      w.check(); w.check_assumptions_hold(); failed();
    };
    for (auto& t : split(p[2], ' ')) if (!t.empty()) step(t);
    step("s");
    REQ((w.st() == status::SAT) == !w.with_assumptions().empty(), "wrong verdict " + st_str(w.st()));
    step("F*"); step("s");
    REQ((w.st() == status::SAT) == !w.M.empty(), "wrong verdict after forgetting every assumption: " + st_str(w.st()));
    if (nontriv) cnt().nontrivial++;
    cnt().evals++;
  } catch (Bad& b) { return string(b.what()) + " @ " + w.trace; }
  return "";
}

int main(int argc, char** argv) {
  quiet();
  Main m(argc, argv);
  if (m.arg(0) == "g") {
    // fixed initial clauses (sets separated by '/', clauses by ':'), every sequence of assuming, forgetting and deciding
    // true literals and of adding clauses that forbid a pair of them
    auto inits = split(m.arg(1), '/'); int depth = m.num(2, 5); auto cf = cfgs(m.arg(3)); string ops = m.arg(4, "AFDc");
    m.e.gen = [=](auto& want, auto& emit) {
      for (auto& o : cf) for (auto& in : inits) {
        int V = 0; string pre; for (auto& c : split(in, ':')) { pre += "c" + c + " "; for (int l : ints(c)) V = std::max(V, std::abs(l)); }
        vector<string> alpha; for (int v = 1; v <= V; v++) for (char k : {'A', 'F', 'D'}) if (ops.find(k) != string::npos) alpha.push_back(k + std::to_string(v));
        if (ops.find('s') != string::npos) alpha.push_back("s");
        if (ops.find('c') != string::npos) for (int i = 1; i <= V; i++) for (int j = i + 1; j <= V; j++) alpha.push_back("c-" + std::to_string(i) + ",-" + std::to_string(j));
        vector<string> seq; std::set<string> in_force, used;
        std::function<void()> rec = [&]() {
          if ((int)seq.size() == depth) { if (want()) { string k; for (auto& t : seq) k += t + " "; emit(o + ";" + std::to_string(V) + ";" + pre + k); } return; }
          for (auto& t : alpha) {
            string v = t.substr(1);
            if (t[0] == 'A' && in_force.count(v)) continue;
            if (t[0] == 'F' && !in_force.count(v)) continue;
            if ((t[0] == 'D' || t[0] == 'c') && used.count(t)) continue;
            if (t == "s" && !seq.empty() && seq.back() == "s") continue;
            auto f0 = in_force; auto u0 = used;
            if (t[0] == 'A') in_force.insert(v); if (t[0] == 'F') in_force.erase(v); used.insert(t);
            seq.push_back(t); rec(); seq.pop_back(); in_force = f0; used = u0;
          }
        };
        rec();
      }
    };
    m.e.run = run;
    return m.finish();
  }
  int V = m.num(1, 2), K = m.num(2, 2), depth = m.num(3, 4); auto cf = cfgs(m.arg(4)); string ops = m.arg(5, "psDaF*c"); int pre = m.num(6, 0);
  m.e.gen = [=](auto& want, auto& emit) {
    vector<string> alpha;
    auto has = [&](char c) { return ops.find(c) != string::npos; };
    if (has('p')) alpha.push_back("p");
    if (has('s')) alpha.push_back("s");
    for (int v = 1; v <= V; v++) for (int l : {v, -v}) { if (has('D')) alpha.push_back("D" + std::to_string(l)); for (char c : {'A', 'a'}) if (has(c)) alpha.push_back(c + std::to_string(l)); if (has('F')) alpha.push_back("F" + std::to_string(l)); }
    for (char c : {'V', 'v'}) if (has(c)) for (int a = -V; a <= V; a++) for (int b = -V; b <= V; b++) if (a && b) alpha.push_back(c + std::to_string(a) + "," + std::to_string(b));
    if (has('*')) alpha.push_back("F*");
    vector<string> cls; for (auto& c : clause_pool(V, K)) cls.push_back("c" + cl_str(c));
    if (has('c')) alpha.insert(alpha.end(), cls.begin(), cls.end());
    // every set of at most `pre` initial clauses
    vector<string> pres; std::function<void(size_t, int, string)> mk = [&](size_t from, int left, string acc) { if (!left) { pres.push_back(acc); return; } for (size_t i = from; i < cls.size(); i++) mk(i + 1, left - 1, acc + cls[i] + " "); };
    mk(0, pre, "");
    for (auto& o : cf) for (auto& pr : pres) {
      std::function<void(vector<int>&)> rec = [&](vector<int>& sel) {
        if ((int)sel.size() == depth) { if (want()) { string k; for (int i : sel) k += alpha[i] + " "; emit(o + ";" + std::to_string(V) + ";" + pr + k); } return; }
        for (int i = 0; i < (int)alpha.size(); i++) { sel.push_back(i); rec(sel); sel.pop_back(); }
      };
      vector<int> sel; rec(sel);
    }
  };
  m.e.run = run;
  return m.finish();
}
