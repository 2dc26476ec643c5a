// Structured formulas (families with every set of at most d clauses left out) x configurations.
//   solve FAMILIES d CFGS        verdict + model + the extra oracles given as @letters in the configuration
//   enum  FAMILIES d CFGS        enumerate all models by blocking clauses
//   limit FAMILIES d CFGS N      every conflict limit 0..N, one call, then repeated until the verdict
//   same  FAMILIES d CFGS EXTRAS the run with each EXTRA option set equals the run without
//   small V K maxc CFGS MODE     every clause set instead of families (MODE one of the above)
#include "spaces.hpp"
using namespace vf;

static vector<vector<int>> formula(const string& spec) {      // name[-i[-j]] or explicit "=1,2 -1"
  if (!spec.empty() && spec[0] == '=') { vector<vector<int>> F; for (auto& t : split(spec.substr(1), ' ')) if (!t.empty()) F.push_back(ints(t)); return F; }
  if (spec == "-") return {};
  auto p = split(spec, '~'); auto F = family(p[0]); vector<vector<int>> R; std::set<int> del;
  for (size_t i = 1; i < p.size(); i++) del.insert(std::stoi(p[i]));
  for (size_t i = 0; i < F.size(); i++) if (!del.count(i)) R.push_back(F[i]);
  return R;
}
static unsigned nvars(const string& spec, const vector<vector<int>>& F) { if (!spec.empty() && spec[0] != '=' && spec != "-") return std::max(1u, max_var(family(split(spec, '~')[0]))); return std::max(1u, max_var(F)); }

static void final_verdict(World& w) { REQ((w.st() == status::SAT) == !w.M.empty(), "wrong verdict " + st_str(w.st())); }

static string run_solve(const string& o, const string& spec) {
  auto F = formula(spec); World w(o, nvars(spec, F));
  for (auto& c : F) w.add(c);
  w.check(); w.plain = true;
  w.solve_(); w.check(); final_verdict(w);
  if (w.M.empty() && !F.empty()) cnt().nontrivial++;
  cnt().evals++; return "";
}
static string run_enum(const string& o, const string& spec) {
  auto F = formula(spec); World w(o, nvars(spec, F));
  for (auto& c : F) w.add(c);
  uint64_t total = w.M.count(), found = 0;
  while (w.solve_() == status::SAT) {
    w.check(); found++;
    REQ(found <= total, "more models enumerated than the formula has");
    vector<int> block; for (int l : w.trail()) block.push_back(-l);
    Models before = w.M; w.add(block);
    if (!w.iuv) REQ(before.count() == w.M.count() + 1, "a model was reported twice"); else REQ(!(before == w.M), "a blocked assignment was reported again");
    if (w.st() != status::UNSAT) w.check();
  }
  w.check();
  if (!w.iuv) REQ(found == total, std::to_string(found) + " models enumerated, the formula has " + std::to_string(total));
  REQ(w.M.empty(), "enumeration ended although a model is left");
  if (found > 1) cnt().nontrivial++;
  cnt().evals++; return "";
}
static string run_limit(const string& o, const string& spec, int N) {
  auto F = formula(spec); uint64_t base = 0;
  for (int k = 0; k <= N; k++) {
    World w(o, nvars(spec, F), true); w.limit_mode = true;
    for (auto& c : F) w.add(c);
    uint64_t rounds = 0, unks = 0; bool unk = false;
    while (true) {
      uint64_t l0 = w.mir->learned; status b = w.st();
      status r = solve_limited(w.s, k); w.note("l" + std::to_string(k));
      REQ(r == w.st(), "solve_limited() and get_status() disagree");
      if (b != status::UNKNOWN) REQ(r == b, "a limited solve changed the verdict");
      w.check();
      uint64_t learned = w.mir->learned - l0;
      if (!w.gb) REQ(learned <= (uint64_t)std::max(k, 1) + 1, std::to_string(learned) + " clauses learned in a call limited to " + std::to_string(k) + " conflicts");
      if (r == status::UNKNOWN) { unk = true; unks++; }
      if (r != status::UNKNOWN || k == 0 || ++rounds > 2000) break;
    }
    // a call that gives up has dealt with as many conflicts as it was allowed (one per call for a limit of one)
    if (k == 1) base = unks;
    if (k > 1) REQ(unks * k <= base, "with a limit of " + std::to_string(k) + " " + std::to_string(unks) + " calls gave up, although the whole run has " + std::to_string(base) + " conflicts");
    if (w.st() == status::UNKNOWN) { w.limit_mode = false; w.solve_(); w.check(); }
    final_verdict(w);
    if (unk) cnt().nontrivial++;
    cnt().evals++;
  }
  return "";
}
// everything observable from one run
static string signature(const string& o, const string& spec, bool steps) {
  auto F = formula(spec); World w(o, nvars(spec, F));
  string sig;
  for (auto& c : F) w.add(c);
  if (steps) {
    while (w.st() == status::UNKNOWN) {
      bool r = w.prop();
      for (int l : w.trail()) { sig += std::to_string(l); sig += is_decided(w.s, L(l)) ? "d " : " "; }
      sig += "| ";
      if (!r) break;
      w.note("d"); decide(w.s);
    }
  } else w.solve_();
  w.check(); final_verdict(w);
  sig += st_str(w.st()) + ": "; for (int l : w.trail()) sig += std::to_string(l) + (is_root_level(w.s, (unsigned)std::abs(l)) ? "r " : " ");
  return sig;
}
static string run_same(const string& o, const string& spec, const vector<string>& extras) {
  for (int steps = 0; steps < 2; steps++) {
    string base = signature(o, spec, steps);
    REQ(signature(o, spec, steps) == base, "two identical runs differ");
    for (auto& x : extras) {
      bool verdict_only = x[0] == '!'; string e = verdict_only ? x.substr(1) : x;
      string s = signature(o + " " + e, spec, steps);
      if (!verdict_only) REQ(s == base, "the run with \"" + e + "\" differs from the run without: " + s.substr(0, 300) + " instead of " + base.substr(0, 300));
      cnt().evals++;
    }
    if (base.find('d') != string::npos) cnt().nontrivial++;
  }
  return "";
}

int main(int argc, char** argv) {
  quiet();
  Main m(argc, argv);
  string mode = m.pos[0]; bool small = mode == "small";
  string how = small ? m.arg(5) : mode;
  vector<string> cf = cfgs(small ? m.arg(4) : m.arg(3));
  string extra = small ? m.arg(6) : m.arg(4);
  if (small) {
    int V = m.num(1, 2), K = m.num(2, 2), maxc = m.num(3, 2);
    m.e.gen = [=](auto& want, auto& emit) {
      auto pool = clause_pool(V, K);
      for (auto& o : cf) {
        std::function<void(size_t, vector<int>&)> rec = [&](size_t from, vector<int>& sel) {
          if (want()) { string k; for (int i : sel) k += cl_str(pool[i]) + " "; emit(o + ";" + (k.empty() ? "-" : "=" + k)); }
          if ((int)sel.size() == maxc) return;
          for (size_t i = from; i < pool.size(); i++) { sel.push_back(i); rec(i + 1, sel); sel.pop_back(); }
        };
        vector<int> sel; rec(0, sel);
      }
    };
  } else {
    auto fams = split(m.arg(1), ','); int d = m.num(2, 0);
    m.e.gen = [=](auto& want, auto& emit) {
      for (auto& f : fams) {
        int n = family(f).size();
        for (auto& o : cf) {
          std::function<void(int, int, string)> rec = [&](int from, int left, string s) {
            if (want()) emit(o + ";" + s);
            if (!left) return;
            for (int i = from; i < n; i++) rec(i + 1, left - 1, s + "~" + std::to_string(i));
          };
          rec(0, d, f);
        }
      }
    };
  }
  m.e.run = [=](const string& key) -> string {
    size_t a = key.find(';'); string o = key.substr(0, a), spec = key.substr(a + 1);
    try {
      if (how == "solve") return run_solve(o, spec);
      if (how == "enum") return run_enum(o, spec);
      if (how == "limit") return run_limit(o, spec, std::stoi(extra));
      if (how == "same") return run_same(o, spec, cfgs(extra));
      throw Bad("unknown mode " + how);
    } catch (Bad& b) { return b.what(); }
  };
  return m.finish();
}
