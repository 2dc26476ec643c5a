// Spaces over the solver API: formulas x decision schedules (sched), API histories (hist).
#include "spaces.hpp"
using namespace vf;

// ---- sched V K maxclauses depth configs -----------------------------------------------------
static void space_sched(Main& m) {
  int V = m.num(1, 3), K = m.num(2, 3), maxc = m.num(3, 3), depth = m.num(4, 3);
  auto cf = cfgs(m.arg(5)); bool dirty = m.arg(6) == "dirty";
  m.e.gen = [=](auto& want, auto& emit) {
    auto pool = clause_pool(V, K);
    if (dirty) { auto d = dirty_pool(V); pool.insert(pool.begin(), d.begin(), d.end()); }
    for (auto& o : cf) {
      std::function<void(int, vector<int>&)> rec = [&](int from, vector<int>& sel) {
        if (want()) { string k = o + ";" + std::to_string(V) + ";" + std::to_string(depth) + ";"; for (int i : sel) k += "c" + cl_str(pool[i]) + " "; emit(k); }
        if ((int)sel.size() == maxc) return;
        for (int i = from; i < (int)pool.size(); i++) { sel.push_back(i); rec(i + 1, sel); sel.pop_back(); }
      };
      vector<int> sel; rec(0, sel);
    }
  };
  m.e.run = [](const string& key) -> string {
    auto p = split(key, ';'); unsigned nv = stoi(p[1]); int depth = stoi(p[2]);
    vector<vector<int>> cls; for (auto& t : split(p[3], ' ')) if (!t.empty()) cls.push_back(ints(t.substr(1)));
    Sched sc; bool decided = false;
    do {
      World w(p[0], nv);
      try {
        for (auto& c : cls) { w.add(c); w.check(); }
        int d = 0;
        while (w.st() == status::UNKNOWN) {
          bool r = w.prop(); w.check();
          if (!r) break;
          w.check_fixpoint();
          if (d < depth) {
            vector<int> un; for (unsigned v = 1; v <= nv; v++) if (w.val(v) == 0) { un.push_back(v); un.push_back(-(int)v); }
            REQ(!un.empty(), "propagate() asks for a decision although every variable is assigned");
            w.dec(un[sc.choose(un.size())]); d++; decided = true;
          } else { w.solve_(); w.check(); break; }
        }
        REQ(w.st() != status::UNKNOWN, "no verdict");
        REQ((w.st() == status::SAT) == !w.M.empty(), "wrong verdict " + st_str(w.st()));
        cnt().evals++;
      } catch (Bad& b) { return string(b.what()) + " @ " + w.trace; }
    } while (sc.next());
    if (decided) cnt().nontrivial++;
    return "";
  };
}

// ---- hist V K depth mirror configs: every sequence of API operations ------------------------
static string hist_run(const string& key, bool mirror) {
  auto p = split(key, ';'); unsigned nv = stoi(p[1]);
  World w(p[0], nv, mirror); if (w.mir) w.watch_guidance();
  try {
    bool conflict = false;
    auto step = [&](const string& t) {
      if (t == "p") { if (w.st() != status::UNKNOWN) return; if (w.prop()) w.check_fixpoint(); }
      else if (t == "s") w.solve_();
      else if (t == "d") { if (w.st() != status::UNKNOWN) return; if (!w.prop()) { w.check(); return; } w.check(); w.note("d"); auto before = w.trail(); decide(w.s); auto after = w.trail(); if (w.iuv && w.st() == status::SAT) { REQ(before == after, "decide() changed the assignment and reports SAT"); w.check(); return; } REQ(after.size() == before.size() + 1 && std::equal(before.begin(), before.end(), after.begin()), "decide() did not extend the assignment by one literal"); REQ(is_decided(w.s, L(after.back())), "decide() did not make a decision"); }
      else if (t[0] == 'l') { status b = w.st(); int lim = std::stoi(t.substr(1)); long long c0 = w.f_S ? w.stats()["Conflicts"] : 0; w.n_solve++; status r = solve_limited(w.s, lim); w.note(t); if (r == status::UNSAT && b != r) w.n_unsat++; if (w.f_S && r == status::UNKNOWN) REQ(w.stats()["Conflicts"] == c0 + std::max(lim, 1), "a solve limited to " + std::to_string(lim) + " conflicts stopped without a verdict after " + std::to_string(w.stats()["Conflicts"] - c0) + " conflicts"); cnt().outcome[(int)r]++; REQ(r == w.st(), "solve_limited() and get_status() disagree"); if (b != status::UNKNOWN) REQ(r == b, "a limited solve changed the verdict"); }
      else if (t[0] == 'D') { if (w.st() != status::UNKNOWN) return; if (!w.prop()) { w.check(); return; } w.check(); int l = std::stoi(t.substr(1)); if ((unsigned)std::abs(l) <= w.n && w.val(l) == 0) w.dec(l); }
      else if (t[0] == 'c') w.add(ints(t.substr(1)));
      else if (t[0] == 'C') w.add(ints(t.substr(1)), true);
      else if (t == "n") w.newvar();
      else if (t == "y") { w.note(t); auto b = w.trail(); synchronize(w.s); if (w.mir) w.mir->synced(w.mir->order, true); REQ(b == w.trail(), "synchronize() changed the assignment"); }
      else if (t[0] == 'w') { w.note(t); set_weight_function(w.s, World::weight(t[1] - '0')); }
      else if (t[0] == 'g') { if ((unsigned)std::abs(std::stoi(t.substr(1))) <= w.n) w.suggest(std::stoi(t.substr(1))); }
      else if (t[0] == 'G') w.suggest(std::stoi(t.substr(1)));
      if (!t.empty() && w.M.empty()) conflict = true;
      w.check();
    };
    for (auto& t : split(p[2], ' ')) if (!t.empty()) step(t);
    step("s");
    REQ((w.st() == status::SAT) == !w.M.empty(), "wrong verdict " + st_str(w.st()));
    if (conflict) cnt().nontrivial++;
    cnt().evals++;
  } catch (Bad& b) { return string(b.what()) + " @ " + w.trace; }
  return "";
}
static void space_hist(Main& m) {
  int V = m.num(1, 3), K = m.num(2, 3), depth = m.num(3, 4); bool mirror = m.num(4, 0);
  auto cf = cfgs(m.arg(5)); string extra = m.arg(6);
  m.e.gen = [=](auto& want, auto& emit) {
    vector<string> alpha = {"p", "s"};
    if (extra.find('l') != string::npos) { alpha.push_back("l0"); alpha.push_back("l1"); }
    if (extra.find('n') != string::npos) alpha.push_back("n");
    if (extra.find('g') != string::npos) { alpha.push_back("y"); alpha.push_back("w2"); alpha.push_back("w3"); for (int v = 1; v <= V; v++) { alpha.push_back("g" + std::to_string(v)); alpha.push_back("g" + std::to_string(-v)); } }
    if (extra.find('d') != string::npos) alpha.push_back("d");
    for (int v = 1; v <= V; v++) { alpha.push_back("D" + std::to_string(v)); alpha.push_back("D" + std::to_string(-v)); }
    string cc = extra.find('C') != string::npos ? "C" : "c";
    if (extra.find('t') != string::npos) for (auto& c : dirty_pool(V)) alpha.push_back(cc + cl_str(c));
    for (auto& c : clause_pool(V, K)) alpha.push_back(cc + cl_str(c));
    if (extra.find('e') != string::npos) alpha.push_back("c");
    for (auto& o : cf) {
      std::function<void(vector<int>&)> rec = [&](vector<int>& sel) {
        if ((int)sel.size() == depth) { if (want()) { string k = o + ";" + std::to_string(extra.find('z') != string::npos ? 0 : V) + ";"; for (int i : sel) k += alpha[i] + " "; emit(k); } return; }
        for (int i = 0; i < (int)alpha.size(); i++) {
          // repeating p or s immediately is a no-op by the oracle checked elsewhere (depth-1 sequences)
          if (sel.size() > 1 && i == sel.back() && (alpha[i] == "p" || alpha[i] == "s")) continue;
          sel.push_back(i); rec(sel); sel.pop_back();
        }
      };
      vector<int> sel; rec(sel);
    }
  };
  m.e.run = [mirror](const string& key) { return hist_run(key, mirror); };
}

int main(int argc, char** argv) {
  quiet();
  Main m(argc, argv);
  string s = m.pos[0];
  if (s == "sched") space_sched(m);
  else if (s == "hist") space_hist(m);
  else { fprintf(stderr, "unknown space\n"); return 3; }
  return m.finish();
}
