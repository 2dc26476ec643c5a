// Interactive mode: every sequence of commands given at the checkpoints of a run.
//   cmd V K pre depth CFGS [letters]   every set of at most `pre` clauses, every sequence of `depth` commands
//   fam FAMILIES skip depth CFGS       `depth` commands after 0..skip decisions of the solver, on a structured formula
//   bad V K pre depth CFGS             ... with one malformed command before every position
// At each checkpoint commands are given until one is accepted; when they are used up the solver decides by itself.
#include "spaces.hpp"
using namespace vf;

static const vector<string>& malformed() {
  static const vector<string> r = {"DECIDE x", "DECIDE 0", "DECIDE 99", "DECIDE -99", "DECIDE 1 2", "DECIDE 99999999999999999999", "DECIDE -2147483648", "DECIDE 1x", "DECIDE --1", "DECIDE 2147483647", "DECIDE -2147483647",
    "ASSUME", "ASSUME x", "ASSUME 0", "ASSUME 99", "ASSUME 1 2", "ASSUME -2147483648", "ASSUME 99999999999", "FORGET", "FORGET x", "FORGET 0", "FORGET -99", "FORGET 1 2", "FORGET 99999999999", "LEARN", "LEARN 0", "LEARN 1 x", "LEARN 1 0", "LEARN x 1",
    "LEARN 99999999999", "LEARN 1 -2147483648", "LEARN 1 2x", "DELETE_CLAUSE", "DELETE_CLAUSE x", "DELETE_CLAUSE -1", "DELETE_CLAUSE 999", "DELETE_CLAUSE 2147483647", "DELETE_CLAUSE 99999999999", "DELETE_CLAUSE 0 1", "DELETE_CLAUSE 0x", "FOO", "decide 1", "DECIDE1", "1", "-1", " ", "\t \n", "HINT", "HINT 1 0 0", "HINT x", "HINT 0", "HINT 1", "HINT -1", "HINT 2 0", "HINT 1 1", "HINT 99999999999",
    "EXITX", "LEARN\x01", "\"\""};
  return r;
}

struct Inter : World {
  Models all, live;                       // models of every clause ever added, of the clauses not deleted
  vector<int> dead;                       // per clause: deleted by a command
  std::map<unsigned, size_t> idx;         // live identifier -> clause
  long cur = -1; unsigned by_cmd = ~0u; bool pure = true;
  uint64_t n_del = 0;
  Inter(const string& o, unsigned nv) : World(o + " -i", nv, true), all(nv), live(nv) {
    mir->on_clause = [this](unsigned id, const vector<int>&, bool ext) { if (ext && cur >= 0) { idx[id] = cur; cur = -1; } };
    mir->on_delete = [this](unsigned id) { if (id != by_cmd) idx.erase(id); };
  }
  void note_clause(const vector<int>& c) {
    for (int l : c) if ((unsigned)std::abs(l) > n) { n = std::abs(l); all.grow(n); live.grow(n); M.grow(n); }
    F.push_back(c); dead.push_back(0); all.and_clause(c); live.and_clause(c); cur = (long)F.size() - 1;
    for (int l : c) fhash.add((uint64_t)(l + 1000)); fhash.add(1);
  }
  void add(const vector<int>& c) { note("c" + cl_str(c)); note_clause(c); vector<Tlit> v; for (int l : c) v.push_back(L(l)); add_clause(s, v.data(), v.size()); cur = -1; }
  void recompute() { live = Models(n); for (size_t i = 0; i < F.size(); i++) if (!dead[i]) live.and_clause(F[i]); }
  void check() {
    check_trail(); M = all; check_justified(); M = st() == status::SAT ? live : all;
    if (st() == status::SAT || st() == status::UNSAT) { if (st() == status::UNSAT && pure) M = live; auto keep = F; F.clear(); for (size_t i = 0; i < keep.size(); i++) if (!dead[i]) F.push_back(keep[i]); try { check_verdict(); } catch (...) { F = keep; throw; } F = keep; }
    check_mirror(); check_assumptions_hold();
  }
  struct Snap { vector<int> t; status st; uint64_t ev; std::set<int> as; };
  Snap snap() { return {trail(), st(), mir->events, assumed}; }
  void same(const Snap& a, const string& why) { REQ(trail() == a.t && st() == a.st, why + " changed the state of the search"); REQ(mir->events == a.ev, why + " caused a notification"); }
  bool fals(const vector<int>& c) { for (int l : c) if (val(l) >= 0) return false; return true; }
  // gives one command and checks its effect
  bool command(const string& c) {
    note("[" + c + "]");
    vector<string> t; { std::istringstream is(c); string x; while (is >> x) t.push_back(x); }
    Snap b = snap(); bool r = false; string op = t.empty() ? "" : t[0]; bool clash = false;
    auto lit = [&] { return std::stoi(t[1]); };
    auto run = [&] { capture([&] { r = mir->parse(c); }); mir->flush(); REQ(mir->err.empty(), "notification stream: " + mir->err); };
    if (c == "" || (op == "DECIDE" && t.size() == 1)) {
      run(); auto a = trail();
      if (b.st != status::UNKNOWN) { REQ(a == b.t && st() == b.st, "a decision was made although the search is over"); REQ(mir->events == b.ev, "a command that does nothing caused a notification"); if (c == "") REQ(r, "the empty command does not continue"); }
      else { REQ(r, "DECIDE is refused"); if (iuv && st() == status::SAT) REQ(a == b.t, "DECIDE changed the assignment and ended the search"); else { REQ(a.size() == b.t.size() + 1 && std::equal(b.t.begin(), b.t.end(), a.begin()) && is_decided(s, L(a.back())), "DECIDE did not decide one literal"); } }
    } else if (op == "DECIDE") {
      bool can = val(lit()) == 0 && b.st == status::UNKNOWN; run();
      if (!can) { REQ(!r, "DECIDE of an assigned literal is accepted"); same(b, "a refused DECIDE"); }
      else { auto a = trail(); REQ(r, "DECIDE of an unassigned literal is refused"); b.t.push_back(lit()); REQ(a == b.t && is_decided(s, L(lit())), "DECIDE did not decide the literal asked for"); cnt().outcome[40]++; }
    } else if (op == "ASSUME") {
      run();
      if (!gb) { REQ(!r, "ASSUME is accepted although assumptions are not supported"); same(b, "a refused ASSUME"); }
      else if (r) { REQ(val(lit()) == 1, "the accepted assumption is not true"); assumed.insert(lit()); if (b.st == status::UNSAT && !b.as.count(lit())) throw Bad("an assumption is accepted after UNSAT"); cnt().outcome[41]++; }
      else { Models m = pure ? live : all; for (int a : assumed) m.and_lit(a); m.and_lit(lit()); REQ(m.empty(), "an assumption is refused although it is consistent"); cnt().outcome[42]++; }
    } else if (op == "FORGET") {
      bool had = assumed.count(lit()), root = is_root_level(s, (unsigned)std::abs(lit())); run();
      if (!gb || !had) { if (!root) REQ(!r, "FORGET of a literal that is not assumed is accepted"); same(b, "a refused FORGET"); }
      else { if (!root) REQ(r, "FORGET of an assumption is refused"); assumed.erase(lit()); cnt().outcome[43]++; }
    } else if (op == "LEARN") {
      vector<int> k; for (size_t i = 1; i < t.size(); i++) k.push_back(std::stoi(t[i])); note_clause(k); for (size_t i = 0; i < k.size(); i++) if (std::find(k.begin(), k.end(), -k[i]) != k.end()) clash = true;
      uint64_t before = mir->n_add + mir->n_del; run(); cur = -1; REQ(r, "LEARN is refused");
      if (!clash && b.st != status::UNSAT) { bool root = false; for (int l : k) if (val(l) == 1 && is_root_level(s, (unsigned)std::abs(l))) root = true; REQ(root || mir->n_add + mir->n_del > before, "LEARN added no clause"); }
      cnt().outcome[44]++;
    } else if (op == "DELETE_CLAUSE") {
      unsigned id = std::stoul(t[1]); auto it = mir->cls.find(id); bool alive = it != mir->cls.end() && it->second.alive, reason = false, f = false, ext = alive && it->second.ext; bool none = b.t.empty();
      if (alive) { for (auto& [x, q] : mir->asg) if (q == id) reason = true; f = fals(it->second.lits); }
      by_cmd = id; uint64_t nd = mir->deleted_cnt; bool small = alive && it->second.lits.empty(); run(); by_cmd = ~0u;
      REQ(trail() == b.t && st() == b.st, "DELETE_CLAUSE changed the state of the search");
      if (r) {
        REQ(alive, "deletion of a clause that does not exist is accepted"); REQ(!reason, "the reason of an assigned literal is deleted"); REQ(!mir->cls[id].alive && mir->deleted_cnt == nd + 1, "DELETE_CLAUSE did not delete exactly the clause asked for");
        if (mir->learned) pure = false;
        for (int x : b.t) if (is_root_level(s, (unsigned)std::abs(x))) pure = false;
        if (st() == status::UNSAT) pure = false;
        if (ext && idx.count(id)) { dead[idx[id]] = 1; idx.erase(id); recompute(); }
        n_del++; cnt().outcome[45]++;
      } else {
        same(b, "a refused DELETE_CLAUSE"); if (alive && none && !small) throw Bad("DELETE_CLAUSE is refused although no literal is assigned");
        if (alive && !gb && !reason && !f && !small && st() == status::UNKNOWN && op.find("scb") == string::npos && !this->op.lazy_strong_chronological_backtracking) throw Bad("DELETE_CLAUSE of a clause nothing depends on is refused");
        if (alive) cnt().outcome[46]++;
      }
    } else if (op == "PRINT" || op == "HELP") { run(); REQ(r, op + " is refused"); same(b, op); }
    else { run(); REQ(!r, "malformed command accepted"); same(b, "the malformed command \"" + c + "\""); }
    if (op != "DECIDE" && op != "") check();
    return r;
  }
};

static string unesc(string s) { for (auto& c : s) if (c == '^') c = ' '; return s; }
// opts ; V ; clauses ; command ; command ; ...   a command starting with ! must be refused
static string run(const string& key) {
  auto p = split(key, ';'); unsigned nv = stoi(p[1]);
  Inter w(p[0], nv);
  try {
    vector<string> cmds; for (size_t i = 3; i < p.size(); i++) if (!p[i].empty()) cmds.push_back(p[i]);
    size_t at = 0; bool failed = false; string why;
    w.mir->on_checkpoint = [&]() {
      try {
        w.check();
        while (at < cmds.size()) {
          string c = cmds[at++]; bool mal = c[0] == '!';
          if (mal) c = malformed()[stoi(c.substr(1))]; else if (c == "-") c = "";
          bool up = w.mir->asg.size() == 0; (void)up;
          bool r; if (mal) { w.note("[" + c + "]"); auto b = w.snap(); r = true; capture([&] { r = w.mir->parse(c); }); REQ(!r, "the malformed command \"" + c + "\" is accepted"); w.same(b, "the malformed command \"" + c + "\""); w.check(); }
          else r = w.command(c);
          if (r) return true;
        }
        if (w.st() == status::UNSAT || w.st() == status::SAT) { w.command(""); return true; }
        w.command("");
      } catch (Bad& e) { failed = true; if (why.empty()) why = e.what(); cmds.clear(); w.mir->parse(""); }
      return true;
    };
    for (auto& t : split(p[2], ' ')) if (!t.empty()) { w.add(ints(t.substr(1))); }
    auto verdict = [&] {
      w.note("s"); status r = solve(w.s); if (failed) throw Bad(why);
      REQ(r == get_status(w.s), "solve() and get_status() disagree"); REQ(r != status::UNKNOWN, "no verdict");
      w.check();
      if (w.pure) { Models m = w.live; for (int a : w.assumed) m.and_lit(a); REQ((r == status::SAT) == !m.empty(), "wrong verdict " + st_str(r)); }
    };
    verdict();
    size_t used = at;
    // the solver is still usable afterwards
    if (!w.assumed.empty()) { forget_assumption(w.s); w.assumed.clear(); w.check(); verdict(); }
    if (w.st() == status::SAT) { vector<int> c; for (int l : w.trail()) c.push_back(-l); if (!c.empty()) { w.add(c); w.check(); verdict(); } }
    if (used) cnt().nontrivial++;
    cnt().evals++;
  } catch (Bad& b) { return string(b.what()) + " @ " + w.trace; }
  return "";
}

int main(int argc, char** argv) {
  quiet();
  Main m(argc, argv);
  string mode = m.pos[0]; vector<string> cf;
  if (mode != "fam") {
  int V = m.num(1, 2), K = m.num(2, 2), pre = m.num(3, 1), depth = m.num(4, 2); cf = cfgs(m.arg(5)); string ops = m.arg(6, "dDaflx-");
  m.e.gen = [=](auto& want, auto& emit) {
    auto has = [&](char c) { return ops.find(c) != string::npos; };
    vector<string> alpha; auto S = [](int x) { return std::to_string(x); };
    if (has('-')) alpha.push_back("-");
    if (has('d')) alpha.push_back("DECIDE");
    for (int v = 1; v <= V; v++) for (int l : {v, -v}) { if (has('D')) alpha.push_back("DECIDE " + S(l)); if (has('a')) alpha.push_back("ASSUME " + S(l)); if (has('f')) alpha.push_back("FORGET " + S(l)); }
    auto pool = clause_pool(V, K);
    auto learn = [&](const vector<int>& c) { string x = "LEARN"; for (int l : c) x += " " + S(l); alpha.push_back(x); };
    if (has('l')) { for (auto& c : pool) learn(c); }
    if (has('L')) { learn({1, -1}); learn({1, 1, 2}); learn({V + 1}); learn({-1, V + 2}); }
    if (has('x')) for (int i = 0; i < 4; i++) alpha.push_back("DELETE_CLAUSE " + S(i));
    if (has('p')) for (auto x : {"PRINT trail", "PRINT trail-simple", "PRINT clause-set", "PRINT watch-lists", "PRINT x", "PRINT", "HELP", " DECIDE\t1 ", "DECIDE +1", "LEARN 1  2\t"}) alpha.push_back(x);
    vector<string> pres; std::function<void(size_t, int, string)> mk = [&](size_t from, int left, string acc) { pres.push_back(acc); if (!left) return; for (size_t i = from; i < pool.size(); i++) mk(i + 1, left - 1, acc + "c" + cl_str(pool[i]) + " "); };
    mk(0, pre, "");
    for (auto& o : cf) for (auto& pr : pres) {
      std::function<void(int, string)> rec = [&](int left, string acc) {
        if (!left) { if (want()) emit(o + ";" + S(V) + ";" + pr + ";" + acc); return; }
        for (auto& a : alpha) rec(left - 1, acc + a + ";");
      };
      if (mode == "cmd") rec(depth, "");
      else for (int at = 0; at <= depth; at++) for (size_t b = 0; b < malformed().size(); b++) {
        std::function<void(int, string)> r2 = [&](int i, string acc) {
          if (i == at) acc += "!" + S((int)b) + ";";
          if (i == depth) { if (want()) emit(o + ";" + S(V) + ";" + pr + ";" + acc); return; }
          for (auto& a : alpha) r2(i + 1, acc + a + ";");
        };
        r2(0, "");
      }
    }
  };
  } else {
    auto fams = split(m.arg(1), ','); int skip = m.num(2, 3), d = m.num(3, 2); cf = cfgs(m.arg(4));
    m.e.gen = [=](auto& want, auto& emit) {
      for (auto& o : cf) for (auto& f : fams) {
        auto F = family(f); string pr; for (auto& c : F) pr += "c" + cl_str(c) + " "; string nv = std::to_string(max_var(F));
        vector<string> alpha = {"-", "DECIDE 1", "DECIDE -2", "LEARN 1 2", "LEARN -1 3", "LEARN -2", "ASSUME 1", "ASSUME -2", "FORGET 1"};
        for (int i = 0; i < (int)F.size() + 3; i++) alpha.push_back("DELETE_CLAUSE " + std::to_string(i));
        std::function<void(int, string)> rec = [&](int left, string acc) { if (!left) { if (want()) emit(o + ";" + nv + ";" + pr + ";" + acc); return; } for (auto& a : alpha) rec(left - 1, acc + a + ";"); };
        string sk; for (int k = 0; k <= skip; k++) { rec(d, sk); sk += "-;"; }
      }
    };
  }
  m.e.run = run;
  return m.finish();
}
