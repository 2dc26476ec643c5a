// Growth of the problem while it is solved.
//   deep D,D.. POS GADGETS GROWS PATTERNS WHENS TAILS CFGS
// D literals are opened (decided, assumed, or both in turn), then gadgets on pairs of positions make them conflict.
//   gadget a,b (kind 0): not both a and b, through a fresh variable; kind 1: through two fresh variables; kind 2: b is only implied by a
//   grows: i all variables from the start, n created one by one, h half of them created while decisions are open,
//          m half of them mentioned by a clause while decisions are open
//   patterns: d decide, a assume, x in turn      whens: b gadgets before the decisions, e after them
//   tails: s solve, u then force both sides of the first gadget, A then assume both sides, y assume an implied literal
//   many N,N.. CFGS   a chain of N implications mentioned in clauses of growing variables, with decisions open
#include "spaces.hpp"
using namespace vf;

struct Grow {
  NapSAT* s = nullptr; options op; unsigned n = 0; vector<vector<int>> F; std::unique_ptr<Mirror> mir; std::set<int> assumed; bool B; string flags;
  Grow(const string& o, unsigned n0) : op(make_options(World::opt_text(o))), n(n0), flags(World::flags_of(o)) {
    B = flags.find('B') != string::npos;
    if (B || flags.find('m') != string::npos) { mir.reset(new Mirror); sentinel::set_hooks(mir.get()); if (B) mir->bt = bt_kind(op); }
    s = create_solver(n0, 0, op);
  }
  ~Grow() { if (s) delete_solver(s); static sentinel::Hooks d; sentinel::set_hooks(&d); }
  Grow(const Grow&) = delete;
  int val(int v) { Tval t = get_variable_value(s, (unsigned)std::abs(v)); if (t == Tval::UNDEF) return 0; int b = t == Tval::TRUE ? 1 : -1; return v > 0 ? b : -b; }
  void add(const vector<int>& c) { vector<Tlit> v; for (int l : c) { v.push_back(L(l)); n = std::max(n, (unsigned)std::abs(l)); } F.push_back(c); add_clause(s, v.data(), v.size()); cnt().transitions++; }
  void grow(unsigned N) { while (n < N) { unsigned v = new_variable(s).value; REQ(v == n + 1, "new_variable() returns " + std::to_string(v) + " with " + std::to_string(n) + " variables in the solver"); n = v; cnt().transitions++; } }
  void check() {
    REQ(variables_count(s) == n, "variables_count() is " + std::to_string(variables_count(s)) + " with " + std::to_string(n) + " variables in the solver");
    vector<signed char> a(n + 1, 0); size_t cntd = 0; Hash h;
    for (Tlit t : get_partial_assignment(s)) { int l = I(t); unsigned v = std::abs(l); REQ(v >= 1 && v <= n, "variable " + std::to_string(v) + " is assigned but nobody introduced it"); REQ(!a[v], "variable " + std::to_string(v) + " occurs twice in the assignment"); a[v] = l > 0 ? 1 : -1; cntd++; h.add((uint64_t)(l + 1000000)); h.add(is_decided(s, t)); }
    for (unsigned v = 1; v <= n; v++) REQ(val((int)v) == a[v], "variable " + std::to_string(v) + " has another value than in the assignment");
    for (int x : assumed) if (get_status(s) != status::UNSAT) REQ(val(x) == 1, "assumption " + std::to_string(x) + " is not true in the current assignment");
    h.add((uint64_t)get_status(s)); new_state(h.h);
    if (mir) { if (B) count_bt(*mir); REQ(mir->err.empty(), "notification stream: " + mir->err); REQ(mir->asg.size() == cntd, "notification stream: a different set of literals is assigned"); REQ(mir->n_var >= n, "notification stream: variables not announced"); if (get_status(s) != status::UNSAT) { auto e = mir->levels(); REQ(e.empty(), "notification stream: " + e); } }
  }
  void fixpoint() { for (auto& c : F) { bool sat = false; int un = 0; for (int l : c) { int v = val(l); if (v == 1) sat = true; else if (!v) un++; } if (!sat) REQ(un >= 2, "clause " + cl_str(c) + (un ? " is unit" : " is falsified") + " after propagation completed"); } }
  void model() { for (unsigned v = 1; v <= n; v++) if (!op.ignore_unused_variables) REQ(val((int)v), "reports SAT but variable " + std::to_string(v) + " has no value"); for (auto& c : F) { bool sat = false; for (int l : c) if (val(l) == 1) sat = true; REQ(sat, "reports SAT but clause " + cl_str(c) + " is not satisfied"); } }
  bool prop() { cnt().transitions++; bool r = propagate(s); if (r) REQ(get_status(s) == status::UNKNOWN, "propagate() asks for a decision although the status is " + st_str(get_status(s))); else REQ(get_status(s) != status::UNKNOWN, "propagate() returned false without a verdict"); return r; }
};
struct Gadget { int kind, a, b; };

static string deep(const vector<string>& p) {
  unsigned D = stoi(p[2]); char how = p[3][0], pat = p[4][0], when = p[5][0], tail = p[7][0];
  vector<Gadget> G; for (auto& t : split(p[6], ' ')) if (!t.empty()) { auto c = split(t, ':'); auto ab = ints(c[1]); G.push_back({stoi(c[0]), ab[0], ab[1]}); }
  unsigned N = D + 2 * (unsigned)G.size() + 2;
  Grow w(p[1], how == 'i' ? N : how == 'n' ? 0 : D / 2);
  bool gb = w.op.graph_backtracking;
  try {
    if (how == 'n') w.grow(N);
    auto gadgets = [&]() {
      for (size_t i = 0; i < G.size(); i++) {
        int y = D + 1 + 2 * i, z = y + 1, a = G[i].a, b = G[i].b;
        if (G[i].kind == 0) { w.add({-a, -b, y}); w.add({-a, -b, -y}); }
        else if (G[i].kind == 1) { w.add({-a, z}); w.add({-z, -b, y}); w.add({-z, -b, -y}); }
        else { w.add({-a, y}); w.add({-y, -b, z}); }
        w.check();
      }
    };
    if (when == 'b') gadgets();
    for (unsigned i = 1; i <= D; i++) {
      if (i == D / 2 + 1 && how == 'h') { w.grow(N); w.check(); }
      if (i == D / 2 + 1 && how == 'm') { for (unsigned v = i; v <= N; v++) w.add({1, (int)v}); w.check(); }
      if (i > w.n) w.grow(i);
      if (get_status(w.s) == status::SAT || get_status(w.s) == status::UNSAT) break;
      if (!w.prop()) break;
      if (w.val((int)i)) continue;
      bool as = gb && (pat == 'a' || (pat == 'x' && i % 2));
      if (as) { cnt().transitions++; bool r = add_assumption(w.s, L((int)i)); if (r) w.assumed.insert((int)i); else { bool ok = false; for (auto& g : G) if (g.kind < 2 && (g.a == (int)i || g.b == (int)i)) ok = true; REQ(ok, "assumption " + std::to_string(i) + " refused although it is consistent with the clauses and the other assumptions"); } }
      else { cnt().transitions++; decide(w.s, L((int)i)); REQ(w.val((int)i) == 1, "decided literal " + std::to_string(i) + " is not true"); }
    }
    w.check();
    if (when == 'e') gadgets();
    if (get_status(w.s) == status::UNKNOWN) { if (w.prop()) w.fixpoint(); w.check(); }
    if (gb && !w.op.restarts && pat == 'd' && get_status(w.s) != status::UNSAT) {
      // only decisions named by a gadget were undone
      std::set<int> named; for (auto& g : G) if (g.kind < 2) { named.insert(g.a); named.insert(g.b); }
      for (unsigned i = 1; i <= D; i++) if (!named.count((int)i)) REQ(w.val((int)i) == 1, "decision " + std::to_string(i) + " was undone although no conflict depends on it");
    }
    std::set<int> forced;
    auto verdict = [&]() {
      cnt().transitions++; status r = solve(w.s); w.check(); bool un = false;
      auto on = [&](int x) { return w.assumed.count(x) || forced.count(x); };
      for (auto& g : G) if (g.kind < 2 && on(g.a) && on(g.b)) un = true;
      REQ(r == (un ? status::UNSAT : status::SAT), "wrong verdict " + st_str(r));
      if (r == status::SAT) w.model();
      else { cnt().nontrivial++; if (gb && !w.assumed.empty()) { std::set<int> c; for (Tlit l : unsat_core(w.s)) { REQ(w.assumed.count(I(l)), "the failed-assumption core contains a literal that is not assumed"); c.insert(I(l)); } bool ok = false; for (auto& g : G) if (g.kind < 2 && (c.count(g.a) || forced.count(g.a)) && (c.count(g.b) || forced.count(g.b))) ok = true; REQ(ok, "the clauses are satisfiable under the failed-assumption core"); } }
    };
    verdict();
    auto release = [&]() { if (w.assumed.empty()) return; cnt().transitions++; forget_assumption(w.s); w.assumed.clear(); w.check(); verdict(); };
    if (tail == 'u') { release(); for (int x : {G[0].a, G[0].b}) { w.add({x}); forced.insert(x); w.check(); } verdict(); }
    else if (tail == 'A' && gb) {
      if (get_status(w.s) != status::UNSAT) for (int x : {G[0].a, G[0].b}) {
        if (get_status(w.s) == status::UNSAT) break;
        bool r = add_assumption(w.s, L(x)); cnt().transitions++; if (r) w.assumed.insert(x); else REQ(w.assumed.count(G[0].a == x ? G[0].b : G[0].a) || G.size() > 1 , "assumption " + std::to_string(x) + " refused although it is consistent with the clauses and the other assumptions"); w.check(); }
      if (get_status(w.s) != status::UNSAT) verdict(); release();
    } else if (tail == 'y' && gb) {
      for (size_t i = 0; i < G.size(); i++) { int y = D + 1 + 2 * i; if (get_status(w.s) == status::UNSAT) break; int x = w.val(y) < 0 ? -y : y; bool r = add_assumption(w.s, L(x)); cnt().transitions++; REQ(r, "assumption of a literal that is true was refused"); w.assumed.insert(x); w.check(); }
      if (get_status(w.s) != status::UNSAT) { w.grow(w.n + 3); w.check(); verdict(); } release();
    } else release();
    cnt().evals++;
  } catch (Bad& b) { return b.what(); }
  return "";
}
// variables mentioned in huge steps, with decisions open in between
static string many(const vector<string>& p) {
  auto st = ints(p[2]); Grow w(p[1], 0); char how = p[3][0];
  try {
    int prev = 0;
    for (int v : st) {
      if (how == 'm') { if (prev) w.add({-prev, v}); else w.add({v, -v, v}); }
      else { w.grow(v); if (prev) w.add({-prev, v}); }
      w.check(); prev = v;
      if (how == 'd' && get_status(w.s) == status::UNKNOWN && w.prop() && w.val(v) == 0) { decide(w.s, L(v == st.back() ? -v : v)); w.check(); }
    }
    status r = solve(w.s); w.check(); REQ(r == status::SAT, "wrong verdict " + st_str(r)); w.model();
    w.add({st[0]}); w.check(); r = solve(w.s); w.check(); REQ(r == status::SAT, "wrong verdict " + st_str(r)); w.model();
    w.add({-prev}); w.check(); r = solve(w.s); w.check(); REQ(r == status::UNSAT, "wrong verdict " + st_str(r)); cnt().nontrivial++; cnt().evals++;
  } catch (Bad& b) { return b.what(); }
  return "";
}
int main(int argc, char** argv) {
  quiet();
  Main m(argc, argv);
  if (m.pos[0] == "deep") {
    auto Ds = ints(m.arg(1)); auto pos = split(m.arg(2), ','); int ng = m.num(3, 1); string grows = m.arg(4), pats = m.arg(5), whens = m.arg(6), tails = m.arg(7); auto cf = cfgs(m.arg(8));
    m.e.gen = [=](auto& want, auto& emit) {
      for (int D : Ds) for (auto& o : cf) {
        std::set<int> P; for (auto& t : pos) { int x = t[0] == 'D' ? D + (t.size() > 1 ? stoi(t.substr(1)) : 0) : stoi(t); if (x >= 1 && x <= D) P.insert(x); }
        vector<string> gs; for (int k = 0; k < 3; k++) for (int a : P) for (int b : P) if (a < b || (k && a != b)) gs.push_back(std::to_string(k) + ":" + std::to_string(a) + "," + std::to_string(b));
        vector<string> sel; if (ng == 1) sel = gs; else for (size_t i = 0; i < gs.size(); i++) for (size_t j = i + 1; j < gs.size(); j++) sel.push_back(gs[i] + " " + gs[j]);
        bool gb = o.find("-gb") != string::npos;
        for (char g : grows) for (char a : pats) for (char wn : whens) for (char t : tails) { if (!gb && (a != 'd' || t == 'A' || t == 'y')) continue; for (auto& s : sel) if (want()) emit("deep;" + o + ";" + std::to_string(D) + ";" + g + ";" + a + ";" + wn + ";" + s + ";" + t); }
      }
    };
  } else {
    auto steps = split(m.arg(1), '/'); auto cf = cfgs(m.arg(2));
    m.e.gen = [=](auto& want, auto& emit) { for (auto& o : cf) for (auto& st : steps) for (char h : string("mnd")) if (want()) emit("many;" + o + ";" + st + ";" + h); };
  }
  m.e.run = [](const string& k) { auto p = split(k, ';'); return p[0] == "deep" ? deep(p) : many(p); };
  return m.finish();
}
