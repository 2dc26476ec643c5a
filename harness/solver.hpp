// Script interpreter over the public API with a semantic oracle evaluated after every operation.
// A script is "options ; number of variables ; op op op ...".
#pragma once
#include "world.hpp"
#include <cmath>

namespace vf {

struct Bad : std::runtime_error { Bad(const string& s) : std::runtime_error(s) {} };
#define REQ(c, msg) do { if (!(c)) throw Bad(msg); } while (0)

inline string capture(const std::function<void()>& f) {
  std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf());
  try { f(); } catch (...) { std::cout.rdbuf(old); throw; }
  std::cout.rdbuf(old); return o.str();
}
// Independent verifier of the printed proof: every line is an input clause or the resolvent of two earlier lines.
inline string verify_proof(const string& txt, const vector<vector<int>>& F, uint64_t* steps = nullptr) {
  typedef std::set<int> C;
  auto pl = [](const string& s) { C c; for (auto& t : split(s, ' ')) if (!t.empty()) c.insert(t[0] == '~' ? -std::stoi(t.substr(1)) : std::stoi(t)); return c; };
  std::set<C> in; for (auto& c : F) in.insert(C(c.begin(), c.end()));
  std::map<string, C> d; bool empty = false;
  std::istringstream is(txt); string l;
  while (getline(is, l)) {
    if (l.empty()) continue;
    size_t a = l.find(": ("), b = a == string::npos ? a : l.find(") [", a);
    if (b == string::npos) return "unreadable proof line: " + l;
    string id = l.substr(0, a); C c = pl(l.substr(a + 3, b - a - 3)); string r = l.substr(b + 3); r.pop_back();
    if (r == "input") { if (!in.count(c)) return "not an input clause: " + l; }
    else {
      if (r.substr(0, 11) != "resolution ") return "unreadable proof line: " + l;
      r = r.substr(11); size_t k = r.find(", "); if (k == string::npos) return "unreadable proof line: " + l;
      string x = r.substr(0, k), y = r.substr(k + 2);
      if (!d.count(x) || !d.count(y)) return "premise not derived before: " + l;
      bool ok = false;
      for (int p : d[x]) if (d[y].count(-p)) { C u = d[x]; u.erase(p); C v = d[y]; v.erase(-p); u.insert(v.begin(), v.end()); if (u == c) ok = true; }
      if (!ok) return "not the resolvent of its premises: " + l;
      if (steps) ++*steps;
    }
    d[id] = c; if (c.empty()) empty = true;
  }
  return empty ? "" : "the empty clause is not derived";
}

// What the notification stream says, re-built independently of the solver.
struct Mirror : sentinel::Hooks {
  struct Cl { vector<int> lits; bool ext = false, alive = false; };
  std::map<unsigned, Cl> cls;
  vector<int> learned_log_size;
  std::map<int, unsigned> asg;            // literal -> reason (~0 = decision)
  vector<int> order;                      // literals in assignment order
  std::set<int> prop, locked;
  std::map<int, unsigned> lvl;            // literal -> level
  unsigned ndec = 0;
  std::set<unsigned> vars;
  // a decision that becomes implied is moved in the trail: the tail is withdrawn and announced again, nothing happened to it
  uint64_t re_ev = 0; int re_x = 0, re = 0, re_left = 0, re_lit = 0;
  uint64_t n_var = 0, n_dec = 0, n_imp = 0, n_prop = 0, n_add = 0, n_lock = 0, n_unlock = 0, n_reorder = 0, n_del = 0, last_add = 0; unsigned last_add_id = 0;   // for the statistics
  uint64_t events = 0, learned = 0, deleted_cnt = 0, learned_size = 0, shrunk = 0, unassigned = 0, unpropagated = 0;
  // what one backtracking step undoes: a run of unassignments (only levels and propagation marks change in between)
  struct Episode { vector<int> order, undone; std::map<int, unsigned> asg, lvl; std::set<int> locked; } ep;
  char bt = 0; bool ep_on = false, ep_learn = false; unsigned ep_low = 0; std::map<int, unsigned> ep_lvl; unsigned ep_clause = 0; uint64_t n_ep = 0, n_ep_gap = 0, n_ep_jump = 0;
  // graph backtracking chooses the decisions to undo by their cost
  std::function<double(int)> cost; double penalty = 0; bool may_restart = false; uint64_t n_cost = 0, n_choice = 0, n_light = 0, n_cost_skip = 0; bool no_learn = false; string no_learn_why;
  string err;
  vector<string> log; bool keep_log = false;
  // callbacks installed by a harness
  std::function<void(unsigned, const vector<int>&, bool)> on_clause;
  std::function<void(unsigned, int)> on_shrink;
  std::function<void(unsigned)> on_delete;
  std::function<void()> on_invariants;
  std::function<void(int, unsigned)> on_assign;
  std::function<bool()> on_checkpoint;
  std::function<bool(const string&)> parse;
  void bad(const string& s) { if (err.empty()) err = s; }
  void L_(const string& s) { events++; if (keep_log) log.push_back(s); }
  // the decisions undone are those of lightest weight that repair the conflict; without a learned clause, of lightest
  // weight among the repairs that undo the latest decision of the conflict
  void cheapest() {
    no_learn = false;
    vector<int> dec; std::map<int, uint64_t> dep; std::map<int, int> at; size_t pos = 0; std::map<int, size_t> where;
    for (int x : ep.order) where[x] = pos++;
    for (int x : ep.order) if (ep.asg[x] == ~0u && !ep.locked.count(x)) { if (dec.size() == 63) { n_cost_skip++; return; } at[x] = dec.size(); dec.push_back(x); }
    // literals may depend on literals listed later: iterate to the fixpoint
    for (int x : dec) dep[x] = 1ull << at[x];
    for (bool more = true; more;) { more = false; for (int x : ep.order) if (ep.asg[x] != ~0u) { uint64_t d = dep[x]; for (int y : cls[ep.asg[x]].lits) if (y != x && dep.count(-y)) d |= dep[-y]; if (d != dep[x]) { dep[x] = d; more = true; } } }
    vector<uint64_t> F;
    for (auto& [id, c] : cls) if (c.alive) { uint64_t d = 0; bool f = true; for (int y : c.lits) { if (!ep.asg.count(-y)) { f = false; break; } d |= dep[-y]; } if (f && d) F.push_back(d); }
    std::sort(F.begin(), F.end()); F.erase(std::unique(F.begin(), F.end()), F.end());
    if (F.empty()) return;
    uint64_t undone = 0; for (int x : ep.undone) if (at.count(x)) undone |= 1ull << at[x];
    auto weight = [&](uint64_t set) { double w = 0; size_t low = ep.order.size(); for (int d : dec) if (set >> at[d] & 1) low = std::min(low, where[d]); for (int x : ep.order) if (dep[x] & set) w += cost(x); return w + penalty * (ep.order.size() - low); };
    if (may_restart && dec.size() > 1) { bool every = true; for (int d : dec) if (!(undone >> at[d] & 1)) every = false; if (every) { n_cost_skip++; return; } }
    double mine = weight(undone); auto lighter = [](double a, double b) { return a < b - 1e-6 * (1 + std::abs(b)); };
    auto top = [&](uint64_t set) { unsigned l = 0; for (int d : dec) if (set >> at[d] & 1) l = std::max(l, ep.lvl[d]); return l; };
    // the solver has repaired some of the falsified clauses at once: one, when no clause was added by hand
    bool light = false, high = false, known = false; string alt;
    auto family = [&](const vector<uint64_t>& f) {
      uint64_t all = 0; for (uint64_t d : f) { all |= d; if (!(d & undone)) return; }
      if (undone & ~all) return;
      vector<int> ds; for (size_t i = 0; i < dec.size(); i++) if (all >> i & 1) ds.push_back(i);
      vector<uint64_t> hit;
      if (f.size() == 1) { if (undone & (undone - 1)) return; for (int i : ds) hit.push_back(1ull << i); }
      else { if (ds.size() > 12) { known = true; light = true; return; } for (unsigned k = 1; k < (1u << ds.size()); k++) { uint64_t x = 0; for (size_t i = 0; i < ds.size(); i++) if (k >> i & 1) x |= 1ull << ds[i]; bool ok = true; for (uint64_t d : f) if (!(d & x)) ok = false; if (!ok) continue; for (size_t i = 0; i < ds.size() && ok; i++) if (k >> i & 1) { bool need = false; for (uint64_t d : f) if (!(d & x & ~(1ull << ds[i]))) need = true; ok = need; } if (ok) hit.push_back(x); } if (std::find(hit.begin(), hit.end(), undone) == hit.end()) return; }
      known = true; bool l = true, h = true; unsigned hl = 0, mt = top(undone); for (uint64_t x : hit) hl = std::max(hl, top(x)); h = mt == hl;
      if (hit.size() > 1) n_choice++;
      for (uint64_t x : hit) { double w = weight(x); if (lighter(w, mine)) { l = false; if (top(x) == hl) h = false; alt.clear(); for (size_t i = 0; i < dec.size(); i++) if (x >> i & 1) alt += std::to_string(dec[i]) + " "; alt += "of weight " + std::to_string(w); } }
      light |= l; high |= h;
    };
    if (F.size() > 6) { for (uint64_t d : F) family({d}); if (!light && !high) { n_cost_skip++; return; } }
    else for (unsigned k = 1; k < (1u << F.size()); k++) { vector<uint64_t> f; for (size_t i = 0; i < F.size(); i++) if (k >> i & 1) f.push_back(F[i]); family(f); }
    n_cost++; string u; for (int d : dec) if (undone >> at[d] & 1) u += std::to_string(d) + " "; u = "the decisions undone are " + u + "of weight " + std::to_string(mine);
    if (!known) bad(u + ": no minimal repair of falsified clauses");
    else if (light) { n_light++; }
    else if (high) { no_learn = true; no_learn_why = u + ", but " + alt + " is lighter and a clause was learned"; }
    else bad(u + ", but " + alt + " is lighter");
  }
  void flush() {
    if (!ep_on) return;
    ep_on = false; n_ep++;
    std::set<int> u(ep.undone.begin(), ep.undone.end()); unsigned low = ~0u; bool any = false;
    for (int x : ep.undone) { low = std::min(low, ep.lvl[x]); if (ep.asg[x] == ~0u) any = true; }
    if (!any) { bad("backtracking undoes no decision"); return; }
    if (low == 0) bad("backtracking undoes a literal of the root level");
    bool gap = false; for (size_t i = 0, g = 0; i < ep.order.size(); i++) { if (u.count(ep.order[i])) g = 1; else if (g) gap = true; }
    if (gap) n_ep_gap++;
    if (bt == 'n') { if (gap) bad("non-chronological backtracking kept a literal assigned after one that was undone"); }
    if (bt != 'g') for (int x : ep.order) if (!u.count(x) && ep.lvl[x] >= low) bad("backtracking to level " + std::to_string(low - 1) + " kept literal " + std::to_string(x) + " of level " + std::to_string(ep.lvl[x]));
    // what remains is closed: the reason of every literal kept is made of literals kept
    for (int x : ep.order) if (!u.count(x) && ep.asg[x] != ~0u) for (int y : cls[ep.asg[x]].lits) if (y != x && (u.count(-y) || !ep.asg.count(-y))) bad("backtracking kept literal " + std::to_string(x) + " although its reason contains " + std::to_string(y) + ", which is not false any more");
    if (bt == 'g') {
      std::set<int> dep; bool more = true;
      for (int x : ep.undone) if (ep.asg[x] == ~0u) { dep.insert(x); if (ep.locked.count(x)) bad("backtracking undoes the assumption " + std::to_string(x)); }
      while (more) { more = false; for (int x : ep.order) if (!dep.count(x) && ep.asg[x] != ~0u) for (int y : cls[ep.asg[x]].lits) if (y != x && dep.count(-y)) { dep.insert(x); more = true; break; } }
      for (int x : ep.undone) if (!dep.count(x)) bad("graph backtracking undoes literal " + std::to_string(x) + ", which depends on no decision that is undone");
    }
    if (cost) cheapest();
    ep_learn = bt != 'g'; ep_low = low; ep_lvl = ep.lvl; ep_clause = 0;
  }
  // the clause learned right after backtracking tells where the search had to go back to
  void ep_assign(int x, unsigned r) {
    if (!ep_learn) return; ep_learn = false; if (!ep_clause || ep_clause != r + 1) return;
    auto& c = cls[r].lits; unsigned a = 0, b = 0;
    for (int y : c) { if (!ep_lvl.count(-y)) return; if (y == x) a = ep_lvl[-y]; else b = std::max(b, ep_lvl[-y]); }
    n_ep_jump++;
    unsigned want = bt == 'n' ? b : a - 1;
    if (a && ep_low != want + 1) bad("backtracking went back to level " + std::to_string(ep_low - 1) + ", but the learned clause " + cl_str(c) + " asks for level " + std::to_string(want));
  }
  bool add_variable(unsigned v) override { flush(); L_("var " + std::to_string(v)); if (!vars.insert(v).second) bad("variable " + std::to_string(v) + " announced twice"); n_var++; return true; }
  bool add_clause(unsigned id, const sentinel::Tlit* l, unsigned n, bool ext) override {
    flush(); if (no_learn) { if (!ext) bad(no_learn_why); no_learn = false; } if (ep_learn && !ext && !ep_clause) ep_clause = id + 1; else ep_learn = false;
    vector<int> v; for (unsigned i = 0; i < n; i++) v.push_back(Iraw(l[i].value));
    if (keep_log) { auto s = v; std::sort(s.begin(), s.end()); L_("clause " + std::to_string(id) + (ext ? " x " : " l ") + cl_str(s)); } else events++;
    Cl& c = cls[id];
    if (c.alive) bad("clause id " + std::to_string(id) + " announced while still alive");
    c.alive = true; c.ext = ext; c.lits = v; n_add++; last_add = events; last_add_id = id; if (!ext) { learned++; learned_size += n; }
    // the asserting literal itself gains nothing
    if (heur && !ext && !act.empty() && !late) {
      std::map<int, double> now; for (auto& [u, a] : act) now[u] = activity(u);
      // all activities are scaled down when one gets too large
      bool scaled = false; for (auto& [u, a] : act) if (now[u] < a) { scaled = true; if (std::pow(all_decay, -(double)n_undo) < 1e90) bad("the activity of variable " + std::to_string(u) + " went down from " + std::to_string(a) + " to " + std::to_string(now[u])); }
      int still = 0; if (!scaled) for (int x : v) { n_heur_grow++; if (act.count(std::abs(x)) && !(now[std::abs(x)] > act[std::abs(x)]) && ++still > 1) bad("variable " + std::to_string(std::abs(x)) + " is in the learned clause " + cl_str(v) + " but its activity has not grown"); }
      // each conflict weighs more than the one before, by the decay
      if (decay > 0) { double inc = std::pow(decay, -(double)(n_undo - 1)); if (inc < 1e6) for (auto& [u, a] : act) { double k = (now[u] - a) / inc; n_heur_inc++; if (k < -1e-4 || std::abs(k - std::round(k)) > 1e-4) bad("conflict " + std::to_string(n_undo) + " raised the activity of variable " + std::to_string(u) + " from " + std::to_string(a) + " to " + std::to_string(now[u]) + ", which is no multiple of " + std::to_string(inc)); } }
      act = now;
    }
    wat.erase(id); if (on_clause) on_clause(id, v, ext);
    return true;
  }
  bool withdrawn(const vector<int>& c) { for (int l : c) { if (std::find(c.begin(), c.end(), -l) != c.end()) return true; auto i = lvl.find(l); if (i != lvl.end() && i->second == 0) return true; } return false; }
  bool delete_clause(unsigned id) override {
    flush(); ep_learn = false;
    L_("delete " + std::to_string(id)); deleted_cnt++;
    // a clause withdrawn while it is being added (a tautology, a clause satisfied at the root) was never in the solver
    if (last_add + 1 == events && last_add_id == id && withdrawn(cls[id].lits)) { n_add--; if (cls.count(id) && !cls[id].ext) { learned--; learned_size -= cls[id].lits.size(); } } else n_del++;
    if (!cls.count(id) || !cls[id].alive) bad("deletion of clause " + std::to_string(id) + " which is not alive");
    if (on_delete) on_delete(id);
    cls[id].alive = false; return true;
  }
  bool shrink_clause(unsigned id, unsigned l) override {
    flush(); ep_learn = false;
    int x = Iraw(l); L_("shrink " + std::to_string(id) + " " + std::to_string(x)); shrunk++;
    if (!cls.count(id) || !cls[id].alive) { bad("shrink of clause " + std::to_string(id) + " which is not alive"); return true; }
    auto& v = cls[id].lits; auto it = std::find(v.begin(), v.end(), x);
    if (it == v.end()) bad("shrink removes a literal the clause does not have"); else v.erase(it);
    if (on_shrink) on_shrink(id, x);
    return true;
  }
  bool assign(unsigned l, unsigned r) override {
    flush(); int x = Iraw(l); ep_assign(x, r); if (keep_log) L_("assign " + std::to_string(x)); else events++;
    if (asg.count(x) || asg.count(-x)) bad("literal " + std::to_string(x) + " assigned while its variable is assigned");
    if (heur && re == 1 && re_left) undo(); sync_on = false; if (heur && r == ~0u && re != 2 && !by_user) choice(x);
    asg[x] = r; order.push_back(x); if (re == 1) re = 0;
    if (re) { re_lit = x; if (--re_left == 0) re = 0; } else { (r == ~0u ? n_dec : n_imp)++; re_lit = 0; }
    if (r == ~0u) lvl[x] = ++ndec;
    else { unsigned m = 0; if (cls.count(r)) { for (int y : cls[r].lits) if (y != x) { auto i = lvl.find(-y); if (i != lvl.end()) m = std::max(m, i->second); else bad("literal " + std::to_string(x) + " announced with a reason that does not imply it"); } } else bad("literal announced with an unknown reason"); lvl[x] = m; }
    if (on_assign) on_assign(x, r);
    return true;
  }
  // the decisions of the solver: a most active variable, with the polarity of the last synchronization. A conflict synchronizes
  // the whole assignment; where it is not known whether there was one, the old and the new polarity are possible.
  bool heur = false, by_user = false, unsure = false; std::function<bool(int)> may_decide; std::map<int, unsigned> phase; std::map<int, unsigned> occ; std::map<int, double> act; bool was_conflict = false, sync_on = false, late = false; double decay = 0, all_decay = 1; uint64_t n_undo = 0, n_heur_inc = 0; uint64_t n_heur = 0, n_heur_pick = 0, n_heur_exact = 0, n_heur_occ = 0, n_heur_grow = 0;
  double activity(int v) { string t = vd(sentinel::Tvar((unsigned)v)); size_t p = t.find("vsids: "); if (p == string::npos) { bad("the activity of variable " + std::to_string(v) + " is not shown:\n" + t); return 0; } return std::stod(t.substr(p + 7)); }
  unsigned& ph(int v) { return phase.emplace(v, 1u).first->second; }      // bit 0: false is possible, bit 1: true is
  vector<int> before; void undo() { n_undo++; sync_on = was_conflict = true; synced(before, !unsure); }
  void synced(const vector<int>& all, bool sure) { for (int x : all) { unsigned b = x > 0 ? 2 : 1; unsigned& p = ph(std::abs(x)); p = sure ? b : p | b; } }
  void choice(int x) {
    std::map<int, double> now; for (unsigned v : vars) now[v] = activity(v);
    double mine = now[std::abs(x)]; unsigned n = 0; n_heur++;
    for (auto& [v, a] : now) if (!asg.count(v) && !asg.count(-v) && (!may_decide || may_decide(v))) { n++; if (a > mine) bad("the solver decides variable " + std::to_string(std::abs(x)) + " of activity " + std::to_string(mine) + " although variable " + std::to_string(v) + " is open and has activity " + std::to_string(a)); }
    if (n > 1) n_heur_pick++;
    unsigned p = ph(std::abs(x)); if (p != 3) n_heur_exact++; if (!(p & (x > 0 ? 2 : 1))) bad("the solver decides " + std::to_string(x) + " although the polarity of the last synchronization is the opposite");
    if (!was_conflict && !occ.empty()) for (auto& [v, a] : now) { n_heur_occ++; if (a != (double)occ[v]) bad("the activity of variable " + std::to_string(v) + " is " + std::to_string(a) + " but it occurs " + std::to_string(occ[v]) + " times in the clauses added, and there was no conflict"); }
    act = now;
  }
  bool unassign(unsigned l) override {
    int x = Iraw(l); if (heur && !sync_on) { if (re == 1) { if (!re_left) before = order; } else if (!re) { before = order; undo(); } } if (keep_log) L_("unassign " + std::to_string(x)); else events++;
    unassigned++;
    if (bt) { if (!ep_on) { ep_on = true; ep_learn = false; ep.order = order; ep.asg = asg; ep.lvl = lvl; ep.locked = locked; ep.undone.clear(); } ep.undone.push_back(x); }
    if (re == 1) { if (events == re_ev + 1 + re_left) { re_left++; if (x == re_x) { re = 2; ep_on = false; unassigned -= re_left; } } else { re = 0; if (heur && !sync_on) undo(); } }
    if (!asg.count(x)) bad("literal " + std::to_string(x) + " unassigned but not assigned");
    if (asg.count(x) && asg[x] == ~0u) ndec--;
    asg.erase(x); prop.erase(x); lvl.erase(x);
    auto it = std::find(order.begin(), order.end(), x); if (it != order.end()) order.erase(it);
    return true;
  }
  bool propagate(unsigned l) override {
    flush(); ep_learn = no_learn = false; int x = Iraw(l); if (keep_log) L_("propagate " + std::to_string(x)); else events++;
    if (!asg.count(x)) bad("literal " + std::to_string(x) + " propagated but not assigned");
    if (prop.insert(x).second && re_lit != x) n_prop++; if (re_lit == x) re_lit = 0; return true;
  }
  bool unpropagate(unsigned l) override {
    int x = Iraw(l); if (keep_log) L_("unpropagate " + std::to_string(x)); else events++;
    unpropagated++;
    if (!asg.count(x)) bad("literal " + std::to_string(x) + " unpropagated but not assigned");
    prop.erase(x); return true;
  }
  bool update_level(unsigned l, unsigned v) override { if (keep_log) L_("level " + std::to_string(Iraw(l)) + " " + std::to_string(v)); else events++; if (!asg.count(Iraw(l))) bad("level announced for an unassigned literal"); else lvl[Iraw(l)] = v; return true; }
  bool update_reason(unsigned l, unsigned r) override {
    flush(); ep_learn = false;
    int x = Iraw(l); if (keep_log) L_("reason " + std::to_string(x) + " " + std::to_string((int)r)); else events++;
    if (asg.count(x)) { if (asg[x] == ~0u && r != ~0u) { ndec--; n_reorder++; re = 1; re_x = x; re_left = 0; re_ev = events; } if (asg[x] != ~0u && r == ~0u) ndec++; asg[x] = r; } return true;
  }
  // the announced levels are those of the announced decisions and reasons
  string levels() {
    std::set<unsigned> d; unsigned nd = 0;
    for (auto& [x, r] : asg) if (r == ~0u) { nd++; d.insert(lvl[x]); }
    if (nd != ndec) return "decisions miscounted";
    if (nd && (d.size() != nd || *d.begin() != 1 || *d.rbegin() != nd)) return "the decisions are not on levels 1.." + std::to_string(nd);
    for (auto& [x, r] : asg) if (r != ~0u) {
      if (!cls.count(r) || !cls[r].alive) return "the reason of literal " + std::to_string(x) + " is not a live clause";
      unsigned m = 0; bool found = false;
      for (int y : cls[r].lits) { if (y == x) { found = true; continue; } auto i = lvl.find(-y); if (i == lvl.end()) return "the reason of literal " + std::to_string(x) + " does not imply it"; m = std::max(m, i->second); }
      if (!found) return "literal " + std::to_string(x) + " is not in its reason";
      if (m != lvl[x]) return "literal " + std::to_string(x) + " is on level " + std::to_string(lvl[x]) + " but its reason is on level " + std::to_string(m);
    }
    return "";
  }
  // watched literals and their blockers (announced in builds with assertions only)
  std::map<unsigned, std::map<int, int>> wat;
#ifdef NDEBUG
  bool w_on = false;
#else
  bool w_on = true;
#endif
  bool watch(unsigned c, unsigned l) override {
    events++; int x = Iraw(l); if (!cls.count(c) || !cls[c].alive) { bad("watch of clause " + std::to_string(c) + ", which is not alive"); return true; }
    auto& k = cls[c].lits; if (std::find(k.begin(), k.end(), x) == k.end()) bad("clause " + std::to_string(c) + " is watched by a literal it does not have");
    if (!wat[c].emplace(x, 0).second) bad("clause " + std::to_string(c) + " is watched twice by literal " + std::to_string(x)); return true;
  }
  bool unwatch(unsigned c, unsigned l) override { events++; if (!wat.count(c) || !wat[c].erase(Iraw(l))) bad("literal " + std::to_string(Iraw(l)) + " stops watching clause " + std::to_string(c) + ", which it does not watch"); return true; }
  bool block(unsigned c, unsigned b, unsigned l) override {
    events++; if (!w_on) return true;
    int x = Iraw(l), y = Iraw(b); if (!wat.count(c) || !wat[c].count(x)) { bad("blocker given to a literal that does not watch the clause"); return true; }
    wat[c][x] = y; auto& k = cls[c].lits; if (y == x || std::find(k.begin(), k.end(), y) == k.end()) bad("blocker " + std::to_string(y) + " of literal " + std::to_string(x) + " is not another literal of clause " + std::to_string(c)); return true;
  }
  std::function<string(sentinel::Tvar)> vd; std::function<string(sentinel::Tclause)> cd; bool details = false; uint64_t n_details = 0;
  void var_detail(std::function<string(sentinel::Tvar)> f) override { vd = f; }
  void clause_detail(std::function<string(sentinel::Tclause)> f) override { cd = f; }
  // the details shown for a variable and for a clause are those of the announced state
  string check_details(unsigned n) {
    auto has = [](const string& t, const string& l) { return ("\n" + t).find("\n" + l + "\n") != string::npos; };
    auto lit = [](int l) { return Tlit(Tvar((unsigned)std::abs(l)), l > 0 ? 1u : 0u).to_string(); };
    vector<std::multiset<std::pair<unsigned, int>>> wl(2 * n + 2); vector<unsigned> occ(n + 1, 0);
    if (w_on) for (auto& [id, w] : wat) if (cls[id].alive) for (auto& [x, b] : w) wl[std::abs(x) << 1 | (x > 0)].insert({id, b});
    for (auto& [id, c] : cls) if (c.alive) { std::set<int> vs; for (int l : c.lits) vs.insert(std::abs(l)); for (int v : vs) if ((unsigned)v <= n) occ[v]++; }
    for (unsigned v = 1; v <= n; v++) {
      string t = vd(sentinel::Tvar(v)), at = " is not shown for variable " + std::to_string(v) + ":\n" + t; n_details++;
      int x = asg.count((int)v) ? (int)v : asg.count(-(int)v) ? -(int)v : 0;
      if (!has(t, x > 0 ? "value: true" : x < 0 ? "value: false" : "value: undef")) return "the value" + at;
      if (!has(t, !x ? "tags: unassigned" : asg[x] == ~0u ? "tags: decision" : "tags: implied")) return "decided or implied" + at;
      if (x && !has(t, "δ: " + std::to_string(lvl[x]))) return "level " + std::to_string(lvl[x]) + at;
      if (x) { size_t p = t.find("ρ: "); string r = t.substr(p + 4, t.find('\n', p) - p - 4); if (asg[x] == ~0u ? r != "undef" : r.substr(0, r.find(':')) != "C" + std::to_string(asg[x])) return "the reason" + at; }
      if (!has(t, string("locked: ") + (x && locked.count(x) ? "true" : "false"))) return "the lock" + at;
      if (!has(t, "n_clauses: " + std::to_string(occ[v]))) return "the number of clauses, " + std::to_string(occ[v]) + "," + at;
      if (w_on) for (int pol = 0; pol < 2; pol++) {
        int l = pol ? (int)v : -(int)v; size_t p = t.find("\nWatch list for " + lit(l) + ":\n"); if (p == string::npos) return "the watch list" + at;
        std::multiset<std::pair<unsigned, int>> got; std::istringstream is(t.substr(t.find('\n', p + 1) + 1)); string ln;
        while (getline(is, ln) && !ln.empty()) { size_t a = ln.find("lause ") + 6, e = ln.find(" with blocking literal "); if (e == string::npos) return "the watch list" + at; unsigned id = std::stoul(ln.substr(a + 1)); int b = 0; string bs = ln.substr(e + 23); for (int y : cls[id].lits) if (lit(y) == bs) b = y; got.insert({id, b}); }
        if (got != wl[v << 1 | pol]) return "the announced watch list of " + std::to_string(l) + at;
      }
    }
    for (auto& [id, c] : cls) if (c.alive) {
      string t = cd(sentinel::Tclause(id)), at = " is not shown for clause " + std::to_string(id) + " (" + cl_str(c.lits) + "):\n" + t; n_details++;
      if (!has(t, "size: " + std::to_string(c.lits.size()))) return "the size" + at;
      string tags = t.substr(0, t.find('\n')); if ((tags.find(" external") != string::npos) != c.ext || tags.find(" deleted") != string::npos) return "the kind" + at;
      size_t p = t.find("\nLiterals:\n"); if (p == string::npos) return "the literals" + at;
      std::istringstream is(t.substr(p + 11)); string ln; std::multiset<string> got, want; while (getline(is, ln)) got.insert(ln.substr(2, ln.find_first_of(" :", 2) - 2)); for (int l : c.lits) want.insert(lit(l)); if (got != want) return "the set of literals" + at;
    }
    return "";
  }
  // ---- the invariants announced for the strategy, at every point where the solver asks for their check --------------
  sentinel::Options so; vector<sentinel::WatchInvariant*> winv; bool inv = false; uint64_t n_inv = 0, n_winv = 0;
  void created(const sentinel::Options& o) override { so = o; }
  void add_watch_invariant(sentinel::WatchInvariant* w) override { winv.push_back(w); }
  void check_inv() {
    if (!inv) return; n_inv++;
    std::map<int, size_t> pos; for (size_t i = 0; i < order.size(); i++) pos[order[i]] = i;
    auto f = [&](const string& s) { bad("invariant violated: " + s); };
    if (so.check_trail_monotonicity) for (size_t i = 1; i < order.size(); i++) if (lvl[order[i]] < lvl[order[i - 1]]) f("the levels of the trail decrease at literal " + std::to_string(order[i]));
    for (int x : order) if (asg[x] != ~0u) {
      unsigned m = 0; for (int y : cls[asg[x]].lits) if (y != x) { if (!pos.count(-y)) { f("the reason of literal " + std::to_string(x) + " does not imply it"); continue; } m = std::max(m, lvl[-y]); if (so.check_topological_order && pos[-y] > pos[x]) f("literal " + std::to_string(x) + " is assigned before literal " + std::to_string(-y) + " of its reason"); }
      if (so.check_implied_levels && m != lvl[x]) f("literal " + std::to_string(x) + " is not on the level of its reason");
    }
    for (auto& [id, c] : cls) if (c.alive) {
      int open = 0, u = 0, falses = 0; for (int l : c.lits) { if (asg.count(-l) && prop.count(-l)) continue; if (asg.count(-l)) falses++; open++; u = l; }
      if (so.check_no_conflicts && open == 0) f("clause " + cl_str(c.lits) + " is falsified");
      if (so.check_no_missed_implications && open == 1 && !asg.count(u)) f("clause " + cl_str(c.lits) + " is unit but its literal " + std::to_string(u) + " is not assigned");
      if (so.check_no_conflicts && open == 1 && falses) f("clause " + cl_str(c.lits) + " is falsified");
    }
    if (w_on) for (auto& [id, c] : cls) if (c.alive && c.lits.size() > 1) {
      auto it = wat.find(id); if (it == wat.end() || it->second.size() != 2) { f("clause " + cl_str(c.lits) + " has " + std::to_string(it == wat.end() ? 0 : it->second.size()) + " watched literals"); continue; }
      auto a = *it->second.begin(), b = *it->second.rbegin();
      for (int k = 0; k < 2; k++) {
        int c1 = k ? b.first : a.first, c2 = k ? a.first : b.first, bl = k ? b.second : a.second; string msg; n_winv++;
        auto enc = [](int l) { return sentinel::Tlit((unsigned)(std::abs(l) << 1 | (l > 0))); };
        string at = "clause " + cl_str(c.lits) + ", watched " + std::to_string(c1) + " and " + std::to_string(c2) + ", blocker " + std::to_string(bl);
        bool used = asg.count(-c1) && prop.count(-c1);
        if (so.check_strong_watched_literals && used && !asg.count(c2) && !asg.count(bl)) f("strong watched literals: " + at);
        if (so.check_weak_watched_literals && used && asg.count(-c2) && prop.count(-c2) && !asg.count(bl)) f("weak watched literals: " + at);
        for (auto* w : winv) if (!w->f(enc(c1), enc(c2), enc(bl), msg)) f(w->name + ": " + at);
      }
    }
  }
  bool lock(unsigned l) override { flush(); L_("lock " + std::to_string(Iraw(l))); n_lock++; locked.insert(Iraw(l)); return true; }
  bool unlock(unsigned l) override { flush(); L_("unlock " + std::to_string(Iraw(l))); n_unlock++; locked.erase(Iraw(l)); return true; }
  bool check_invariants() override { flush(); no_learn = false; events++; check_inv(); if (on_invariants) on_invariants(); return true; }
  bool checkpoint() override { flush(); no_learn = false; events++; if (on_checkpoint) return on_checkpoint(); return true; }
  bool message(const string&, unsigned) override { events++; return true; }
  void parser(sentinel::Tparser* p) override { parse = p->f; }
};

inline string st_str(status s) { return status_to_string(s); }

// ---- statistics: the numbers printed are the numbers of the events that happened ----------------
inline std::map<string, long long> read_stats(NapSAT* s) {
  std::map<string, long long> r; std::istringstream is(capture([&] { print_statistics(s); })); string l;
  while (getline(is, l)) {
    size_t a = l.find("c  - "), b = l.find(": "); if (a != 0 || b == string::npos) continue;
    string name = l.substr(5, b - 5), v; for (char c : l.substr(b + 2)) if (c != ',' && c != ' ') v += c;
    REQ(!r.count(name), "statistic " + name + " is printed twice");
    if (name.find("ime") == string::npos && name.find("Avg") == string::npos) { REQ(!v.empty() && v.find_first_not_of("0123456789") == string::npos, "statistic " + name + " is not a number: " + l); r[name] = std::stoll(v); }
    else if (name.find("Avg") != string::npos) r[name] = (long long)(std::stod(v) * 1000000 + 0.5);
  }
  return r;
}
// restart gaps: 1 | 1 1 2 | 1 1 2 4 | ...
inline uint64_t luby_gap(uint64_t i) { static vector<uint64_t> g; for (static uint64_t k = 1; g.size() < i; k++) { g.push_back(1); for (uint64_t j = 0; j <= k; j++) g.push_back(1ull << j); } return g[i - 1]; }
inline uint64_t luby_restarts(uint64_t conflicts) { uint64_t r = 0; for (uint64_t used = 0;; r++) { used += luby_gap(r + 1); if (used > conflicts) return r; } }
// n_solve < 0: not compared; n_unsat: number of times the run became UNSAT; plain: every clause was added before the first conflict
inline void check_statistics(NapSAT* s, const Mirror& m, const options& op, long long n_solve, uint64_t n_unsat, bool unsat, bool plain) {
  auto t = read_stats(s);
  auto eq = [&](const char* n, uint64_t x) { REQ((uint64_t)t[n] == x, string("statistic \"") + n + "\" is " + std::to_string(t[n]) + " but there were " + std::to_string(x)); };
  if (n_solve >= 0) eq("Solve calls", n_solve);
  eq("Add variable", m.n_var); eq("Add clause", m.n_add); eq("Delete clause", m.n_del); eq("Learned clause", m.learned); eq("Remove literal", m.shrunk);
  eq("Lock assumption", m.n_lock); eq("Unlock assumption", m.n_unlock);
  eq("Decisions", m.n_dec); eq("Implication", m.n_imp); eq("Unassignment", m.unassigned);
  // the announcements do not tell what was propagated after a reordering, nor after a restart that keeps literals
  if (!m.n_reorder && !(op.graph_backtracking && t["Restart"])) eq("Propagation", m.n_prop);
  if (m.learned) REQ(std::llabs(t["Avg learned clause size"] - (long long)(m.learned_size * 1000000 / m.learned)) <= 120000, "the average size of learned clauses is " + std::to_string(t["Avg learned clause size"] / 1e6) + " but they have " + std::to_string(m.learned_size) + " literals in " + std::to_string(m.learned) + " clauses");
  cnt().outcome[25]++; if (t["Conflicts"]) cnt().outcome[26]++; if (m.n_reorder) cnt().outcome[27]++;
  // restarts happen exactly at the conflicts given by the counter; the conflict that ends in UNSAT does not count
  uint64_t c = t["Conflicts"], got = t["Restart"], hi = op.restarts ? luby_restarts(c) : 0, lo = op.restarts ? luby_restarts(c - std::min(c, n_unsat)) : 0;
  REQ(lo <= got && got <= hi, std::to_string(got) + " restarts after " + std::to_string(c) + " conflicts, expected " + std::to_string(hi)); if (got) cnt().outcome[28]++;
  // without clauses that conflict when they are added, the non-chronological strategy learns one clause from each conflict it survives
  if (plain) REQ(m.learned == c || (unsat && m.learned + 1 == c), std::to_string(c) + " conflicts reported but " + std::to_string(m.learned) + " clauses learned");
}
inline char bt_kind(const options& op) { return op.graph_backtracking ? 'g' : op.lazy_strong_chronological_backtracking ? 'l' : op.chronological_backtracking ? 'c' : 'n'; }
inline void count_bt(Mirror& m) { m.flush(); cnt().outcome[48] += m.n_cost; cnt().outcome[49] += m.n_choice; cnt().outcome[50] += m.n_light; cnt().outcome[51] += m.n_cost_skip; m.n_cost = m.n_choice = m.n_light = m.n_cost_skip = 0; cnt().outcome[34] += m.n_ep; cnt().outcome[35] += m.n_ep_gap; cnt().outcome[36] += m.n_ep_jump; m.n_ep = m.n_ep_gap = m.n_ep_jump = 0; }
inline void count_heur(Mirror& m) { cnt().outcome[52] += m.n_heur; cnt().outcome[53] += m.n_heur_pick; cnt().outcome[54] += m.n_heur_exact; cnt().outcome[55] += m.n_heur_occ; cnt().outcome[56] += m.n_heur_grow; cnt().outcome[57] += m.n_heur_inc; m.n_heur_inc = m.n_heur = m.n_heur_pick = m.n_heur_exact = m.n_heur_occ = m.n_heur_grow = 0; }
inline void use_choice(Mirror& m, const options& op) { m.heur = true; m.unsure = op.restarts; m.all_decay = op.var_activity_decay; m.decay = op.restarts ? 0 : m.all_decay; }
inline void use_invariants(Mirror& m) {
  const char* r = getenv("VERIF_REPO"); env::set_invariant_configuration_folder(string(r ? r : "/repo") + "/invariant-configurations/"); m.inv = true;
}
inline void count_inv(Mirror& m) { cnt().outcome[38] += m.n_inv; cnt().outcome[39] += m.n_winv; m.n_inv = m.n_winv = 0; }
inline std::function<double(Tlit)> weight_function(int k) {
  if (k == 1) return [](Tlit) { return 0.0; };
  if (k == 2) return [](Tlit l) { return (double)l.var().value; };
  if (k == 3) return [](Tlit l) { return l.pol() ? 0.0 : 1.0; };
  if (k == 4) return [](Tlit) { return 1e300; };
  return [](Tlit l) { return 1000.0 / (1 + l.var().value); };
}
// the costs are those of the weight function given, by default one per variable
inline void use_cost(Mirror& m, const options& op, const string& flags) {
  std::function<double(Tlit)> w = [](Tlit) { return 1.0; };
  for (char c : flags) if (c >= '1' && c <= '5') w = weight_function(c - '0');
  m.cost = [w](int x) { return w(L(x)); }; m.penalty = op.chunk_level_penalty; m.may_restart = op.restarts;
}
struct World {
  NapSAT* s = nullptr;
  string opts; options op;
  bool gb, iuv, cb;
  unsigned n;                              // variables the oracle tracks (1..n)
  vector<vector<int>> F; vector<unsigned> ids;
  Models M;                                // models of the clauses added so far
  std::set<int> assumed;                   // accepted assumptions still in force
  std::unique_ptr<Mirror> mir;
  string trace;
  Hash fhash;
  bool limit_mode = false;
  // extra oracles, given as "@letters" among the options:
  // 1-5 a weight function, m notification stream, S statistics, B backtracking, D clause database stays equivalent, P proof, K clause core, N number of variables, H choice of decisions
  string flags; bool f_m = false, f_D = false, f_P = false, f_K = false, f_S = false, f_B = false, f_V = false, f_N = false, f_H = false; bool db_dirty = false;
  static string flags_of(const string& o) { for (auto& t : split(o, ' ')) if (!t.empty() && t[0] == '@') return t; return ""; }
  static string opt_text(const string& o) { string f = flags_of(o), r = o; if (f.find('m') != string::npos || f.find('D') != string::npos || f.find('B') != string::npos || f.find('W') != string::npos || f.find('I') != string::npos || f.find('H') != string::npos || f.find('V') != string::npos) r += " -o"; if (f.find('S') != string::npos) r += " -o -stat"; if (f.find('P') != string::npos) r += " -bp"; if (f.find('K') != string::npos) r += " --record-dependencies"; return r; }
  World(const string& o, unsigned n_, bool mirror = false) : opts(o), op(make_options(opt_text(o) + (mirror ? " -o" : ""))), n(n_), M(n_), flags(flags_of(o)) {
    auto has = [&](char c) { return flags.find(c) != string::npos; };
    f_D = has('D'); f_S = has('S'); f_N = has('N'); f_B = has('B') || has('W'); bool f_I = has('I'); f_V = has('V'); f_H = has('H'); f_m = has('m') || f_H || f_D || f_S || f_B || f_I || f_V || mirror; f_P = has('P'); f_K = has('K');
    gb = op.graph_backtracking; iuv = op.ignore_unused_variables; cb = op.chronological_backtracking;
    if (f_m) {
      mir.reset(new Mirror); sentinel::set_hooks(mir.get());
      if (f_B) mir->bt = bt_kind(op);
      if (has('W')) use_cost(*mir, op, flags);
      if (f_I) use_invariants(*mir);
      if (f_H) { use_choice(*mir, op); if (iuv) mir->may_decide = [this](int v) { return used.count(v) > 0; }; }
      if (f_D) {
        mir->on_clause = [this](unsigned id, const vector<int>& c, bool ext) { if (!ext && !M.empty() && !M.entails_clause(c)) mir->bad("learned clause " + cl_str(c) + " does not follow from the input clauses"); };
        mir->on_shrink = [this](unsigned, int l) { db_dirty = true; if (!M.entails_lit(-l)) mir->bad("literal " + std::to_string(l) + " removed from a clause although it can still be true"); };
        mir->on_delete = [this](unsigned) { db_dirty = true; };
      }
    }
    s = create_solver(n, 0, op);
    for (char c : flags) if (c >= '1' && c <= '5') set_weight_function(s, weight(c - '0'));
    if (f_D) mir->on_invariants = [this]() { if (db_dirty) check_db(); };
    else if (f_V) mir->on_invariants = [this]() { if (mir->err.empty()) { auto e = mir->check_details(n); if (!e.empty()) mir->bad(e); } };
  }
  // the live clauses and the root-level literals have exactly the models of the input clauses
  void check_db() {
    db_dirty = false;
    if (st() == status::UNSAT) return;
    Models m(n);
    for (auto& [id, c] : mir->cls) if (c.alive) m.and_clause(c.lits);
    for (int l : trail()) if ((unsigned)std::abs(l) <= n && is_root_level(s, (unsigned)std::abs(l))) m.and_lit(l);
    if (!(m == M)) mir->bad("the clauses kept and the root literals are not equivalent to the input clauses");
    cnt().outcome[20]++;
  }
  // the solver's own view and the notification stream agree
  void check_mirror() {
    if (f_B) count_bt(*mir);
    if (f_H) count_heur(*mir);
    count_inv(*mir);
    if (f_V) { auto e = mir->check_details(n); REQ(e.empty(), e); }
    REQ(mir->err.empty(), "notification stream: " + mir->err);
    auto t = trail();
    REQ(mir->asg.size() == t.size(), "notification stream: " + std::to_string(mir->asg.size()) + " literals assigned according to the notifications, " + std::to_string(t.size()) + " in the solver");
    for (int l : t) {
      REQ(mir->asg.count(l), "notification stream: literal " + std::to_string(l) + " is assigned but was not announced");
      bool d = is_decided(s, L(l)); REQ(d == (mir->asg[l] == ~0u), "notification stream: literal " + std::to_string(l) + (d ? " is a decision but was announced as implied" : " is implied but was announced as a decision"));
    }
    if (st() != status::UNSAT) {
      auto e = mir->levels(); REQ(e.empty(), "notification stream: " + e);
      for (int l : t) REQ(is_root_level(s, (unsigned)std::abs(l)) == (mir->lvl[l] == 0), "notification stream: root level status of literal " + std::to_string(l) + " differs");
    }
    if (f_D) { check_db(); REQ(mir->err.empty(), "notification stream: " + mir->err); }
  }
  // guidance: a suggested polarity is used when a variable is assigned for the first time, by a decision of the solver
  std::map<int, bool> suggested; std::set<int> ever; int by_user = 0;
  void watch_guidance() {
    mir->on_assign = [this](int x, unsigned r) {
      int v = std::abs(x);
      if (r == ~0u && !ever.count(v) && suggested.count(v) && by_user != x) { cnt().outcome[37]++; if (suggested[v] != (x > 0)) mir->bad("the first decision on variable " + std::to_string(v) + " ignores the suggested polarity"); }
      ever.insert(v);
    };
  }
  static std::function<double(Tlit)> weight(int k) { return weight_function(k); }
  void suggest(int l) { note("g" + std::to_string(l)); suggest_polarity(s, L(std::abs(l)), l > 0); if (val(l) == 0) { suggested[std::abs(l)] = l > 0; if (mir) mir->ph(std::abs(l)) = l > 0 ? 2 : 1; } }
  std::set<int> used;      // with unused variables ignored: the variables of the clauses that were not satisfied for good when they were added
  uint64_t n_solve = 0, n_unsat = 0; bool plain = false;
  std::map<string, long long> stats() { return read_stats(s); }
  void check_stats() { check_statistics(s, *mir, op, (long long)n_solve, n_unsat, st() == status::UNSAT, plain && !gb && !cb && !op.lazy_strong_chronological_backtracking); }
  void check_unsat_artifacts() {
    if (f_P && assumed.empty()) {
      bool ok = false; capture([&] { ok = check_proof(s); }); REQ(ok, "the built-in proof checker rejects the proof");
      string t = capture([&] { print_proof(s); }); uint64_t steps = 0; auto m = verify_proof(t, F, &steps); REQ(m.empty(), "printed proof: " + m);
      cnt().outcome[21]++; if (steps) cnt().outcome[22]++;
    }
    if (f_K && gb) {
      auto core = clause_unsat_core(s); Models m(n);
      for (auto id : core) { bool f = false; for (size_t i = 0; i < ids.size(); i++) if (ids[i] == id.value) { f = true; m.and_clause(F[i]); } REQ(f, "the clause core contains " + std::to_string(id.value) + ", which is not the handle of an input clause"); }
      for (int a : assumed) m.and_lit(a);
      REQ(m.empty(), "the clauses of the core are satisfiable"); cnt().outcome[23]++; if (core.size() < F.size()) cnt().outcome[24]++;
    }
  }
  ~World() { if (s) { delete_solver(s); s = nullptr; } static sentinel::Hooks d; sentinel::set_hooks(&d); }
  World(const World&) = delete;

  int val(int v) { Tval t = get_variable_value(s, (unsigned)std::abs(v)); if (t == Tval::UNDEF) return 0; int b = t == Tval::TRUE ? 1 : -1; return v > 0 ? b : -b; }
  vector<int> trail() { vector<int> r; for (Tlit l : get_partial_assignment(s)) r.push_back(I(l)); return r; }
  status st() { return get_status(s); }

  Models with_assumptions() { Models m = M; for (int a : assumed) m.and_lit(a); return m; }

  void note(const string& t) { trace += t + " "; cnt().transitions++; }

  // ---- operations -------------------------------------------------------------------------
  Tclause add(const vector<int>& c, bool incremental = false) {
    note((incremental ? "C" : "c") + cl_str(c));
    unsigned n0 = n; for (int l : c) if ((unsigned)std::abs(l) > n) { M.grow(std::abs(l)); n = std::abs(l); }
    M.and_clause(c); F.push_back(c); for (int l : c) fhash.add((uint64_t)(l + 1000)); fhash.add(1);
    if (iuv) { bool moot = false; for (int l : c) if (std::find(c.begin(), c.end(), -l) != c.end() || ((unsigned)std::abs(l) <= n0 && val(l) == 1 && is_root_level(s, (unsigned)std::abs(l)))) moot = true; if (!moot) for (int l : c) used.insert(std::abs(l)); }
    vector<Tlit> v; for (int l : c) v.push_back(L(l));
    bool un = false; if (f_H) { un = mir->unsure; mir->unsure = true; mir->late |= mir->was_conflict || mir->ndec; mir->act.clear(); for (int l : c) mir->occ[std::abs(l)]++; }
    Tclause id;
    static Tlit none;
    if (incremental) { start_new_clause(s); for (Tlit l : v) push_literal(s, l); id = finalize_clause(s); }
    else id = add_clause(s, v.empty() ? &none : v.data(), (unsigned)v.size());
    if (f_H) mir->unsure = un;
    ids.push_back(id.value);
    return id;
  }
  void newvar() { note("n"); unsigned v = new_variable(s).value; REQ(v == n + 1, "new_variable() returns " + std::to_string(v) + " with " + std::to_string(n) + " variables in the solver"); M.grow(v); n = v; }
  bool prop() {
    note("p");
    bool was = st() == status::UNSAT; bool r = propagate(s); if (!was && st() == status::UNSAT) n_unsat++;
    if (r) REQ(st() == status::UNKNOWN, "propagate() asks for a decision although the status is " + st_str(st()));
    else REQ(st() == status::SAT || st() == status::UNSAT, "propagate() returned false with status " + st_str(st()));
    return r;
  }
  void dec(int l) { note("D" + std::to_string(l)); by_user = l; if (mir) mir->by_user = true; decide(s, L(l)); by_user = 0; if (mir) mir->by_user = false; REQ(val(l) == 1, "decided literal " + std::to_string(l) + " is not true"); REQ(is_decided(s, L(l)), "decided literal is not reported as a decision"); }
  status solve_() { note("s"); n_solve++; bool was = st() == status::UNSAT; status r = solve(s); if (!was && r == status::UNSAT) n_unsat++; REQ(r == st(), "solve() and get_status() disagree"); if (!limit_mode) REQ(r == status::SAT || r == status::UNSAT, "solve() ended with status " + st_str(r)); return r; }

  // ---- oracle -----------------------------------------------------------------------------
  void check_trail() {
    auto t = trail();
    std::set<int> seen;
    for (int l : t) {
      REQ((unsigned)std::abs(l) >= 1, "variable 0 in the assignment");
      REQ((unsigned)std::abs(l) <= n, "variable " + std::to_string(std::abs(l)) + " is assigned but nobody introduced it");
      REQ(!seen.count(l) && !seen.count(-l), "variable " + std::to_string(std::abs(l)) + " occurs twice in the assignment");
      seen.insert(l);
      REQ(val(l) == 1, "literal " + std::to_string(l) + " is listed as assigned but its value differs");
    }
    for (unsigned v = 1; v <= n; v++) if (!seen.count(v) && !seen.count(-(int)v)) REQ(val(v) == 0, "variable " + std::to_string(v) + " has a value but is not in the assignment");
    Hash h; h.add(opts); h.add(fhash.h); h.add((uint64_t)st());
    for (int l : t) { h.add((uint64_t)(l + 1000)); h.add(is_decided(s, L(l)) ? 7 : 3); }
    new_state(h.h);
  }
  // every implied literal follows from the clauses and the decisions listed before it;
  // literals reported at the root follow from the clauses alone
  void check_justified() {
    if (M.empty()) return;
    Models m = M;
    for (int l : trail()) {
      if ((unsigned)std::abs(l) > n) continue;
      bool d = is_decided(s, L(l));
      if (!d) REQ(m.entails_lit(l), "implied literal " + std::to_string(l) + " does not follow from the clauses and the earlier decisions");
      if (is_root_level(s, (unsigned)std::abs(l))) {
        REQ(!d, "decision reported at the root level");
        REQ(M.entails_lit(l), "literal " + std::to_string(l) + " is reported at the root level but does not follow from the clauses");
      }
      m.and_lit(l);
    }
  }
  // after a completed propagation no clause is falsified or unit
  void check_fixpoint() {
    for (auto& c : F) {
      bool sat = false; std::set<int> un;
      for (int l : c) { int v = val(l); if (v == 1) sat = true; else if (v == 0) un.insert(l); }
      for (int l : un) if (un.count(-l)) sat = true;
      if (sat) continue;
      REQ(!un.empty(), "clause " + cl_str(c) + " is falsified after propagation completed");
      REQ(un.size() >= 2, "clause " + cl_str(c) + " is unit after propagation completed");
    }
  }
  void check_verdict() {
    status x = st();
    if (x == status::UNSAT) {
      REQ(with_assumptions().empty(), assumed.empty() ? "reports UNSAT but the clauses are satisfiable" : "reports UNSAT but the clauses are satisfiable under the assumptions");
    } else if (x == status::SAT) {
      Models m = M;
      for (unsigned v = 1; v <= n; v++) {
        int b = val(v);
        if (b == 0) REQ(iuv && !used.count((int)v), "reports SAT but variable " + std::to_string(v) + (iuv ? " of a clause" : "") + " has no value");
        else m.and_lit(b > 0 ? (int)v : -(int)v);
      }
      // when unused variables may be left out, the values given must satisfy every clause on their own
      if (iuv) for (auto& c : F) {
        bool sat = false;
        for (int l : c) if (val(l) == 1 || std::find(c.begin(), c.end(), -l) != c.end()) sat = true;
        REQ(sat, "reports SAT but no literal of clause " + cl_str(c) + " is true");
      }
      for (int a : assumed) REQ(val(a) == 1, "reports SAT but the assumption " + std::to_string(a) + " does not hold in the model");
      REQ(!m.empty(), "reports SAT but the assignment falsifies a clause");
      if (!iuv) REQ(m.count() == 1, "oracle: not a single assignment");
    }
  }
  void check_assumptions_hold() { if (st() != status::UNSAT) for (int a : assumed) REQ(val(a) == 1, "assumption " + std::to_string(a) + " is not true in the current assignment"); }
  // a check valid at any API boundary
  void check() {
    if (f_N) REQ(variables_count(s) == n, "variables_count() is " + std::to_string(variables_count(s)) + " with " + std::to_string(n) + " variables in the solver");
    check_trail(); check_justified(); check_verdict();
    if (mir) check_mirror();
    if (f_S) check_stats();
    if (st() == status::UNSAT) check_unsat_artifacts();
  }
};
}
