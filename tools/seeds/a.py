H = '#include "demo.hpp"\n'
CFG = 'const char* cfgs[] = {"", "-cb", "-lscb", "-gb", "-gb -ecm", "-gb -lcm"};\n'
SEEDS = [
dict(id='reused-input-clause-forgotten', property='C05',
  needs='a clause identifier freed by clause deletion, reused by an input clause added between two solve calls, then a second clause elimination',
  breaks='an input clause that reuses the slot of a deleted learned clause keeps its learned mark and may be deleted as redundant, so that models violating it are accepted',
  edits=[('src/solver/NapSAT-clauses.cpp', '  clause.learned = learned;\n  clause.external = external;', '  clause.learned |= learned;\n  clause.external = external;')],
  cpp=H + r'''
int main() {
  for (unsigned seed = 1; seed < 6; seed++) for (std::string o : {"", "-cb", "-gb"}) {
    Cnf all = php(8, 7); int sel = 57, n = 57 + 50; for (auto& c : all) if (c[0] > 0) c.push_back(-sel);
    Solver S(o + " --clause-elimination-multiplier 1", n); S.add(all); propagate(S.s); decide(S.s, L(sel));
    Cnf more = rnd(50, 175, 3, seed); size_t k = 0;
    status st = status::UNKNOWN;
    for (int i = 0; i < 400 && st == status::UNKNOWN; i++) { st = solve_limited(S.s, 100); for (int j = 0; j < 5 && k < more.size(); j++, k++) { Cl c; for (int x : more[k]) c.push_back(x > 0 ? x + sel : x - sel); all.push_back(c); S.add(c); } }
    st = solve(S.s);
    if (st == status::SAT && !model_ok(S, all)) FAIL("seed %u %s: the assignment violates an input clause", seed, o.c_str());
    if (st == status::UNSAT) { Ref r; if (r.solve(more, 50)) FAIL("wrong verdict"); }
  }
  return 0;
}
'''),
dict(id='core-misses-minimized', property='C10',
  needs='a learned clause from which a literal was removed by self-subsumption, used in the refutation, with dependencies recorded',
  breaks='reasons used to minimize a learned clause are not recorded as dependencies, so that the clause core may be satisfiable',
  edits=[('src/solver/NapSAT-conflict.cpp', '''        _proof->link_resolution(~lit, lit_reason(lit));
      if (_dependency_tracker)
        _dependency_tracker->track_dependency(lit_reason(lit));
    }
  }''', '''        _proof->link_resolution(~lit, lit_reason(lit));
    }
  }''')],
  cpp=H + r'''
int main() {
  for (unsigned seed = 1; seed < 400; seed++) {
    Cnf a = rnd(12, 70, 3, seed);
    Ref r; if (r.solve(a, 12)) continue;
    Solver S("-gb", 12); S.o->record_dependencies = true; delete_solver(S.s); S.s = create_solver(12, 0, *S.o);
    std::vector<Tclause> ids; for (auto& c : a) { std::vector<Tlit> l; for (int x : c) l.push_back(L(x)); ids.push_back(add_clause(S.s, l.data(), l.size())); }
    if (solve(S.s) != status::UNSAT) FAIL("verdict");
    Cnf core; for (Tclause c : clause_unsat_core(S.s)) for (size_t i = 0; i < ids.size(); i++) if (ids[i] == c) core.push_back(a[i]);
    if (r.solve(core, 12)) FAIL("seed %u: the clause core is satisfiable", seed);
  }
  return 0;
}
'''),
dict(id='shared-activity-increment', property='C15',
  needs='two solver instances alive at the same time whose calls interleave, one of them hitting conflicts',
  breaks='the activity increment is shared by all instances, so that the run of one solver depends on what another one did',
  edits=[('src/solver/NapSAT.hpp', '    double _var_activity_increment = 1.0;', '    inline static double _var_activity_increment = 1.0;')],
  cpp=H + r'''
std::vector<int> trace(NapSAT* s, NapSAT* other) {
  std::vector<int> t;
  for (int i = 0; i < 4000; i++) {
    bool more = propagate(s);
    for (Tvar v = 1; v <= 40; v.value++) t.push_back((int) get_variable_value(s, v));
    if (!more) break;
    if (other && get_status(other) == status::UNKNOWN && propagate(other)) decide(other);
    decide(s);
  }
  return t;
}
int main() {
  for (unsigned seed = 1; seed < 30; seed++) {
    Cnf a = rnd(40, 168, 3, seed);
    std::vector<int> x, y;
    { Solver S("", 40); S.add(a); x = trace(S.s, nullptr); }
    { Solver S("", 40), T("-cb", 20); S.add(a); T.add(php(5, 4)); y = trace(S.s, T.s); }
    if (x != y) FAIL("seed %u: the run differs when another instance is active", seed);
  }
  return 0;
}
'''),
dict(id='limit-counter-kept', property='C07',
  needs='at least two limited solve calls on one instance',
  breaks='conflicts of earlier limited calls count towards the limit of later ones, which then stop after a single conflict',
  edits=[('src/solver/NapSAT.cpp', '  _conflict_count = 0;\n', '')],
  cpp=H + r'''
int main() {
  for (std::string o : {"", "-cb", "-gb"}) {
    Solver S(o, 42); S.add(php(7, 6));
    solve_limited(S.s, 40);
    // the second call has 100000 conflicts left, which is plenty
    if (solve_limited(S.s, 100000) != status::UNSAT) FAIL("first");
    Solver T(o, 42); T.add(php(7, 6)); int n = 0;
    while (solve_limited(T.s, 20) == status::UNKNOWN) if (++n > 300) FAIL("%s: limited calls make no progress", o.c_str());
  }
  for (std::string o : {"", "-cb", "-gb"}) {
    int a, b; { Solver S(o, 42); S.add(php(7, 6)); a = 0; while (solve_limited(S.s, 1) == status::UNKNOWN) a++; }
    { Solver S(o, 42); S.add(php(7, 6)); b = 0; while (solve_limited(S.s, 50) == status::UNKNOWN) b++; }
    if (b * 10 > a) FAIL("%s: a limit of 50 needs %d calls, a limit of 1 needs %d", o.c_str(), b, a);
  }
  return 0;
}
'''),
dict(id='first-kept-literal-not-replayed', property='C04',
  needs='chronological backtracking that keeps a literal placed right after the undone decision, which falsifies a clause satisfied by an undone literal only',
  breaks='the first literal kept after a chronological backtrack is not propagated again, so that unit clauses are missed',
  edits=[('src/solver/NapSAT-backtrack.cpp', '    while (_n_propagated_lits > restore_point) {', '    while (_n_propagated_lits > restore_point + 1) {')],
  cpp=H + r'''
int main() {
  for (unsigned seed = 1; seed < 1500; seed++) {
    int n = 20 + seed % 20; Cnf a = rnd(n, n * 4.2, 3, seed);
    Solver S(seed % 2 ? "-lscb" : "-cb", n); S.add(a);
    while (propagate(S.s)) {
      for (auto& c : a) { int u = 0; bool sat = false; for (int x : c) { if (S.is_true(x)) sat = true; else if (!S.is_true(-x)) u++; } if (!sat && u <= 1) FAIL("seed %u: a clause is %s after propagation", seed, u ? "unit" : "falsified"); }
      decide(S.s);
    }
  }
  return 0;
}
'''),
dict(id='assumption-release-keeps-chunk', property='C08',
  needs='graph backtracking; an assumption withdrawn singly while others stay, then a conflict that must undo the withdrawn one',
  breaks='a single withdrawn assumption keeps its chunk locked, so that later conflicts depending on it are answered UNSAT',
  edits=[('src/solver/NapSAT-assumptions.cpp', '''    _locked_chunks -= lit_chunks(assumption);
''', '''    if (_n_assumptions == 1)
      _locked_chunks -= lit_chunks(assumption);
''')],
  cpp=H + r'''
int main() {
  for (unsigned seed = 1; seed < 400; seed++) {
    int n = 14; Cnf a = rnd(n, 54, 3, seed); Ref r;
    Solver S("-gb", n); S.add(a);
    if (!add_assumption(S.s, L(1))) continue;
    if (!add_assumption(S.s, L(-2))) continue;
    solve(S.s);
    if (!forget_assumption(S.s, L(1))) continue;
    status st = solve(S.s);
    bool sat = r.solve(a, n, {-2});
    if ((st == status::SAT) != sat) FAIL("seed %u: wrong verdict under the remaining assumption", seed);
  }
  return 0;
}
'''),
dict(id='purge-proof-skips-units', property='C11',
  needs='chronological backtracking with proofs; a clause that shrinks to a unit clause at a purge',
  breaks='a clause reduced to one literal by a purge gets no resolution step, so the proof derives from a clause it does not justify',
  edits=[('src/solver/NapSAT-purge.cpp', 'if (_proof && previous_size != clause.size) {', 'if (_proof && previous_size != clause.size && clause.size > 2) {')],
  cpp=H + r'''
int main() {
  for (unsigned seed = 1; seed < 600; seed++) for (std::string o : {"", "-cb", "-lscb"}) {
    int n = 16 + seed % 10; Cnf a = rnd(n, n * 5, 3, seed); a.push_back({1, 2, 3, 4, 5}); a.push_back({-1, -2, 6, 7, 8});
    Solver S(o, n); S.o->build_proof = true; delete_solver(S.s); S.s = create_solver(n, 0, *S.o); S.add(a);
    if (solve(S.s) != status::UNSAT) continue;
    if (!check_proof(S.s)) FAIL("seed %u %s: the proof is not valid", seed, o.c_str());
  }
  return 0;
}
'''),
dict(id='level-update-unannounced', property='C13',
  needs='graph backtracking out of the middle of the trail with implied literals on higher levels that remain',
  breaks='observers are not told the new level of implied literals after a backtrack that renumbers levels',
  edits=[('src/solver/NapSAT-backtrack.cpp', '      NOTIFY(update_level, lit, var_level(var));\n    }\n    *(j++)', '      if (var_level(var) != LEVEL_ROOT && lit_decision(lit))\n        NOTIFY(update_level, lit, var_level(var));\n    }\n    *(j++)')],
  cpp=H + r'''
#include <map>
struct W : sentinel::Hooks { std::map<unsigned, unsigned> lvl; std::map<unsigned, std::vector<unsigned>> cl; std::map<unsigned, unsigned> why; unsigned dec = 0; long bad = 0;
  bool add_clause(unsigned id, const sentinel::Tlit* l, unsigned n, bool) override { auto& c = cl[id]; c.clear(); for (unsigned i = 0; i < n; i++) c.push_back(l[i].value); return true; }
  bool assign(unsigned l, unsigned r) override { why[l >> 1] = r; if (r == ~0u) { unsigned d = 1; for (auto& [v, x] : lvl) if (why.count(v) && why[v] == ~0u) d = std::max(d, x + 1); lvl[l >> 1] = d; return true; }
    unsigned m = 0; for (unsigned x : cl[r]) if (x >> 1 != l >> 1) m = std::max(m, lvl.count(x >> 1) ? lvl[x >> 1] : 0); lvl[l >> 1] = m; return true; }
  bool unassign(unsigned l) override { lvl.erase(l >> 1); why.erase(l >> 1); return true; }
  bool update_level(unsigned l, unsigned v) override { lvl[l >> 1] = v; return true; }
  bool update_reason(unsigned l, unsigned r) override { why[l >> 1] = r; return true; }
  bool check_invariants() override { // every implied literal is on the level of its reason
    for (auto& [v, r] : why) if (r != ~0u && cl.count(r)) { unsigned m = 0; bool all = true; for (unsigned x : cl[r]) if (x >> 1 != v) { if (!lvl.count(x >> 1)) all = false; else m = std::max(m, lvl[x >> 1]); } if (all && m != lvl[v]) bad++; }
    unsigned nd = 0; for (auto& [v, r] : why) nd += r == ~0u; for (auto& [v, x] : lvl) if (x > nd) bad++;
    return true; }
};
int main() {
  W w; sentinel::set_hooks(&w);
  for (unsigned seed = 1; seed < 100; seed++) {
    Cnf a = rnd(30, 126, 3, seed); w.lvl.clear(); w.cl.clear(); w.why.clear(); w.bad = 0;
    Solver S("-gb -del off --observing", 30); S.add(a); solve(S.s);
    if (w.bad) FAIL("seed %u: the reported levels are inconsistent (%ld)", seed, w.bad);
  }
  return 0;
}
'''),
]
