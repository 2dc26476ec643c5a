H = '#include "demo.hpp"\n'
P = 'src/solver/NapSAT-propagation.cpp'
SEEDS = [
dict(id='replacement-search-stops-early', property='C01',
  needs='a clause of at least four literals whose search position has moved, with the only unfalsified literal right before that position',
  breaks='the wrap-around of the replacement search never looks at the last literal before the saved position, so that a clause that is not unit is taken for a unit or falsified one and wrong clauses are learned',
  edits=[(P, '  while (last_look < last_look_save) {', '  while (last_look + 1 < last_look_save) {')],
  cpp=H + r'''
int main() {
  for (unsigned seed = 1; seed < 300; seed++) for (std::string o : {"", "-cb", "-lscb", "-gb"}) {
    int n = 20 + seed % 10; Cnf a = rnd(n, (int) (n * 20.5), 5, seed); if (seed % 3 == 0) a.resize(n * 15);
    Solver S(o, n); S.add(a); status st = solve(S.s); Ref r; bool sat = r.solve(a, n);
    if ((st == status::SAT) != sat) FAIL("seed %u '%s': wrong verdict", seed, o.c_str());
    if (sat && !model_ok(S, a)) FAIL("seed %u '%s': the assignment is no model", seed, o.c_str());
  }
  return 0;
}
'''),
dict(id='replay-starts-late', property='C04',
  needs='graph backtracking that removes a literal in the middle of the trail before a kept literal whose propagation must be replayed',
  breaks='the propagation head is put behind literals that lost their propagation, so that unit or falsified clauses are left behind',
  edits=[('src/solver/NapSAT-backtrack.cpp', '      unsigned loc = min(i, j) - _trail.data();\n', '      unsigned loc = i - _trail.data();\n')],
  cpp=H + r'''
int main() {
  for (unsigned seed = 1; seed < 400; seed++) for (std::string o : {"-gb", "-gb -ecm", "-gb -lcm"}) {
    int n = 16; Cnf a = rnd(n, 62, 3, seed); Solver S(o, n); S.add(a); std::mt19937 g(seed);
    for (int step = 0; step < 60; step++) {
      bool more = propagate(S.s);
      if (get_status(S.s) == status::UNSAT) { Ref r; if (r.solve(a, n)) FAIL("seed %u: wrong verdict", seed); break; }
      for (auto& c : a) { int free = 0; bool sat = false; for (int x : c) { Tval v = get_variable_value(S.s, Tvar(abs(x))); if (v == Tval::UNDEF) free++; else if (S.is_true(x)) sat = true; } if (!sat && free < 2) FAIL("seed %u '%s' step %d: a clause with %d free literals is left after the propagation", seed, o.c_str(), step, free); }
      if (!more) break;
      std::vector<int> u; for (int v = 1; v <= n; v++) if (get_variable_value(S.s, Tvar(v)) == Tval::UNDEF) u.push_back(v);
      if (u.empty()) break;
      int v = u[g() % u.size()]; decide(S.s, L(g() % 2 ? v : -v));
    }
  }
  return 0;
}
'''),
dict(id='subset-skips-block', property='C21',
  needs='two sets of a capacity above 4032 where the larger one has a second-level block behind the last block of the smaller one',
  breaks='the subset test compares words of the wrong block, so that a subset is not recognized',
  edits=[('src/utils/bitset.cpp', '    assert(!count_bits(s) || !equal);\n    it2 += count_bits(s);\n', '    assert(!count_bits(s) || !equal);\n')],
  cpp=H + r'''
#include "src/utils/bitset.hpp"
int main() {
  unsigned cap = 4032 * 4; std::mt19937 g(1);
  for (int t = 0; t < 200; t++) {
    bitset a(cap), b(cap); std::set<unsigned> sa, sb;
    for (int i = 0; i < 6; i++) { unsigned x = g() % cap; b.set(x, true); sb.insert(x); if (g() % 2) { a.set(x, true); sa.insert(x); } }
    if (!(a <= b)) FAIL("a subset is not recognized");
    if ((b <= a) != (sa == sb)) FAIL("a superset is taken for a subset");
    if ((a < b) != (sa != sb)) FAIL("proper subset");
  }
  return 0;
}
'''),
dict(id='last-child-ignored', property='C22',
  needs='a heap where the greater child of the sifted element is the very last element',
  breaks='the last element is not considered when an element moves down, so that the heap may yield a variable that is no maximum',
  edits=[('src/utils/heap.cpp', '''    if (right(i) < _heap.size()
''', '''    if (right(i) + 1 < _heap.size()
''')],
  cpp=H + r'''
#include "src/utils/heap.hpp"
int main() {
  std::mt19937 g(3);
  for (int t = 0; t < 300; t++) {
    napsat::utils::heap h; std::vector<double> act(13); 
    for (int v = 1; v <= 12; v++) { act[v] = g() % 1000; h.insert(Tvar(v), act[v]); }
    std::set<int> in; for (int v = 1; v <= 12; v++) in.insert(v);
    while (!h.empty()) { Tvar v = h.pop(); for (int w : in) if (act[w] > act[v.value]) FAIL("run %d: variable %d is not a maximum", t, (int) v.value); in.erase(v.value); }
  }
  return 0;
}
'''),
dict(id='last-variable-not-resized', property='C31',
  needs='more than 4032 decisions under graph backtracking, the last variable of the problem taking part',
  breaks='the sets of the last variable keep their old capacity when the chunks are doubled',
  edits=[('src/solver/NapSAT-utils.cpp', '''  for (Tvar i = 0; i < _vars.size(); i++) {
    _vars[i].chunks.resize(_n_allocated_chunks);
    _vars[i].cross_chunks.resize(_n_allocated_chunks);
  }

  for (Tchunk''', '''  for (Tvar i = 0; i + 1 < _vars.size().value; i++) {
    _vars[i].chunks.resize(_n_allocated_chunks);
    _vars[i].cross_chunks.resize(_n_allocated_chunks);
  }

  for (Tchunk''')],
  flags='-fsanitize=address', 
  cpp=H + r'''
int main() {
  int n = 4200; Solver S("-gb --restarts off", n);
  S.add(Cl{-4100, -4101, n}); S.add(Cl{-n, -4102, 4103}); S.add(Cl{-n, -4102, -4103});
  propagate(S.s);
  for (int v = 1; v <= 4102; v++) if (get_variable_value(S.s, Tvar(v)) == Tval::UNDEF) { decide(S.s, L(v)); if (!propagate(S.s)) FAIL("propagation stops"); }
  int undone = 0; for (int v = 1; v <= 4099; v++) if (!S.is_true(v)) undone++;
  if (undone) FAIL("%d unrelated decisions undone", undone);
  status st = solve(S.s);
  if (st != status::SAT) FAIL("verdict");
  return 0;
}
'''),
dict(id='premises-survive-deletion', property='C25',
  needs='a learned clause identifier that is deleted and then reused for another learned clause',
  breaks='the dependencies of a deleted clause are inherited by the next clause with the same identifier',
  edits=[('src/proof/dependency_tracker.cpp', '    _clauses[id].in_use = false;\n    _clauses[id].premises.clear();\n', '    _clauses[id].in_use = false;\n')],
  cpp=H + r'''
#include "src/proof/dependency_tracker.hpp"
int main() {
  napsat::proof::dependency_tracker t; for (unsigned i = 0; i < 4; i++) t.add_input(Tclause(i));
  t.add_learned(Tclause(4)); t.link_dependencies(Tclause(4), Tclause(0)); t.link_dependencies(Tclause(4), Tclause(1));
  t.delete_clause(Tclause(4));
  t.add_learned(Tclause(4)); t.link_dependencies(Tclause(4), Tclause(2));
  auto d = t.get_dependencies(Tclause(4));
  if (d.size() != 1 || !d.count(Tclause(2))) FAIL("dependencies of the reused identifier: %zu", d.size());
  return 0;
}
'''),
dict(id='longer-resolvent-accepted', property='C12',
  needs='a chain that derives a clause with more literals than the recorded one, which is a prefix of it',
  breaks='a derivation that leaves literals behind the recorded clause is accepted, so that the empty clause can be derived from anything',
  edits=[('src/proof/proof.cpp', '  if(tmp_lits.size() != c.size) {', '  if(tmp_lits.size() < c.size) {')],
  cpp=H + r'''
#include "src/proof/proof.hpp"
int main() {
  { napsat::proof::resolution_proof p; Tlit a[] = {L(1), L(2)}, b[] = {L(-1), L(2)};
    p.input_clause(Tclause(0), a, 2); p.input_clause(Tclause(1), b, 2);
    p.start_resolution_chain(); p.link_resolution(LIT_UNDEF, Tclause(0)); p.link_resolution(L(1), Tclause(1)); p.finalize_resolution(Tclause(2), nullptr, 0);
    if (p.check_proof()) FAIL("a chain that ends with a unit clause is accepted for the empty clause"); }
  { napsat::proof::resolution_proof p; Tlit a[] = {L(1)}, b[] = {L(-1)};
    p.input_clause(Tclause(0), a, 1); p.input_clause(Tclause(1), b, 1);
    p.start_resolution_chain(); p.link_resolution(LIT_UNDEF, Tclause(0)); p.link_resolution(L(1), Tclause(1)); p.finalize_resolution(Tclause(2), nullptr, 0);
    if (!p.check_proof()) FAIL("a correct proof is rejected"); }
  return 0;
}
'''),
dict(id='truncated-bz2-accepted', property='C18',
  needs='a bz2 archive that is cut off',
  breaks='the decompressed prefix of a truncated archive is solved as if it were the whole file',
  edits=[('src/utils/decoder.cpp', 'bool success = (bzError == BZ_STREAM_END);', 'bool success = (bzError == BZ_STREAM_END || bzError == BZ_UNEXPECTED_EOF);')],
  cpp=H + r'''
#include <bzlib.h>
#include <cstring>
int main() {
  std::string t = "p cnf 2 3\n1 2 0\n-1 0\n-2 0\n"; char buf[4096]; unsigned n = sizeof buf;
  BZ2_bzBuffToBuffCompress(buf, &n, t.data(), t.size(), 1, 0, 0);
  for (unsigned k = 4; k <= n; k++) {
    FILE* f = fopen("x.cnf.bz2", "wb"); fwrite(buf, 1, k, f); fclose(f);
    Solver S("", 0); bool ok = parse_dimacs(S.s, "x.cnf.bz2");
    if (ok != (k == n)) FAIL("%u of %u bytes: parsed=%d", k, n, (int) ok);
  }
  return 0;
}
'''),
dict(id='rejected-option-counts', property='C19',
  needs='an option with an invalid value followed by the same option with a valid one',
  breaks='an occurrence without a usable value makes the later, valid occurrence be ignored',
  edits=[('src/utils/options.cpp', '      if (match->consume(tokens, i))\n        match->mark_set();\n', '      match->consume(tokens, i);\n      match->mark_set();\n')],
  cpp=H + r'''
int main() {
  env::set_suppress_warning(true);
  auto w = words("--clause-elimination-multiplier --clause-elimination-multiplier 3"); options o(w);
  if (o.clause_elimination_multiplier != 3) FAIL("multiplier %g", o.clause_elimination_multiplier);
  return 0;
}
'''),
dict(id='luby-keeps-skip', property='C24',
  needs='at least three completed rounds of the restart sequence',
  breaks='the repetition of the first interval is dropped after the first round, so that the sequence of intervals is wrong',
  edits=[('src/utils/luby-counter.hpp', '''            _next_power_of_two = 1;
            skip = true;
          }
          return true;''', '''            _next_power_of_two = 1;
          }
          return true;''')],
  cpp=H + r'''
#include "src/utils/luby-counter.hpp"
int main() {
  luby_counter c; std::vector<unsigned> gaps; unsigned g = 0;
  while (gaps.size() < 40) { g++; if (c.increment()) { gaps.push_back(g); g = 0; } }
  std::vector<unsigned> want; for (unsigned k = 0; want.size() < 40; k++) { want.push_back(1); for (unsigned j = 0; j <= k; j++) want.push_back(1u << j); }
  // rounds: 1 1 | 1 1 2 | 1 1 2 4 | ... , the very first one without its repetition
  std::string s; for (unsigned x : gaps) s += std::to_string(x) + " ";
  // every round starts with two intervals of one
  for (size_t i = 1; i + 1 < gaps.size(); i++) if (gaps[i] == 1 && gaps[i - 1] > 1 && gaps[i + 1] != 1) FAIL("a round starts with a single interval of one: %s", s.c_str());
  return 0;
}
'''),
dict(id='slot-one-too-small', property='C30',
  needs='a clause that reuses the slot of a deleted clause exactly one literal shorter',
  breaks='the reused slot is one literal too small, and the clause is written beyond its end',
  edits=[('src/solver/NapSAT-clauses.cpp', '  if (_clauses_sizes[cl] < size) {', '  if (_clauses_sizes[cl] + 1 < size) {')],
  flags='-fsanitize=address',
  cpp=H + r'''
int main() {
  for (unsigned seed = 1; seed < 6; seed++) for (std::string o : {"", "-cb", "-gb"}) { int n = 60; Cnf a = rnd(n, 255, 3, seed); Solver S(o, n); S.add(a); for (int i = 0; i < 40 && get_status(S.s) == status::UNKNOWN; i++) solve_limited(S.s, 50); }
  return 0;
}
'''),
dict(id='weights-leave-out-decision', property='C33',
  needs='a conflict with several backtrack possibilities whose order by cost depends on the weights of the decisions, which are synchronised',
  breaks='the cost of a possibility leaves out its lowest decision, so that a more expensive repair is chosen',
  edits=[('src/solver/NapSAT-conflict.cpp', '''    // we go right to left to estimate the cost of backtracking to this level
    size_t end = decision_lit_ptr(w.lowest_level) - _trail.data();''', '''    // we go right to left to estimate the cost of backtracking to this level
    size_t end = decision_lit_ptr(w.lowest_level) - _trail.data() + 1;''')],
  cpp=H + r'''
int main() {
  // the decisions 1 2 3 4 imply 5 and 6, which contradict each other: undoing one of the decisions repairs the conflict
  for (int cheap = 1; cheap <= 4; cheap++) for (int dear = 0; dear < 2; dear++) {
    Solver S("-gb --restarts off", 12); S.add(Cl{-1, -2, -3, -4, 5}); S.add(Cl{-1, -2, -3, -4, -5}); S.add(Cl{-1, 7}); S.add(Cl{-2, 8}); S.add(Cl{-3, 9}); S.add(Cl{-4, 10});
    set_weight_function(S.s, [=](Tlit l) { int v = l.var().value; if (v == cheap) return 10.0; if (v <= 4) return 20.0; return 1.0; });
    propagate(S.s); for (int v = 1; v <= 3; v++) { decide(S.s, L(v)); propagate(S.s); synchronize(S.s); }
    decide(S.s, L(4)); synchronize(S.s); propagate(S.s);
    for (int v = 1; v <= 4; v++) if (v != cheap && !S.is_true(v)) FAIL("the decision %d is undone instead of %d", v, cheap);
  }
  return 0;
}
'''),
dict(id='unit-reasons-not-counted', property='C32',
  needs='an implication by a unit clause', breaks='implications by unit clauses are missing in the statistics',
  edits=[('src/solver/NapSAT-imply.cpp', '    NOTIFY(assign, lit, reason);\n    NOTIFY_STAT(implication);\n', '    NOTIFY(assign, lit, reason);\n    if (size > 1)\n      NOTIFY_STAT(implication);\n')],
  cpp='SKIP'),
]
SEEDS = [s for s in SEEDS if s['cpp'] != 'SKIP']
