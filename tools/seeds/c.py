H = '#include "demo.hpp"\n'
CL = 'src/solver/NapSAT-clauses.cpp'; CO = 'src/solver/NapSAT-conflict.cpp'
SEEDS = [
dict(id='unit-clauses-not-averaged', property='C32',
  needs='a learned clause of a single literal', breaks='the average size of the learned clauses leaves out the unit clauses',
  edits=[('src/solver/NapSAT-clauses.cpp', '    NOTIFY_STAT_N(_a_learned_clause_size, clause.size);\n', '    if (clause.size > 1)\n      NOTIFY_STAT_N(_a_learned_clause_size, clause.size);\n')],
  cpp=H + """
#include <iostream>
#include <cmath>
int main() {
  for (std::string o : {"", "-cb", "-gb"}) {
    Solver S(o + " -o -stat --restarts off", 6);
    for (Cl c : {Cl{1, 2, 3}, Cl{1, 2, -3}, Cl{1, -2, 3}, Cl{1, -2, -3}}) S.add(c);
    propagate(S.s); decide(S.s, L(-1)); propagate(S.s); decide(S.s, L(-2)); propagate(S.s);
    if (solve(S.s) != status::SAT) FAIL("verdict");
    std::ostringstream out; auto* old = std::cout.rdbuf(out.rdbuf()); print_statistics(S.s); std::cout.rdbuf(old);
    std::string key = "Avg learned clause size: "; size_t p = out.str().find(key); if (p == std::string::npos) FAIL("no average:\\n%s", out.str().c_str());
    double a = atof(out.str().c_str() + p + key.size()); if (std::fabs(a - 1.5) > 0.01) FAIL("'%s': average %g reported instead of 1.5", o.c_str(), a);
  }
  return 0;
}
"""),
dict(id='binary-learned-clause-jumps', property='C27',
  needs='chronological backtracking, a learned clause of exactly two literals on levels that are not adjacent',
  breaks='chronological backtracking undoes more levels than it may after learning a binary clause',
  edits=[('src/solver/NapSAT-backtrack.cpp', '  if (_options.chronological_backtracking) {\n    return lit_level(learned_lits[0]) - 1;', '  if (_options.chronological_backtracking && size != 2) {\n    return lit_level(learned_lits[0]) - 1;')],
  cpp=H + r'''
int main() {
  for (std::string o : {"-cb --restarts off", "-lscb --restarts off"}) {
    Solver S(o, 8); S.add(Cl{-1, -5, 6}); S.add(Cl{-1, -5, -6}); propagate(S.s);
    for (int v : {1, 2, 3, 4, 5}) { decide(S.s, L(v)); propagate(S.s); }
    for (int v : {1, 2, 3, 4}) if (!S.is_true(v)) FAIL("'%s': the decision %d is undone", o.c_str(), v);
    if (!S.is_true(-5)) FAIL("5 is not flipped");
  }
  return 0;
}
'''),
dict(id='last-literal-unconstrained', property='C16',
  needs='the option to ignore unused variables, and a variable that only occurs as the greatest literal of its clauses',
  breaks='a variable that occurs in a clause may stay unassigned',
  edits=[(CL, '    for (unsigned i = 0; i < clause.size; i++)\n      var_mark_constrained(lits[i].var());', '    for (unsigned i = 0; i + 1 < clause.size; i++)\n      var_mark_constrained(lits[i].var());')],
  cpp=H + r'''
int main() {
  for (std::string o : {"", "-cb", "-gb"}) {
    Solver S(o + " --ignore-unused-variables", 6); S.add(Cl{1, 2, 5}); S.add(Cl{-1, 3, -6});
    if (solve(S.s) != status::SAT) FAIL("verdict");
    for (int v : {1, 2, 3, 5, 6}) if (get_variable_value(S.s, Tvar(v)) == Tval::UNDEF) FAIL("'%s': variable %d occurs in a clause and is not assigned", o.c_str(), v);
    if (get_variable_value(S.s, Tvar(4)) != Tval::UNDEF) FAIL("variable 4 is assigned");
  }
  return 0;
}
'''),
dict(id='sync-index-not-lowered', property='C33',
  needs='graph backtracking over synchronised literals, then a synchronisation without anything assigned beyond the earlier length of the trail, then a conflict with a choice',
  breaks='literals assigned after a backtrack are never synchronised, so that undoing them looks free and the more expensive repair is chosen',
  edits=[('src/solver/NapSAT-backtrack.cpp', '      _sync_validity_index = min(_sync_validity_index, (size_t) (j - _trail.data()));\n', '')],
  cpp=H + r'''
int main() {
  Solver S("-gb --restarts off", 8); S.add(Cl{-1, -3, 4}); S.add(Cl{-1, -3, -4}); S.add(Cl{-1, -2, 5}); S.add(Cl{-1, -2, -5});
  set_weight_function(S.s, [](Tlit l) { switch (l.var().value) { case 1: return 20.0; case 2: return 25.0; case 3: return 10.0; default: return 0.0; } });
  suggest_polarity(S.s, L(3), true); propagate(S.s);
  decide(S.s, L(1)); propagate(S.s); synchronize(S.s); decide(S.s, L(3)); synchronize(S.s); propagate(S.s);
  if (!S.is_true(1) || !S.is_true(-3)) FAIL("the first conflict is not repaired by undoing 3");
  synchronize(S.s); decide(S.s, L(2)); synchronize(S.s); propagate(S.s);
  // undoing 1 costs 20 + 10, undoing 2 costs 25
  if (!S.is_true(1) || S.is_true(2)) FAIL("1 is undone at cost 30 instead of 2 at cost 25");
  return 0;
}
'''),
dict(id='blank-line-ends-file', property='C17',
  needs='an empty line in the middle of a DIMACS file', breaks='the clauses after an empty line are ignored',
  edits=[('src/solver/NapSAT-utils.cpp', '''    ltrim(line);
    if (line.empty())
      continue;
''', '''    ltrim(line);
    if (line.empty())
      break;
''')],
  cpp=H + r'''
int main() {
  FILE* f = fopen("x.cnf", "w"); fputs("c x\np cnf 2 4\n1 2 0\n-1 2 0\n\n1 -2 0\n   \n-1 -2 0\n", f); fclose(f);
  Solver S("", 0); if (!parse_dimacs(S.s, "x.cnf")) FAIL("not parsed");
  if (solve(S.s) != status::UNSAT) FAIL("wrong verdict");
  return 0;
}
'''),
dict(id='bump-only-without-proof', property='C14',
  needs='proof recording and conflicts with literals below the conflict level', breaks='the variables of a conflict are bumped differently when a proof is recorded, so that the search differs',
  edits=[(CO, '''    bump_var_activity(lit.var());
    if(lit_is_required_in_learned_clause(lit)) {
      _lit_buffer[_lit_buffer_size++] = ~lit;
    } else {
''', '''    if(lit_is_required_in_learned_clause(lit)) {
      if (!_proof)
        bump_var_activity(lit.var());
      _lit_buffer[_lit_buffer_size++] = ~lit;
    } else {
      bump_var_activity(lit.var());
''')],
  cpp=H + r'''
std::vector<int> trace(std::string o, const Cnf& a, int n) {
  Solver S(o, n); S.add(a); std::vector<int> t;
  for (int i = 0; i < 4000; i++) { bool more = propagate(S.s); for (int v = 1; v <= n; v++) t.push_back((int) get_variable_value(S.s, Tvar(v))); if (!more || !decide(S.s)) break; }
  return t;
}
int main() {
  for (unsigned seed = 1; seed < 8; seed++) for (std::string o : {"", "-cb", "-gb"}) { Cnf a = rnd(90, 390, 3, seed); if (trace(o, a, 90) != trace(o + " --proof", a, 90)) FAIL("seed %u '%s': the run differs when a proof is recorded", seed, o.c_str()); }
  return 0;
}
'''),
dict(id='proof-of-satisfiable-printed', property='C20',
  needs='the option to print the proof, and a satisfiable input', breaks='the program tries to print a proof that does not exist and crashes after its verdict',
  edits=[('main.cpp', '  if (options.print_proof && get_status(solver) == status::UNSAT) {', '  if (options.print_proof && get_status(solver) != status::UNKNOWN) {')],
  sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 3
trap 'rm -rf "$d"' EXIT
flags="-std=c++20 -w -O1 -DNDEBUG -I$repo/include -I$repo -I$here"
(find "$repo/src" -name '*.cpp'; echo "$repo/main.cpp") > "$d/list"
xargs -P 8 -I{} sh -c 'g++ '"$flags"' -c "{}" -o "'"$d"'/$(echo "{}" | md5sum | cut -c1-12).o" || exit 255' < "$d/list" || exit 2
g++ "$d"/*.o -o "$d/napsat" -llzma -lbz2 -lpthread || exit 2
cd "$d"
printf 'p cnf 2 2\\n1 2 0\\n-1 2 0\\n' > sat.cnf
printf 'p cnf 1 2\\n1 0\\n-1 0\\n' > unsat.cnf
for o in "" "-cb" "-gb"; do
  timeout 20 ./napsat sat.cnf $o --print-proof > out 2> err; rc=$?
  [ $rc = 0 ] && grep -q '^s SATISFIABLE' out || { echo "FAIL: satisfiable input with --print-proof $o: exit status $rc"; exit 1; }
  timeout 20 ./napsat unsat.cnf $o --print-proof > out 2> err; rc=$?
  [ $rc = 0 ] && grep -q '^s UNSATISFIABLE' out || { echo "FAIL: unsatisfiable input: exit status $rc"; exit 3; }
done
exit 0
'''),
]
