H = '#include "demo.hpp"\n'
CL = 'src/solver/NapSAT-clauses.cpp'; CO = 'src/solver/NapSAT-conflict.cpp'; IM = 'src/solver/NapSAT-imply.cpp'
FIX = H + r'''
int main() {
  for (unsigned seed = 1; seed < 4000; seed++) for (std::string o : {OPTS}) {
    int n = 12; Cnf a = rnd(n, 14, 3, seed), b = rnd(n, 4, 2, seed + 5); a.insert(a.end(), b.begin(), b.end()); Solver S(o, n); S.add(a); std::mt19937 g(seed); Cnf more = rnd(n, 30, 3, seed + 7777); size_t k = 0;
    for (int step = 0; step < 60; step++) {
      bool go = propagate(S.s);
      if (get_status(S.s) == status::UNSAT) { Ref r; if (r.solve(a, n)) FAIL("seed %u '%s': wrong verdict", seed, o.c_str()); break; }
      for (auto& c : a) { int free = 0; bool sat = false; for (int x : c) { Tval v = get_variable_value(S.s, Tvar(abs(x))); if (v == Tval::UNDEF) free++; else if (S.is_true(x)) sat = true; } if (!sat && free < 2) FAIL("seed %u '%s' step %d: a clause with %d free literals is left after the propagation", seed, o.c_str(), step, free); }
      if (!go) break;
      if (g() % 3 == 0 && k < more.size()) { a.push_back(more[k]); S.add(more[k]); k++; continue; }
      std::vector<int> u; for (int v = 1; v <= n; v++) if (get_variable_value(S.s, Tvar(v)) == Tval::UNDEF) u.push_back(v);
      if (u.empty()) break;
      int v = u[g() % u.size()]; decide(S.s, L(g() % 2 ? v : -v));
    }
  }
  return 0;
}
'''
SEEDS = [
dict(id='deep-rotation-skipped', property='C23',
  needs='a deletion that leaves a left-heavy node whose left child is balanced and whose inner grandchild is the lower one',
  breaks='the tree becomes unbalanced after deletions',
  edits=[('src/utils/partition.cpp', '''      if (node->_left->balance_factor() >= 0)
        node_after_rotation = rotate_right(node);
      // Left right case
      else {
        node->_left = rotate_left(node->_left);
        node_after_rotation = rotate_right(node);
      }
    }
    // Right heavy
    else if (balance < -1) {
      // Right right case
      if (node->_right->balance_factor() <= 0)
        node_after_rotation = rotate_left(node);
      // Right left case
      else {
        node->_right = rotate_right(node->_right);
        node_after_rotation = rotate_left(node);
      }
    }
    else
      continue;
''', '''      if (node->_left->balance_factor() > 0)
        node_after_rotation = rotate_right(node);
      // Left right case
      else {
        node->_left = rotate_left(node->_left);
        node_after_rotation = rotate_right(node);
      }
    }
    // Right heavy
    else if (balance < -1) {
      // Right right case
      if (node->_right->balance_factor() <= 0)
        node_after_rotation = rotate_left(node);
      // Right left case
      else {
        node->_right = rotate_right(node->_right);
        node_after_rotation = rotate_left(node);
      }
    }
    else
      continue;
''')],
  cpp=r'''
#include "src/utils/partition.hpp"
#include <cstdio>
#include <random>
#include <set>
int main() {
  for (unsigned seed = 0; seed < 20000; seed++) {
    std::mt19937 g(seed); utils::AVLTree t; std::set<unsigned> s; int n = 8 + seed % 16;
    for (int i = 0; i < 3 * n; i++) { unsigned k = g() % n + 1; if (i < n || g() % 2) { if (t.insert(k, (void*) (size_t) k)) s.insert(k); } else if (s.erase(k)) t.remove(k, (void*) (size_t) k);
      if (!t.is_balanced()) { printf("FAIL: seed %u step %d: not balanced\n", seed, i); return 1; }
      if (!t.is_bst()) { printf("FAIL: no search tree\n"); return 1; } }
  }
  return 0;
}
'''),
dict(id='tab-not-a-separator', property='C28',
  needs='an interactive command whose words are separated by a tabulator', breaks='commands with tabulators are refused',
  edits=[('src/solver/NapSAT-utils.cpp', "    if (c == ' ' || c == '\\n' || c == '\\0' || c == '\\r' || c == '\\t') {", "    if (c == ' ' || c == '\\n' || c == '\\0' || c == '\\r') {")],
  cpp=H + r'''
struct Hk : sentinel::Hooks { sentinel::Tparser* p = nullptr; void parser(sentinel::Tparser* q) override { p = q; } };
int main() {
  Hk h; sentinel::set_hooks(&h);
  for (std::string sep : {" ", "\t", "  ", " \t "}) {
    Solver S("-o", 3); if (!h.p) { Solver T("-i", 3); if (!h.p) FAIL("no parser"); }
  }
  for (std::string sep : {" ", "\t", "  ", " \t "}) {
    Solver S("-i", 3); if (!h.p->f("DECIDE" + sep + "-2" + sep)) FAIL("refused");
    if (!S.is_true(-2)) FAIL("not decided");
    if (!h.p->f("LEARN" + sep + "2" + sep + "3")) FAIL("refused");
    propagate(S.s); if (!S.is_true(3)) FAIL("not learned");
  }
  return 0;
}
'''),
dict(id='watch-selection-stops-early', property='C03',
  needs='a clause added while its first literal is free, its second falsified and a later one free', breaks='the clause is taken for a unit clause and a wrong literal implied',
  edits=[(CL, '    if (lit_undef(lits[second_index]))\n      break;', '    if (lit_undef(lits[high_index]))\n      break;')],
  cpp=H + r'''
int main() {
  for (std::string o : {"", "-cb", "-gb"}) {
    Solver S(o, 4); decide(S.s, L(2)); propagate(S.s); S.add(Cl{1, -2, 3}); propagate(S.s);
    if (get_variable_value(S.s, Tvar(1)) != Tval::UNDEF || get_variable_value(S.s, Tvar(3)) != Tval::UNDEF) FAIL("'%s': a literal is implied by a clause with two free literals", o.c_str());
  }
  return 0;
}
'''),
dict(id='cross-chunk-not-recorded', property='C04',
  needs='graph backtracking, a clause that is satisfied by a literal of another chunk and becomes unit when that chunk is undone',
  breaks='an implication is never found although the other literals of the clause are falsified',
  edits=[(IM, '''  lit_cross_chunks(c1) |= lit_chunks(c2);

  if (!lit_decision(c2) || lit_locked(c2)) {''', '''  if (!lit_decision(c2) || lit_locked(c2)) {''')],
  cpp=FIX.replace('{OPTS}', '{"-gb --restarts off", "-gb -lcm", "-gb -ecm"}')),
]
