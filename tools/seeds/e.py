H = '#include "demo.hpp"\n'
SEEDS = [
dict(id='assigned-variables-keep-rank', property='C34',
  needs='a conflict that raises the activity of an assigned variable that has not left the heap yet, which is then unassigned and compared with a variable of an activity in between',
  breaks='the order of the heap is not updated for assigned variables, so the solver decides a variable that is not the most active',
  edits=[('src/solver/NapSAT-utils.cpp', '  if (_variable_heap.contains(var))\n    _variable_heap.increase_activity', '  if (var_undef(var) && _variable_heap.contains(var))\n    _variable_heap.increase_activity')],
  cpp=H + r'''
struct Watch : sentinel::Hooks {
  std::function<std::string(sentinel::Tvar)> d; std::set<int> open; std::string err; long seen = 0;
  void var_detail(std::function<std::string(sentinel::Tvar)> f) override { d = f; }
  double act(int v) { std::string t = d(sentinel::Tvar((unsigned) v)); size_t p = t.find("vsids: "); return p == std::string::npos ? 0 : atof(t.c_str() + p + 7); }
  bool add_variable(unsigned v) override { open.insert(v); return true; }
  bool assign(unsigned l, unsigned r) override {
    int v = l >> 1;
    if (r == ~0u && err.empty()) { seen++; double m = act(v); for (int u : open) if (act(u) > m) err = "variable " + std::to_string(v) + " is decided although variable " + std::to_string(u) + " is open and more active"; }
    open.erase(v); return true;
  }
  bool unassign(unsigned l) override { open.insert(l >> 1); return true; }
};
int main() {
  long n = 0;
  for (unsigned seed = 1; seed < 60; seed++) {
    Watch w; sentinel::set_hooks(&w);
    { Solver S("-o", 30); S.add(rnd(30, 125, 3, seed)); solve(S.s); }
    if (!w.err.empty()) FAIL("seed %u: %s", seed, w.err.c_str());
    n += w.seen;
  }
  if (n < 100) FAIL("no decisions seen");
  return 0;
}
'''),
dict(id='last-literal-not-synchronised', property='C34',
  needs='a variable that is the last of the assignment when it is synchronised, is not yet synchronised with that value, and is unassigned by a conflict without anything assigned after it',
  breaks='the last literal of the assignment is left out of a synchronisation, so that a later decision of the solver on it takes the wrong polarity',
  edits=[('src/solver/NapSAT.cpp', '  for (size_t i = _sync_validity_index; i < _trail.size(); i++) {', '  for (size_t i = _sync_validity_index; i + 1 < _trail.size(); i++) {')],
  cpp=H + r'''
int main() {
  for (std::string o : {"", "-cb", "-gb"}) for (int last = 1; last <= 4; last++) {
    Solver S(o, 4); S.add(Cl{1, 2, 3, 4});
    std::vector<int> seq; for (int v = 1; v <= 4; v++) if (v != last) seq.push_back(v); seq.push_back(last);
    for (int v : seq) if (propagate(S.s)) decide(S.s, L(v));
    propagate(S.s);
    synchronize(S.s);
    // the clause takes back the first decision and, without graph backtracking, everything after it
    S.add(Cl{-seq[0]});
    while (propagate(S.s)) decide(S.s);
    for (int i = 1; i < 4; i++) if (!S.is_true(seq[i])) FAIL("'%s': variable %d was true when it was synchronised, but the solver decides it false", o.c_str(), seq[i]);
  }
  return 0;
}
'''),
]
