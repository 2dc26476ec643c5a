// Two solver instances in one process: every interleaving of their API calls must give each the
// results it has alone.   iso FAMILIES STEPS CFGS_A CFGS_B
#include "spaces.hpp"
using namespace vf;

// One instance as a list of resumable steps; every step returns what the user can observe.
struct Inst {
  string o; vector<vector<int>> F; unsigned n; World* w = nullptr; size_t added = 0; int steps;
  Inst(const string& o_, const string& fam, int steps_) : o(o_), F(family(fam)), n(std::max(1u, max_var(F))), steps(steps_) {}
  ~Inst() { delete w; }
  int total() const { return 1 + 2 + steps + 1 + 1; }     // create, two clause batches, steps, solve, delete
  string view() { string s = st_str(w->st()) + ":"; for (int l : w->trail()) s += std::to_string(l) + (is_decided(w->s, L(l)) ? "d" : "") + (is_root_level(w->s, (unsigned)std::abs(l)) ? "r " : " "); return s; }
  string step(int i) {
    cnt().transitions++;
    if (i == 0) { w = new World(o, n); return "created"; }
    if (i == 1 || i == 2) { size_t to = i == 1 ? F.size() / 2 : F.size(); for (; added < to; added++) w->add(F[added]); return view(); }
    if (i < 3 + steps) { if (w->st() == status::UNKNOWN && w->prop()) { string v = view(); decide(w->s); return v + " > " + view(); } return view(); }
    if (i == 3 + steps) {
      w->solve_(); w->check();
      string v = view();
      if (w->st() == status::UNSAT) {
        if (w->f_P) v += capture([&] { print_proof(w->s); });
        if (w->f_K && w->gb) for (auto c : clause_unsat_core(w->s)) v += " " + std::to_string(c.value);
      }
      if (w->op.print_stats) {}
      return v;
    }
    delete w; w = nullptr; return "deleted";
  }
};
static std::map<string, vector<string>>& solo_cache() { static std::map<string, vector<string>> c; return c; }
static const vector<string>& solo(const string& o, const string& f, int steps) {
  auto& e = solo_cache()[o + ";" + f + ";" + std::to_string(steps)];
  if (e.empty()) { Inst a(o, f, steps); for (int i = 0; i < a.total(); i++) e.push_back(a.step(i)); }
  return e;
}
// the reference must come from a process that never ran another instance: run it in a child
static const vector<string>& fresh_solo(const string& o, const string& f, int steps) {
  auto& e = solo_cache()["fresh " + o + ";" + f + ";" + std::to_string(steps)];
  if (!e.empty()) return e;
  int p[2]; if (pipe(p)) abort();
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]); execl("/proc/self/exe", "h_iso", "solo", f.c_str(), std::to_string(steps).c_str(), o.c_str(), std::to_string(p[1]).c_str(), (char*)nullptr); _exit(9);
  }
  close(p[1]); string got; char b[65536]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) got.append(b, k); close(p[0]); int st; waitpid(pid, &st, 0);
  REQ(WIFEXITED(st) && WEXITSTATUS(st) == 0, "a single instance alone fails");
  e = split(got, '\x01'); return e;
}

int main(int argc, char** argv) {
  quiet();
  if (argc > 5 && string(argv[1]) == "solo") {
    string out; try { auto v = solo(argv[4], argv[2], atoi(argv[3])); for (size_t i = 0; i < v.size(); i++) out += (i ? "\x01" : "") + v[i]; } catch (...) { return 1; }
    int fd = atoi(argv[5]); size_t off = 0; while (off < out.size()) { ssize_t k = write(fd, out.data() + off, out.size() - off); if (k <= 0) return 2; off += k; }
    return 0;
  }
  Main m(argc, argv);
  auto fams = split(m.arg(1), ','); int steps = m.num(2, 2); auto ca = cfgs(m.arg(3)), cb = cfgs(m.arg(4));
  m.e.gen = [=](auto& want, auto& emit) {
    for (auto& fa : fams) for (auto& fb : fams) for (auto& a : ca) for (auto& b : cb) if (want()) emit(a + ";" + b + ";" + fa + ";" + fb + ";" + std::to_string(steps));
  };
  m.e.run = [](const string& key) -> string {
    auto p = split(key, ';'); int steps = std::stoi(p[4]);
    try {
      const auto& ra = fresh_solo(p[0], p[2], steps); const auto& rb = fresh_solo(p[1], p[3], steps);
      Sched sc; bool nt = false;
      do {
        Inst a(p[0], p[2], steps), b(p[1], p[3], steps); int i = 0, j = 0; string tr;
        while (i < a.total() || j < b.total()) {
          bool left = j >= b.total() ? true : i >= a.total() ? false : sc.choose(2) == 0;
          string got = left ? a.step(i) : b.step(j); const string& want = left ? ra[i] : rb[j];
          tr += left ? 'A' : 'B'; (left ? i : j)++;
          REQ(got == want, string("instance ") + (left ? "A" : "B") + " behaves differently after the interleaving " + tr + ": " + got.substr(0, 250) + " instead of " + want.substr(0, 250));
        }
        cnt().evals++; nt = true;
      } while (sc.next());
      if (nt) cnt().nontrivial++;
    } catch (Bad& b) { return b.what(); }
    return "";
  };
  return m.finish();
}
