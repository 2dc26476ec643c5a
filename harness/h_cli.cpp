// The command-line program, run as a process on real files.
//   small V K maxcl OPTS      every clause set over V variables, as file, for every option string
//   family NAMES drop OPTS    structured formulas with at most one clause left out
//   bad OPTS                  unreadable and malformed inputs
//   usage                     argument lists without an input file, help and version
// Each formula is run with and without --all-models, plain and packed.
#include "dimacs.hpp"
#include <poll.h>
using namespace vf;

struct Out { int rc = -1; bool sig = false, hang = false; string out, err; };
static Out exec(const vector<string>& args, const string& cwd) {
  Out r; int a[2], b[2]; if (pipe(a) || pipe(b)) abort();
  static const char* exe = getenv("NAPSAT_MAIN_dbg") ? getenv("NAPSAT_MAIN_dbg") : getenv("NAPSAT_MAIN_rel") ? getenv("NAPSAT_MAIN_rel") : getenv("NAPSAT_MAIN_asan");
  if (!exe) throw Bad("no executable");
  pid_t pid = fork();
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); if (chdir(cwd.c_str())) _exit(126);
    int dn = open("/dev/null", O_RDONLY); dup2(dn, 0); dup2(a[1], 1); dup2(b[1], 2); for (int i = 3; i < 64; i++) close(i);
    vector<char*> v{(char*)exe}; for (auto& x : args) v.push_back((char*)x.c_str()); v.push_back(nullptr); execv(exe, v.data()); _exit(127);
  }
  close(a[1]); close(b[1]); double t0 = now(); pollfd p[2] = {{a[0], POLLIN, 0}, {b[0], POLLIN, 0}}; int live = 2; char buf[8192];
  while (live) {
    if (now() - t0 > 8 || r.out.size() > (64u << 20)) { r.hang = true; kill(pid, SIGKILL); break; }
    poll(p, 2, 200);
    for (int i = 0; i < 2; i++) if (p[i].fd >= 0 && p[i].revents) { ssize_t n = read(p[i].fd, buf, sizeof buf); if (n > 0) (i ? r.err : r.out).append(buf, n); else { p[i].fd = -1; live--; } }
  }
  close(a[0]); close(b[0]); int st; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) r.sig = true; else r.rc = WEXITSTATUS(st);
  cnt().transitions++;
  return r;
}
static vector<string> words(const string& s) { vector<string> r; for (auto& t : split(s, ' ')) if (!t.empty()) r.push_back(t); return r; }
static bool has(const vector<string>& w, const string& x) { return std::find(w.begin(), w.end(), x) != w.end(); }
static vector<string> verdicts(const string& out) { vector<string> v; for (auto l : split(out, '\n')) { size_t k = l.rfind('\r'); if (k != string::npos) l = l.substr(k + 1); while (!l.empty() && l[0] == ' ') l.erase(0, 1); if (l.substr(0, 2) == "s " || l == "UNKNOWN") v.push_back(l); } return v; }
static size_t count_of(const string& s, const string& x) { size_t n = 0; for (size_t i = s.find(x); i != string::npos; i = s.find(x, i + 1)) n++; return n; }

// mode;ext;text;args        mode: solve, all, bad, args
static string run(const string& key) {
  auto p = split(key, ';'); const string& mode = p[0]; string ext = p[1], txt = unesc(p[2]); auto args = words(p[3]); string cwd = dir();
  try {
    cnt().evals++;
    if (mode == "args") {
      Out o = exec(args, cwd); REQ(!o.hang, "hangs"); REQ(!o.sig, "the program crashes: " + o.err.substr(0, 300));
      int want = std::stoi(ext); REQ(o.rc == want, "exit status " + std::to_string(o.rc) + " instead of " + std::to_string(want)); REQ(verdicts(o.out).empty(), "a verdict is printed");
      REQ(!o.out.empty(), "nothing is printed");
      if (!txt.empty()) for (auto& w : words(txt)) REQ(o.out.find(w) != string::npos, "the output does not mention " + w);
      cnt().nontrivial++; return "";
    }
    string file = cwd + "/f." + ext;
    if (ext == "missing") {}
    else if (ext == "dir") mkdir(file.c_str(), 0700);
    else { string d = mode != "bad" && (ext == "xz" || ext == "bz2") ? pack(ext, txt) : txt; FILE* f = fopen(file.c_str(), "wb"); if (!f) abort(); fwrite(d.data(), 1, d.size(), f); fclose(f); }
    auto rm = [&]() { if (ext == "dir") rmdir(file.c_str()); else unlink(file.c_str()); };
    vector<string> a; if (mode == "all" || p[3].find("--all-models") != string::npos) a.push_back("--all-models"); a.push_back(file); for (auto& x : args) if (x != "--all-models") a.push_back(x);
    if (has(args, "-o") && getenv("VERIF_SRC")) { a.push_back("-icf"); a.push_back(string(getenv("VERIF_SRC")) + "/invariant-configurations/"); }   // normally found next to the installed program
    Out o = exec(a, cwd); rm();
    REQ(!o.hang, "does not terminate within 8 s"); REQ(!o.sig, "the program crashes: " + o.err.substr(0, 300));
    auto v = verdicts(o.out);
    if (mode == "bad") { REQ(o.rc != 0, "exit status 0 for unreadable input"); REQ(o.rc == 1, "exit status " + std::to_string(o.rc) + ": " + o.err.substr(0, 300)); REQ(v.empty(), "a verdict is printed for unreadable input"); REQ(!o.err.empty(), "no error is printed"); cnt().nontrivial++; return ""; }
    REQ(o.rc == 0, "exit status " + std::to_string(o.rc) + ": " + o.err.substr(0, 300));
    REQ(v.size() == 1, std::to_string(v.size()) + " verdict lines");
    Ref r = reference(txt, has(args, "-o")); unsigned n = r.n; bool unsat; uint64_t models = 0;
    if (n <= 12) { Models M(n); for (auto& c : r.F) M.and_clause(c); unsat = M.empty(); models = M.count(); } else unsat = !Dpll(r.F, n).solve();
    bool limited = has(args, "-cl") || has(args, "--conflict-limit");
    if (has(args, "-si")) REQ(o.out.find("INFO:") == string::npos, "information is printed although it is suppressed");
    if (has(args, "-sw")) REQ(o.out.find("WARNING:") == string::npos, "a warning is printed although warnings are suppressed");
    REQ(o.err.find("invalid") == string::npos, "the proof is reported to be invalid");
    REQ(o.err.empty(), "error output: " + o.err.substr(0, 300));
    cnt().outcome[unsat]++; Hash h; h.add(p[2]); h.add(v[0]); h.add(mode); new_state(h.h);
    if (mode == "all") {
      cnt().nontrivial++;
      if (limited && v[0] == "UNKNOWN") { REQ(count_of(o.out, "Model found: ") <= models, "more models announced than there are"); cnt().outcome[4]++; return ""; }
      REQ(v[0] == "s UNSATISFIABLE", "ends with '" + v[0] + "' after all models");
      if (has(args, "-iuv")) return "";
      REQ(count_of(o.out, "Model found: ") == models, std::to_string(count_of(o.out, "Model found: ")) + " models announced instead of " + std::to_string(models));
      for (uint64_t k = 0; k < models; k++) REQ(count_of(o.out, "Model found: " + std::to_string(k) + "\r") == 1, "model " + std::to_string(k) + " is not announced once");
    } else {
      if (limited && v[0] == "UNKNOWN") { cnt().outcome[4]++; return ""; }
      REQ(v[0] == (unsat ? "s UNSATISFIABLE" : "s SATISFIABLE"), "prints '" + v[0] + "'");
      if (unsat) cnt().nontrivial++;
      if (has(args, "-pp") || has(args, "--print-proof")) {
        size_t k = o.out.find(v[0]) + v[0].size() + 1; string t = o.out.substr(std::min(k, o.out.size())), pr; for (auto& l : split(t, '\n')) if (l.find(": (") != string::npos) pr += l + "\n";
        if (unsat) { uint64_t st = 0; string m = verify_proof(pr, r.F, &st); REQ(m.empty(), "printed proof: " + m); cnt().outcome[3]++; } else REQ(pr.empty(), "a proof is printed for a satisfiable formula");
      }
    }
    if (has(args, "-stat")) REQ(o.out.size() > o.out.find(v[0]) + v[0].size() + 20, "no statistics are printed");
  } catch (Bad& b) { return b.what(); }
  return "";
}
static string text_of(const vector<vector<int>>& F, unsigned n) { string s = "p cnf " + std::to_string(n) + " " + std::to_string(F.size()) + "\n"; for (auto& c : F) { for (int l : c) s += std::to_string(l) + " "; s += "0\n"; } return s; }
static void each(const vector<vector<int>>& F, unsigned n, const vector<string>& cf, const std::function<bool()>& want, const EmitFn& emit, bool all) {
  for (auto& o : cf) { for (auto e : {"cnf", "xz", "bz2"}) if (want()) emit(string("solve;") + e + ";" + esc(text_of(F, n)) + ";" + o); if (all && want()) emit("all;cnf;" + esc(text_of(F, n)) + ";" + o); }
}

int main(int argc, char** argv) {
  quiet(); Main m(argc, argv); string mode = m.arg(0);
  if (mode == "small") {
    int V = m.num(1, 2), K = m.num(2, 2), mx = m.num(3, 3); auto cf = cfgs(m.arg(4, ""));
    m.e.gen = [=](auto& want, auto& emit) {
      auto pool = clause_pool(V, K); vector<vector<int>> F;
      std::function<void(int)> rec = [&](int from) { each(F, V, cf, want, emit, true); if ((int)F.size() == mx) return; for (int i = from; i < (int)pool.size(); i++) { F.push_back(pool[i]); rec(i + 1); F.pop_back(); } };
      rec(0);
    };
  } else if (mode == "family") {
    auto fs = split(m.arg(1), ','); int drop = m.num(2, 1); auto cf = cfgs(m.arg(3, ""));
    m.e.gen = [=](auto& want, auto& emit) { for (auto& f : fs) { auto F = family(f); unsigned n = max_var(F); for (int d = -1; d < (drop ? (int)F.size() : 0); d++) { auto G = F; if (d >= 0) G.erase(G.begin() + d); each(G, n, cf, want, emit, n <= 6); } } };
  } else if (mode == "bad") {
    auto cf = cfgs(m.arg(1, ""));
    m.e.gen = [=](auto& want, auto& emit) {
      string xz = pack("xz", sized(100)), bz = pack("bz2", sized(100));
      for (auto& o : cf) for (string a : {"", " --all-models"}) {
        for (auto e : {"missing", "dir"}) if (want()) emit(string("bad;") + e + ";;" + o + a);
        for (auto t : {"p cnf 2 1\n1 x 0\n", "x", "p cnf\n1 0\n", "p dnf 1 1\n1 0\n", "1 2 3a 0\n", "1 99999999999 0\n", "1 2 0\n-1 0\nabc\n", "--\n", "1 -2147483648 0\n"}) if (want()) emit(string("bad;cnf;") + esc(t) + ";" + o + a);
        for (auto e : {"xz", "bz2"}) { string d = string(e) == "xz" ? xz : bz; if (want()) emit(string("bad;") + e + ";;" + o + a); if (want()) emit(string("bad;") + e + ";" + esc("p cnf 1 1\n1 0\n") + ";" + o + a); for (size_t k = 1; k < d.size(); k++) if (want()) emit(string("bad;") + e + ";" + esc(d.substr(0, k)) + ";" + o + a); }
      }
    };
  } else if (mode == "usage") {
    m.e.gen = [=](auto& want, auto& emit) {
      vector<string> names = {"--chronological-backtracking", "-cb", "--lazy-strong-chronological-backtracking", "-lscb", "--graph-backtracking", "-gb", "-lcm", "-ecm", "-bsc", "-bfc", "-del", "-iuv", "-i", "-o", "-c", "-stat", "--check-proof", "-cp", "--print-proof", "-pp", "--record-dependencies", "--restarts", "-bl", "-max-approx-cost", "-sum-approx-cost", "-vsids-approx-cost", "--var-activity-decay", "--clause-elimination-multiplier", "--clause-activity-multiplier", "--clause-activity-threshold-decay", "--chunk-level-penalty", "--backtrack-possibilities-limit", "--sync-weight", "--timeout", "--conflict-limit"};
      string all; for (auto& n : names) all += n + " ";
      auto put = [&](int rc, const string& txt, const string& a) { if (want()) emit("args;" + std::to_string(rc) + ";" + esc(txt) + ";" + a); };
      put(1, "Usage", ""); put(1, "Usage", "--all-models");
      for (auto h : {"-h", "--help"}) { put(0, all, h); put(0, all, string(h) + " x -gb"); }
      for (auto v : {"-v", "--version"}) { put(0, "NapSAT", v); put(0, "NapSAT", string(v) + " x"); }
    };
  } else { fprintf(stderr, "unknown space\n"); return 3; }
  m.e.run = run; make_scratch();
  int rc = m.finish(); drop_scratch(); return rc;
}
