// The DIMACS reader on real files, judged by an independent reading of the text and by the set of all models.
//   text ALPHABET len CFGS    every text of exactly len symbols over an alphabet
//   layout CFGS               every choice of separators in small formulas
//   corrupt CFGS              every single-character replacement, deletion and insertion in valid files
//   rep max CFGS              clauses with up to max repeated literals
//   files CFGS                missing, empty, directory and oddly named files
//   twin len CFGS             every text of exactly len lines: the run must not depend on -o, -stat or --proof
//   pack KIND lo hi CFGS      archives of every plain size in [lo, hi]   (KIND xz or bz2)
//   trunc KIND / flip KIND    every truncation / every replacement of one byte of an archive
#include "dimacs.hpp"
using namespace vf;

static const int NV = 6;      // formulas over more variables are compared clause by clause
struct Rec : sentinel::Hooks { vector<vector<int>> ext; std::vector<std::pair<int, string>> al; bool add_clause(unsigned, const sentinel::Tlit* l, unsigned n, bool e) override { if (e) { vector<int> c; for (unsigned i = 0; i < n; i++) c.push_back(Iraw(l[i].value)); ext.push_back(c); } return true; } bool alias(unsigned v, const string& a) override { al.push_back({(int)v, a}); return true; } };

static unsigned fresh() { static int n = -1; if (n < 0) { options op = make_options(""); NapSAT* s = create_solver(0, 0, op); solve(s); n = get_partial_assignment(s).size(); delete_solver(s); } return n; }
static bool subset(const vector<int>& a, const vector<int>& b) { for (int l : a) if (std::find(b.begin(), b.end(), l) == b.end()) return false; return true; }
static bool observed(const string& o) { return (" " + o + " ").find(" -o ") != string::npos; }
static string judge(const string& file, const Ref& r, const string& o, bool must_fail_ok = true) {
  Rec rec; bool obs = observed(o); if (obs) sentinel::set_hooks(&rec);
  options op = make_options(o); NapSAT* s = create_solver(0, 0, op); string m; (void)must_fail_ok;
  auto done = [&](const string& x) { delete_solver(s); static sentinel::Hooks d; sentinel::set_hooks(&d); return x; };
  bool got = parse_dimacs(s, file.c_str()); cnt().transitions++;
  unsigned n = std::max(r.n, fresh()); for (auto& c : r.F) for (int l : c) n = std::max<unsigned>(n, std::abs(l));
  auto sat = [&]() { if (n <= NV) { Models M(n); for (auto& c : r.F) M.and_clause(c); return !M.empty(); } return Dpll(r.F, n).solve(); };
  if (!r.ok) {
    if (got && !(get_status(s) == status::UNSAT && !sat())) return done("the file is accepted although it is malformed");
    if (!got && get_status(s) != status::ERROR) return done("the failure is not recorded in the status");
    return done("");
  }
  if (!got) return done("a well-formed file is rejected");
  if (obs) {
    // every clause announced is one of the file, possibly without literals that were false already; the order is kept
    size_t k = 0; for (auto& c : rec.ext) { while (k < r.F.size() && !subset(c, r.F[k])) k++; if (k == r.F.size()) return done("a clause that is not in the file is added: " + cl_str(c)); k++; }
    // every variable that exists in the end has the name given to it last; no name creates a variable
    std::map<int, string> want, have; for (auto& [v, a] : r.alias) if ((unsigned)v <= n) want[v] = a; for (auto& [v, a] : rec.al) { if ((unsigned)v > n) return done("a variable that does not exist is named"); have[v] = a; }
    if (get_status(s) == status::UNSAT) for (auto& x : rec.al) if (std::find(r.alias.begin(), r.alias.end(), x) == r.alias.end()) return done("the variable names differ");
    if (get_status(s) != status::UNSAT && want != have) return done("the variable names differ");
  }
  if (n <= NV) {
    Models M(n); for (auto& c : r.F) M.and_clause(c);
    bool unsat = M.empty();
    solve(s);
    status x = get_status(s); cnt().outcome[x == status::SAT ? 1 : 2]++;
    if (x != (unsat ? status::UNSAT : status::SAT)) return done("verdict " + st_str(x) + " for the clauses read");
    int rounds = 0;
    while (get_status(s) == status::SAT) {
      if (++rounds > 70) return done("too many models");
      uint64_t a = 0; vector<Tlit> bl; auto t = get_partial_assignment(s); std::set<unsigned> vs; for (Tlit l : t) { vs.insert(l.var().value); if (I(l) > 0) a |= 1ull << (I(l) - 1); bl.push_back(~l); }
      if (vs.size() != n || (n && *vs.rbegin() != n)) return done("the assignment has " + std::to_string(vs.size()) + " variables instead of " + std::to_string(n));
      if (!(M.w[a / 64] >> (a % 64) & 1)) return done("the assignment violates a clause of the file"); M.w[a / 64] &= ~(1ull << (a % 64));
      if (n == 0) break;
      add_clause(s, bl.data(), bl.size()); solve(s);
    }
    if (get_status(s) == status::UNSAT && !M.empty()) return done("a model of the file's clauses is missing");
  } else {
    solve(s); bool ref = sat(); if ((get_status(s) == status::SAT) != ref) return done("wrong verdict");
    if (ref) { std::set<int> t; for (Tlit l : get_partial_assignment(s)) t.insert(I(l)); if (t.size() != n) return done("wrong number of variables"); for (auto& c : r.F) { bool ok = false; for (int l : c) ok |= t.count(l) > 0; if (!ok) return done("the assignment violates clause " + cl_str(c)); } }
  }
  Hash h; for (auto& c : r.F) { for (int l : c) h.add((uint64_t)(l + 1000000)); h.add(7); } h.add(n); new_state(h.h);
  if (!r.F.empty()) cnt().nontrivial++;
  return done("");
}
static bool huge(const string& t) { int d = 0; for (char c : t) { d = isdigit((unsigned char)c) ? d + 1 : 0; if (d > 5) return true; } return false; }
static string text_case(const string& txt, const string& o) { if (huge(txt)) return ""; Ref r = reference(txt, observed(o)); if (r.skip) { cnt().outcome[5]++; return ""; } Tmp t(".cnf", txt); cnt().evals++; cnt().outcome[r.ok ? 3 : 4]++; return judge(t.p, r, o); }

static string history(const string& file, const string& o) {
  Rec rec; bool obs = observed(o); if (obs) sentinel::set_hooks(&rec);
  options op = make_options(o); NapSAT* s = create_solver(0, 0, op); string r = parse_dimacs(s, file.c_str()) ? "read" : "rejected";
  for (int i = 0; i < 40; i++) { bool go = propagate(s); r += " " + st_str(get_status(s)); for (Tlit l : get_partial_assignment(s)) r += " " + std::to_string(I(l)) + (is_decided(s, l) ? "d" : ""); cnt().transitions++; if (!go || !decide(s)) break; r += " |"; }
  delete_solver(s); static sentinel::Hooks d; sentinel::set_hooks(&d); return r;
}
static string twin(const string& txt, const string& o) {
  Tmp t(".cnf", txt); cnt().evals++; string plain = history(t.p, o); Hash h; for (char c : plain) h.add((unsigned char)c); new_state(h.h);
  if (plain.find('|') != string::npos) cnt().nontrivial++;
  for (string x : {" -o", " -o -stat", " --proof", " -o -c --proof"}) { string got = history(t.p, o + x); if (got != plain) return "with" + x + " the run is '" + got.substr(0, 200) + "' instead of '" + plain.substr(0, 200) + "'"; }
  return "";
}

static const char* VALID[] = {"p cnf 3 3\n1 -2 0\n2 3 0\n-1 0\n", "c x\np cnf 2 2\n1 2 0 -1\n-2 0\n", "1 2 0\n-1 -2 0\n%\n0\n", "p cnf 4 2\nc 1 0\n1 1 -3 0\n3 -3 0\n", "cw 1 2.5\nco 2 abc\np cnf 2 1\n-1 2 0\n"};

static string run(const string& key) {
  auto p = split(key, ';'); const string &mode = p[0], &o = p[1];
  if (mode == "text") return text_case(unesc(p[2]), o);
  if (mode == "twin") return twin(unesc(p[2]), o);
  if (mode == "file") {
    cnt().evals++; Ref r; string cwd = dir(); char old[4096]; if (!getcwd(old, sizeof old) || chdir(cwd.c_str())) return "scratch directory";
    string n = p[2], m; bool plain = p[3] == "plain"; string data = "p cnf 2 2\n1 0\n-1 2 0\n"; Ref good = reference(data);
    if (p[3] == "missing") { r.ok = false; m = judge(n, r, o); }
    else if (p[3] == "dir") { mkdir(n.c_str(), 0700); options op = make_options(o); NapSAT* s = create_solver(0, 0, op); bool got = parse_dimacs(s, n.c_str()); (void)got; delete_solver(s); rmdir(n.c_str()); }
    else { string d = plain ? data : p[3] == "empty" ? "" : pack(p[3], data); FILE* f = fopen(n.c_str(), "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f); if (p[3] == "empty") { good = reference(""); good.ok = p[4] == "ok"; } else good.ok = p[4] == "ok"; m = judge(n, good, o); unlink(n.c_str()); }
    if (chdir(old)) return "scratch directory"; return m;
  }
  const string& kind = p[2];
  if (mode == "pack") { string txt = sized(std::stoi(p[3])); if ((int)txt.size() != std::stoi(p[3])) return "generator"; Tmp t("." + kind, pack(kind, txt)); cnt().evals++; Ref r = reference(txt); return judge(t.p, r, o); }
  string txt = sized(std::stoi(p[3])), a = pack(kind, txt); Ref good = reference(txt), bad; bad.ok = false;
  if (mode == "trunc") { size_t k = std::stoi(p[4]); if (k >= a.size()) return ""; Tmp t("." + kind, a.substr(0, k)); cnt().evals++; cnt().nontrivial++; return judge(t.p, bad, o); }
  if (mode == "flip") {
    size_t k = std::stoi(p[4]); if (k >= a.size()) return ""; a[k] ^= std::stoi(p[5]); Tmp t("." + kind, a); cnt().evals++; cnt().nontrivial++;
    options op = make_options(o); NapSAT* s = create_solver(0, 0, op); bool got = parse_dimacs(s, t.p.c_str()); status st = get_status(s); delete_solver(s);
    if (!got) { cnt().outcome[6]++; return st == status::ERROR ? "" : "the failure is not recorded in the status"; }
    cnt().outcome[7]++; return judge(t.p, good, o);       // accepted: then the formula must be the original one
  }
  return "unknown mode";
}

int main(int argc, char** argv) {
  quiet(); Main m(argc, argv); string mode = m.arg(0);
  if (mode == "text") {
    string al = m.arg(1); int len = m.num(2, 4); auto cf = cfgs(m.arg(3, ""));
    vector<string> sy;
    if (al == "chars") sy = {"1", "2", "0", "-", " ", "\n", "c"}; else if (al == "tokens") sy = {"1 ", "-1 ", "2\t", "-2 ", "0 ", "0\n", "\n", "c 1 0\n", " "}; else if (al == "head") sy = {"p cnf 2 2\n", "p cnf", " 3", "\n", "1 0\n", "-1 -2 0 ", "%", "c", "x", "0", "\r"};
    m.e.gen = [=](auto& want, auto& emit) { for (auto& o : cf) { std::function<void(int, string)> rec = [&](int k, string s) { if (!k) { if (want()) emit("text;" + o + ";" + esc(s)); return; } for (auto& x : sy) rec(k - 1, s + x); }; rec(len, ""); } };
  } else if (mode == "twin") {
    int len = m.num(1, 3); auto cf = cfgs(m.arg(2, ""));
    vector<string> sy = {"co 1 a\n", "co 2 b\n", "co 3 c\n", "co 4 d\n", "co 1 x y\n", "cw 3 2\n", "cw 5 1\n", "p cnf 2 3\n", "c z\n", "1 -2 0\n", "-1 3 0\n", "-3 0\n", "-1 -2", " 2 0\n", "x\n", "%\n"};
    m.e.gen = [=](auto& want, auto& emit) { for (auto& o : cf) { std::function<void(int, string)> rec = [&](int k, string s) { if (!k) { if (want()) emit("twin;" + o + ";" + esc(s)); return; } for (auto& x : sy) rec(k - 1, s + x); }; for (int k = 1; k <= len; k++) rec(k, ""); } };
  } else if (mode == "layout") {
    auto cf = cfgs(m.arg(1, "")); vector<string> sep = {" ", "\n", "\t", "  ", " \r\n", "\nc 0 1\n", "\n\n "};
    vector<vector<string>> toks = {{"1", "-2", "0", "2", "0"}, {"-1", "0", "1", "2", "-2", "0"}, {"1", "1", "0", "-1", "2", "0"}, {"0", "1"}, {"1", "2", "0", "-1", "-2"}, {"-1", "-2", "-3", "0", "3"}};
    m.e.gen = [=](auto& want, auto& emit) { for (auto& o : cf) for (auto& t : toks) for (auto head : {"", "p cnf 3 2\n"}) { std::function<void(size_t, string)> rec = [&](size_t k, string s) { if (k == t.size()) { if (want()) emit("text;" + o + ";" + esc(s)); return; } for (auto& x : sep) rec(k + 1, s + t[k] + x); }; rec(0, head); } };
  } else if (mode == "corrupt") {
    auto cf = cfgs(m.arg(1, ""));
    m.e.gen = [=](auto& want, auto& emit) {
      for (auto& o : cf) for (string v : VALID) for (size_t i = 0; i <= v.size(); i++) for (int c = -1; c < 256; c++) for (int ins = 0; ins < 2; ins++) {
        if (ins && c < 0) continue; if (!ins && i == v.size()) continue;
        if (want()) { string s = v; if (c < 0) s.erase(i, 1); else if (ins) s.insert(i, 1, (char)c); else s[i] = (char)c; emit("text;" + o + ";" + esc(s)); } }
    };
  } else if (mode == "rep") {
    int mx = m.num(1, 100); auto cf = cfgs(m.arg(2, ""));
    m.e.gen = [=](auto& want, auto& emit) { for (auto& o : cf) for (int k = 1; k <= mx; k++) for (int v = 0; v < 6; v++) if (want()) { string s = v & 1 ? "p cnf 3 1\n" : ""; for (int i = 0; i < k; i++) s += v / 2 == 0 ? "1 " : v / 2 == 1 ? (i % 2 ? "-1 " : "1 ") : (i % 3 == 0 ? "2 " : i % 3 == 1 ? "-3 " : "1 "); s += "0\n-1 2 0\n"; emit("text;" + o + ";" + esc(s)); } };
  } else if (mode == "files") {
    auto cf = cfgs(m.arg(1, ""));
    m.e.gen = [=](auto& want, auto& emit) {
      vector<string> names = {"a", "ab", "xz", ".xz", "bz2", ".bz2", "a.xz", "a.bz2", "a.cnf", "a.cnf.xz", "a.cnf.bz2", "a.xzz", "axz", "abz2", "a.XZ"};
      auto ends = [](const string& s, const string& x) { return s.size() >= x.size() && s.substr(s.size() - x.size()) == x; };
      for (auto& o : cf) for (auto& n : names) for (string k : {"missing", "dir", "plain", "empty", "xz", "bz2"}) {
        string arch = ends(n, ".xz") ? "xz" : ends(n, ".bz2") ? "bz2" : ""; bool ok = k == "plain" || k == "empty" ? arch.empty() : k == arch;
        if (want()) emit("file;" + o + ";" + n + ";" + k + ";" + (ok ? "ok" : "bad"));
      }
      for (auto& o : cf) for (auto t : {"co 2 abc\nco 1 x=y\np cnf 2 1\n1 2 0\n", "co 4 far\np cnf 2 1\n1 2 0\n", "co 2 a\nco 3 u\nco 3 v\n1 -2 0\nco 2 b\nco 4 w\n3 0\nco 3 z\n-1 0\n", "co 2 late\np cnf 1 2\n1 0\n-1 2 0\n-2 0\nco 1 x\n", "co 2 abc\ncomment 5 z\nco 1 x=y\nco 3\nco 1 2 3\nco q r\nco -1 r\nco 0 s\np cnf 2 1\n1 2 0\n"}) if (("" + o + " ").find("-o ") != string::npos && want()) emit("text;" + o + ";" + esc(t));
      for (auto& o : cf) for (auto t : {"cw 2 3.5\np cnf 3 1\n1 2 0\n", "cw 2 -1\ncw 1\ncw 1 x\ncw x 1\ncw -1 2\ncw 0 2\ncw 1 2 3\ncw 99999999999 1\ncw 1 1e999\ncwx\np cnf 3 2\n1 2 0 -3 0\n", "", "\n\n", "c", "c\nc\n", "p cnf 0 0\n", "p cnf 3 0\n", "p cnf 1 0", "0", "0 0", "p cnf 2 1\n0\n", "p  cnf   3\t2\n1 0\n", "2147483648 0", "-2147483648 0", "1 99999999999999999999 0", "+1 0 -1 +2 0", "1 -0 -1 2 00", "1 0\n-1 0\nx\n", "1 2 0 %\n"}) if (want()) emit("text;" + o + ";" + esc(t));
    };
  } else if (mode == "pack") {
    string kind = m.arg(1); int lo = m.num(2, 64), hi = m.num(3, 1200); auto cf = cfgs(m.arg(4, ""));
    m.e.gen = [=](auto& want, auto& emit) { for (auto& o : cf) for (int k = lo; k <= hi; k++) if (want()) emit("pack;" + o + ";" + kind + ";" + std::to_string(k)); };
  } else if (mode == "trunc" || mode == "flip") {
    string kind = m.arg(1); auto sz = ints(m.arg(2, "100")); auto cf = cfgs(m.arg(3, ""));
    m.e.gen = [=](auto& want, auto& emit) { for (auto& o : cf) for (int k : sz) { size_t n = pack(kind, sized(k)).size(); for (size_t i = 0; i < n; i++) if (mode == "trunc") { if (want()) emit("trunc;" + o + ";" + kind + ";" + std::to_string(k) + ";" + std::to_string(i)); } else for (int x = 1; x < 256; x++) if (want()) emit("flip;" + o + ";" + kind + ";" + std::to_string(k) + ";" + std::to_string(i) + ";" + std::to_string(x)); } };
  } else { fprintf(stderr, "unknown space\n"); return 3; }
  m.e.run = run; make_scratch();
  int rc = m.finish(); drop_scratch(); return rc;
}
