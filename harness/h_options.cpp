// The option parser against a table model written from the documented behaviour (SAT-options.hpp, -h text).
//   seq ALPHABET len     every token sequence of exactly `len` tokens over the named alphabet
#include "solver.hpp"
using namespace vf;

typedef bool options::*BM; typedef double options::*DM;
struct B { vector<string> names; BM f; }; struct D { vector<string> names; DM f; };
static const vector<B> BOOLS = {
  {{"--chronological-backtracking", "-cb"}, &options::chronological_backtracking}, {{"--lazy-strong-chronological-backtracking", "-lscb"}, &options::lazy_strong_chronological_backtracking},
  {{"--graph-backtracking", "-gb"}, &options::graph_backtracking}, {{"--lazy-chunk-merging", "-lcm"}, &options::lazy_chunk_merging}, {{"--eager-chunk-merging", "-ecm"}, &options::eager_chunk_merging},
  {{"--backtrack-smallest-chunk", "-bsc"}, &options::backtrack_smallest_chunk}, {{"--backtrack-first-chunk", "-bfc"}, &options::backtrack_first_chunk}, {{"--delete-clauses", "-del"}, &options::delete_clauses},
  {{"--ignore-unused-variables", "-iuv", "--ignore-unused_variables"}, &options::ignore_unused_variables}, {{"--interactive", "-i"}, &options::interactive}, {{"--observing", "-o"}, &options::observing},
  {{"--check-invariants", "-c"}, &options::check_invariants}, {{"--save-state-on-interrupt", "-ssi"}, &options::save_state_on_interrupt}, {{"--statistics", "-stat"}, &options::print_stats},
  {{"--live-statistics", "-live-stat"}, &options::print_live_stats}, {{"--proof", "-bp"}, &options::build_proof}, {{"--check-proof", "-cp"}, &options::check_proof}, {{"--print-proof", "-pp"}, &options::print_proof},
  {{"--record-dependencies"}, &options::record_dependencies}, {{"--restarts"}, &options::restarts}, {{"--backtrack-learned", "-bl"}, &options::backtrack_learned},
  {{"--use-max-approximate-cost-estimation", "-max-approx-cost"}, &options::use_max_approximate_cost_estimation}, {{"--use-sum-approximate-cost-estimation", "-sum-approx-cost"}, &options::use_sum_approximate_cost_estimation},
  {{"--use-vsids-approximate-cost-estimation", "-vsids-approx-cost"}, &options::use_vsids_approximate_cost_estimation}};
static const vector<D> DOUBLES = {
  {{"--var-activity-decay"}, &options::var_activity_decay}, {{"--clause-elimination-multiplier"}, &options::clause_elimination_multiplier}, {{"--clause-activity-multiplier"}, &options::clause_activity_multiplier},
  {{"--clause-activity-threshold-decay"}, &options::clause_activity_threshold_decay}, {{"--chunk-level-penalty"}, &options::chunk_level_penalty}, {{"--backtrack-possibilities-limit"}, &options::backtrack_possibilities_limit},
  {{"--sync-weight"}, &options::sync_weight}, {{"--timeout", "-t"}, &options::timeout}, {{"--conflict-limit", "-cl"}, &options::conflict_limit}};

static bool number(const string& s, double& v) {   // the whole token is a finite decimal number
  if (s.empty()) return false;
  char* e; errno = 0; v = strtod(s.c_str(), &e); return *e == 0 && errno != ERANGE && !isspace((unsigned char)s[0]);
}
struct Want { options o; bool exits = false; bool sw = false, si = false; string icf, otf; vector<string> sentinel; };

static Want model(vector<string> t) {
  Want w; options& o = w.o;
  // 1. global settings are taken out first
  vector<string> r;
  for (size_t i = 0; i < t.size(); i++) {
    string nx = i + 1 < t.size() ? t[i + 1] : ""; bool val = !nx.empty() && nx[0] != '-';
    bool* g = t[i] == "--suppress-warning" || t[i] == "-sw" ? &w.sw : t[i] == "--suppress-info" || t[i] == "-si" ? &w.si : nullptr;
    string* s = t[i] == "-icf" || t[i] == "--invariant-configuration-folder" ? &w.icf : t[i] == "--obsidian-template-folder" ? &w.otf : nullptr;
    if (g) { if (!val) *g = true; else { i++; if (nx == "on") *g = true; else if (nx == "off") *g = false; } }
    else if (s) { if (val) { *s = nx; i++; } }
    else r.push_back(t[i]);
  }
  t = r;
  // 2. the brace group after the first -o
  for (size_t i = 0; i < t.size(); i++) if (t[i] == "-o" || t[i] == "--observing") {
    if (i + 1 < t.size() && !t[i + 1].empty() && t[i + 1][0] == '{') {
      size_t e = i + 1; while (e < t.size() && (t[e].empty() || t[e].back() != '}')) e++;
      if (e < t.size()) { string j; for (size_t k = i + 1; k <= e; k++) j += (k > i + 1 ? " " : "") + t[k]; std::istringstream is(j.substr(1, j.size() - 2)); string x; while (is >> x) w.sentinel.push_back(x); t.erase(t.begin() + i + 1, t.begin() + e + 1); }
    }
    break;
  }
  // 3. first well-formed occurrence of an option decides its value
  std::set<string> set;
  for (size_t i = 0; i < t.size(); i++) {
    string nx = i + 1 < t.size() ? t[i + 1] : ""; bool val = !nx.empty() && nx[0] != '-';
    for (auto& b : BOOLS) if (std::find(b.names.begin(), b.names.end(), t[i]) != b.names.end()) {
      if (set.count(b.names[0])) break;
      if (!val) { o.*(b.f) = true; set.insert(b.names[0]); }
      else if (nx == "on" || nx == "off") { o.*(b.f) = nx == "on"; set.insert(b.names[0]); i++; }
      break;
    }
    if (i < t.size()) for (auto& d : DOUBLES) if (std::find(d.names.begin(), d.names.end(), t[i]) != d.names.end()) {
      double v; if (set.count(d.names[0])) break;
      if (val && number(nx, v)) { o.*(d.f) = v; set.insert(d.names[0]); i++; }
      break;
    }
  }
  // 4. conflicts, as documented
  if (o.lazy_strong_chronological_backtracking) o.chronological_backtracking = true;
  if (o.graph_backtracking) o.chronological_backtracking = o.lazy_strong_chronological_backtracking = false;
  else o.lazy_chunk_merging = o.eager_chunk_merging = o.backtrack_smallest_chunk = o.backtrack_first_chunk = o.backtrack_learned = o.use_max_approximate_cost_estimation = o.use_sum_approximate_cost_estimation = o.use_vsids_approximate_cost_estimation = false;
  if (o.lazy_chunk_merging) o.eager_chunk_merging = false;
  if (o.backtrack_first_chunk) o.backtrack_smallest_chunk = false;
  if (o.use_max_approximate_cost_estimation) o.use_sum_approximate_cost_estimation = o.use_vsids_approximate_cost_estimation = false;
  if (o.use_sum_approximate_cost_estimation) o.use_vsids_approximate_cost_estimation = false;
  for (size_t i = 0; i + 1 < w.sentinel.size(); i++) if (w.sentinel[i] == "-commands") o.interactive = true;
  if (o.print_proof || o.check_proof) o.build_proof = true;
  if (!o.observing && !o.interactive) o.print_stats = o.print_live_stats = false;
  w.exits = o.clause_activity_threshold_decay < 0 || o.clause_activity_threshold_decay > 1;
  return w;
}

static string run(const string& key) {
  vector<string> t; for (auto x : split(key, ' ')) { if (x[0] == '{') for (char& c : x) if (c == '_') c = ' '; t.push_back(x == "~" ? "" : x); }
  Want w = model(t);
  if (w.exits) {      // documented to end the program
    pid_t q = fork(); if (!q) { auto u = t; auto v = env::extract_environment_variables(u); options o(v); _exit(0); }
    int st; waitpid(q, &st, 0); cnt().outcome[1]++; cnt().evals++;
    return WIFEXITED(st) && WEXITSTATUS(st) == 1 ? "" : "a threshold decay outside [0, 1] is accepted";
  }
  // start from known global settings; warnings are discarded by the driver
  env::set_suppress_warning(false); env::set_suppress_info(false); env::set_invariant_configuration_folder("I"); env::set_obsidian_template_folder("O");
  string m;
  auto req = [&](bool b, const string& s) { if (!b && m.empty()) m = s; };
  try {
    auto u = t; auto v = env::extract_environment_variables(u);
    options o(v);
    for (auto& b : BOOLS) req(o.*(b.f) == w.o.*(b.f), b.names[0] + " is " + (o.*(b.f) ? "on" : "off"));
    for (auto& d : DOUBLES) req(o.*(d.f) == w.o.*(d.f), d.names[0] + " is " + std::to_string(o.*(d.f)));
    req(env::get_suppress_warning() == w.sw, "--suppress-warning differs"); req(env::get_suppress_info() == w.si, "--suppress-info differs");
    req(env::get_invariant_configuration_folder() == (w.icf.empty() ? "I" : w.icf), "invariant configuration folder differs"); req(env::get_obsidian_template_folder() == (w.otf.empty() ? "O" : w.otf), "template folder differs");
    req(o.sentinel_options.tokens == w.sentinel, "the options passed to the observer differ");
    Hash h; for (auto& b : BOOLS) h.add(o.*(b.f)); for (auto& d : DOUBLES) { double x = o.*(d.f); uint64_t y; memcpy(&y, &x, 8); h.add(y); } h.add(w.sw); h.add(w.si); h.add(w.icf); h.add(w.otf); for (auto& s : w.sentinel) h.add(s); new_state(h.h);
    cnt().transitions += t.size();
  } catch (std::exception& e) { m = string("exception ") + e.what(); }
  static const options def; bool nt = false; for (auto& b : BOOLS) nt |= w.o.*(b.f) != def.*(b.f); for (auto& d : DOUBLES) nt |= w.o.*(d.f) != def.*(d.f);
  cnt().evals++; if (nt) cnt().nontrivial++;
  return m;
}
static string help(const string&) {
  string h = options::get_help_text(), m; static const options def;
  auto once = [&](const string& x) { size_t n = 0, p = 0; while ((p = h.find("\n  " + x + " (", p)) != string::npos || n > 5) { n++; p++; } return n; };
  for (auto& b : BOOLS) { string a; for (auto& x : b.names) a += (a.empty() ? "" : ", ") + x; string e = a + " (bool, default " + (def.*(b.f) ? "on" : "off") + ")"; if (h.find("  " + e) == string::npos) return "the help text does not document " + e; (void)once; }
  for (auto& d : DOUBLES) { string a; for (auto& x : d.names) a += (a.empty() ? "" : ", ") + x; string e = a + " (double, default " + std::to_string(def.*(d.f)) + ")"; if (h.find("  " + e) == string::npos) return "the help text does not document " + e; }
  cnt().evals++; return "";
}

int main(int argc, char** argv) {
  Main m(argc, argv);
  if (m.arg(0) == "help") { m.e.gen = [](auto& want, auto& emit) { if (want()) emit("help"); }; m.e.run = help; return m.finish(); }
  string al = m.arg(1); int len = m.num(2, 2); vector<string> a;
  vector<string> env = {"-sw", "--suppress-warning", "-si", "--suppress-info", "-icf", "--invariant-configuration-folder", "--obsidian-template-folder"};
  vector<string> vals = {"on", "off", "0.5", "1", "7e-3", "1e999", "2x", "abc", "~", "-1", "{a}", "--nonsense"};
  if (al == "all") { for (auto& b : BOOLS) for (auto& n : b.names) a.push_back(n); for (auto& d : DOUBLES) for (auto& n : d.names) a.push_back(n); a.insert(a.end(), env.begin(), env.end()); a.insert(a.end(), vals.begin(), vals.end()); }
  else if (al == "strategy") a = {"-cb", "-lscb", "-gb", "-lcm", "-ecm", "-bsc", "-bfc", "-bl", "-max-approx-cost", "-sum-approx-cost", "-vsids-approx-cost", "on", "off", "x"};
  else if (al == "observer") a = {"-o", "--observing", "-i", "-stat", "-live-stat", "-bp", "-cp", "-pp", "-sw", "off", "{-commands", "file}", "{-dl_3}", "}", "{"};
  else if (al == "numeric") { for (auto& d : DOUBLES) a.push_back(d.names.back()); for (auto x : {"0", "1", "0.25", "1.5", "1e-3", "1e999", "1x", "-1", "nanx", "0x", "~", "off"}) a.push_back(x); }
  m.e.gen = [=](auto& want, auto& emit) {
    std::function<void(int, string)> rec = [&](int k, string s) { if (!k) { if (want()) emit(s); return; } for (auto& x : a) rec(k - 1, s.empty() ? x : s + " " + x); };
    rec(len, "");
  };
  if (m.arg(0) == "subset") m.e.gen = [=](auto& want, auto& emit) {      // every subset of the strategy options, in both orders
    vector<string> b(a.begin(), a.begin() + 11);
    for (int s = 0; s < 2048; s++) for (int r = 0; r < 2; r++) for (auto tail : {"", " -gb off", " -cb off", " -stat", " -o -stat", " -del off --restarts off"}) if (want()) { string k; for (int i = 0; i < 11; i++) { int j = r ? 10 - i : i; if (s >> j & 1) k += (k.empty() ? "" : " ") + b[j]; } k += tail; if (k.empty()) k = "~"; if (k[0] == ' ') k = k.substr(1); emit(k); }
  };
  m.e.run = run;
  return m.finish();
}
