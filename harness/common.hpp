// Shared exploration driver: enumerates cases, runs them in worker processes, turns crashes,
// sanitizer reports and hangs into failures, replays each failure before reporting it.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
namespace vf {
using std::string;
using std::vector;

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// Counters shared between the workers.
struct Counters {
  uint64_t cases, evals, states, transitions, nontrivial;
  uint64_t outcome[64];  // number of cases per outcome class
};
static const int MAXW = 16;
struct Slot { volatile uint64_t total; volatile uint64_t cur; volatile double since; volatile int running; Counters c; volatile int fin; volatile int capped; };
struct Shared { Slot s[MAXW]; };
inline Shared*& shared() { static Shared* p = nullptr; return p; }
inline int& worker_id() { static int w = 0; return w; }
inline Counters& cnt() { static Counters dummy; return shared() ? shared()->s[worker_id()].c : dummy; }

// Exact set of 64-bit state hashes shared by the workers (open addressing, bounded).
struct StateSet { static const uint64_t N = 1ull << 25; volatile uint64_t used; uint64_t slot[N]; };
inline StateSet*& state_set() { static StateSet* p = nullptr; return p; }
inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return h; }
// true when the state was not seen before in this run (by any worker); counts it
inline bool new_state(uint64_t h) {
  StateSet* S = state_set(); if (!S) return false;
  h = mix(h); if (!h) h = 1;
  if (S->used > StateSet::N / 4 * 3) return false;    // full: counted states are a lower bound
  for (uint64_t i = h & (StateSet::N - 1);; i = (i + 1) & (StateSet::N - 1)) {
    uint64_t c = __atomic_load_n(&S->slot[i], __ATOMIC_RELAXED);
    if (c == h) return false;
    if (c == 0) {
      uint64_t z = 0;
      if (__atomic_compare_exchange_n(&S->slot[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add(&S->used, 1, __ATOMIC_RELAXED); cnt().states++; return true; }
      if (z == h) return false;
    }
  }
}
struct Hash { uint64_t h = 1469598103934665603ull; void add(uint64_t x) { h = (h ^ (x + 0x9e3779b97f4a7c15ull)) * 1099511628211ull; h ^= h >> 29; } void add(const string& s) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; add(s.size()); } };

struct Failure { uint64_t idx; string key, msg; };

// A space is a generator of textual cases; the runner decides which worker executes which one.
typedef std::function<string(const string&)> RunFn;         // "" = held, otherwise what failed
typedef std::function<void(const string&)> EmitFn;

struct Config {
  string property, tier = "quick", evidence, replay_dir, known_file, only;
  double case_timeout = 10;      // seconds
  double budget = 600;           // seconds for the whole exploration
  int workers = 8;
  int max_failures = 5;
  bool print_all = false;
};

struct Explorer {
  Config cfg;
  RunFn run;
  // gen(emit, want): emit(key) is called for every case. The generator should be cheap.
  std::function<void(const std::function<bool()>& want, const EmitFn& emit)> gen;
  vector<Failure> failures;
  uint64_t total = 0;
  bool exhausted = true; uint64_t unreproduced = 0;
  Counters sum;
  vector<string> samples;
  double t0 = now();

  // under the address sanitizer also: the case gives back all the memory it took (repeated, so that caches do not count)
  string run_checked(const string& key) {
#if defined(__SANITIZE_ADDRESS__)
    size_t left = 0;
    for (int i = 0; i < 3; i++) {
      size_t b = __sanitizer_get_current_allocated_bytes();
      { string m = run(key); if (!m.empty()) return m; }
      size_t a = __sanitizer_get_current_allocated_bytes();
      if (a <= b) return "";
      left = a - b;
    }
    return "leaks " + std::to_string(left) + " bytes";
#else
    return run(key);
#endif
  }
  // run one case alone in a child; returns "" or message
  string run_alone(const string& key, double timeout) {
    int p[2];
    if (pipe(p)) abort();
    char errf[] = "/tmp/vf_err_XXXXXX";
    int ef = mkstemp(errf);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      limit_memory();
      close(p[0]);
      int dn = open("/dev/null", O_RDWR);
      dup2(dn, 0); dup2(ef, 1); dup2(ef, 2);
      string m;
      try { m = run_checked(key); }
      catch (const std::exception& e) { m = string("uncaught exception: ") + e.what(); }
      catch (...) { m = "uncaught exception"; }
      string out = "K" + m;
      size_t off = 0;
      while (off < out.size()) { ssize_t n = write(p[1], out.data() + off, out.size() - off); if (n <= 0) break; off += n; }
      fflush(stdout);
      _exit(0);
    }
    close(p[1]);
    string got; char buf[4096];
    double start = now(); bool to = false;
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    int st = 0; bool dead = false;
    while (true) {
      ssize_t n = read(p[0], buf, sizeof buf);
      if (n > 0) { got.append(buf, n); continue; }
      if (n == 0) break;
      if (now() - start > timeout) { to = true; break; }
      usleep(500);
    }
    if (to) kill(pid, SIGKILL);
    if (!dead) waitpid(pid, &st, 0);
    close(p[0]);
    string tail;
    { std::ifstream f(errf); std::stringstream ss; ss << f.rdbuf(); tail = ss.str(); }
    close(ef); unlink(errf);
    string why;
    if (to) return "does not terminate within " + std::to_string((int)timeout) + " s";
    if (!got.empty() && got[0] == 'K' && WIFEXITED(st) && WEXITSTATUS(st) == 0) return got.substr(1);
    size_t a = tail.find("Assertion");
    if (a == string::npos) a = tail.find("ERROR: AddressSanitizer");
    if (a == string::npos) a = tail.find("runtime error");
    if (a != string::npos) { size_t b = tail.rfind('\n', a); b = b == string::npos ? 0 : b + 1; size_t e = tail.find('\n', a); why = tail.substr(b, std::min<size_t>(e - b, 400)); }
    if (WIFSIGNALED(st)) return "crashed with signal " + std::to_string(WTERMSIG(st)) + (why.empty() ? "" : ": " + why);
    return "exited with status " + std::to_string(WEXITSTATUS(st)) + (why.empty() ? "" : ": " + why);
  }

  static void limit_memory() {
#if !defined(__SANITIZE_ADDRESS__)
    rlimit r{3ull << 30, 3ull << 30}; setrlimit(RLIMIT_DATA, &r);
#endif
    rlimit c{0, 0}; setrlimit(RLIMIT_CORE, &c);
  }
  void worker(int w, int W, uint64_t start, int fd) {
    limit_memory();
    worker_id() = w;
    Slot& s = shared()->s[w];
    int dn = open("/dev/null", O_RDWR);
    dup2(dn, 0); dup2(dn, 1); dup2(dn, 2);
    uint64_t idx = 0;
    double deadline = t0 + cfg.budget;
    bool stop = false;
    auto want = [&]() -> bool {   // should the next emitted case be built at all?
      if (stop) return false;
      if (idx % W != (uint64_t)w || idx < start) { idx++; return false; }
      return true;
    };
    gen(want, [&](const string& key) {
      uint64_t my = idx++;
      if (stop) return;
      double t = now(); if (t > deadline) { stop = true; s.capped = 1; return; }
      s.since = t;
      s.cur = my; s.running = 1;
      string m;
      try { m = run_checked(key); }
      catch (const std::exception& e) { m = string("uncaught exception: ") + e.what(); }
      s.running = 0;
      s.c.cases++;
      if (!m.empty()) {
        string rec = std::to_string(my) + "\x1f" + (key.find_first_of("\n\x1f") == string::npos ? key : "") + "\x1f" + m;
        for (char& c : rec) if (c == '\n') c = '|';
        rec += "\n";
        if (write(fd, rec.data(), rec.size()) < 0) {}
      }
    });
    s.total = idx;
    s.fin = 1;
    fflush(stdout);
  }

  string key_of(uint64_t target) {
    string out; uint64_t idx = 0;
    gen([&]() { if (idx != target) { idx++; return false; } return out.empty(); },
        [&](const string& k) { idx++; if (out.empty()) out = k; });
    return out;
  }

  bool drain(int fd, string& acc, vector<Failure>& raw) {
    char buf[65536]; ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0) acc.append(buf, n);
    size_t p;
    while ((p = acc.find('\n')) != string::npos) {
      string l = acc.substr(0, p); acc.erase(0, p + 1);
      size_t a = l.find('\x1f'), b = l.find('\x1f', a + 1);
      raw.push_back({std::stoull(l.substr(0, a)), l.substr(a + 1, b - a - 1), l.substr(b + 1)});
    }
    return true;
  }

  void explore() {
    shared() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    state_set() = (StateSet*)mmap(nullptr, sizeof(StateSet), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (state_set() == MAP_FAILED) state_set() = nullptr;
    int W = cfg.workers;
    int p[2]; if (pipe(p)) abort();
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    vector<pid_t> pid(W, 0);
    vector<uint64_t> start(W, 0);
    vector<Failure> raw; string acc;
    auto spawn = [&](int w) {
      fflush(stdout); fflush(stderr);
      shared()->s[w].running = 0; shared()->s[w].fin = 0;
      pid_t q = fork();
      if (q == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(p[0]); worker(w, W, start[w], p[1]); _exit(0); }
      pid[w] = q;
    };
    for (int w = 0; w < W; w++) spawn(w);
    int live = W;
    uint64_t crashes = 0;
    while (live > 0) {
      usleep(2000);
      drain(p[0], acc, raw);
      for (int w = 0; w < W; w++) {
        if (!pid[w]) continue;
        Slot& s = shared()->s[w];
        int st;
        pid_t r = waitpid(pid[w], &st, WNOHANG);
        bool to = false;
        if (r == 0 && s.running && now() - s.since > cfg.case_timeout) {
          uint64_t c = s.cur; usleep(1000);
          if (s.running && s.cur == c && now() - s.since > cfg.case_timeout) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); r = pid[w]; to = true; }
        }
        if (r == 0) continue;
        pid[w] = 0; live--;
        if (s.fin && !to) continue;
        crashes++;
        uint64_t c = s.cur;
        raw.push_back({c, "", to ? "hang" : "crash"});
        if ((int)raw.size() < 4 * cfg.max_failures || cfg.print_all) { start[w] = c + 1; spawn(w); live++; }
        else exhausted = false;
      }
      if (!cfg.print_all && (int)raw.size() >= 4 * cfg.max_failures) {
        // enough evidence of breakage: stop early
        exhausted = false;
        for (int w = 0; w < W; w++) if (pid[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); pid[w] = 0; }
        live = 0;
      }
    }
    drain(p[0], acc, raw);
    close(p[0]); close(p[1]);
    memset(&sum, 0, sizeof sum);
    for (int w = 0; w < W; w++) {
      Counters& c = shared()->s[w].c;
      sum.cases += c.cases; sum.evals += c.evals; sum.states += c.states; sum.transitions += c.transitions; sum.nontrivial += c.nontrivial;
      for (int i = 0; i < 64; i++) sum.outcome[i] += c.outcome[i];
      if (shared()->s[w].capped) exhausted = false;
      { uint64_t t = shared()->s[w].total; total = std::max(total, t); }
    }
    // replay before report
    std::sort(raw.begin(), raw.end(), [](const Failure& a, const Failure& b) { return a.idx < b.idx; });
    for (Failure& f : raw) {
      if ((int)failures.size() >= cfg.max_failures && !cfg.print_all) break;
      if (f.key.empty()) f.key = key_of(f.idx);
      string m = run_alone(f.key, cfg.case_timeout * 2);
      if (m.empty()) { unreproduced++; fprintf(stderr, "note: not reproduced alone: %s (%s)\n", f.key.c_str(), f.msg.c_str()); continue; }
      f.msg = m;
      failures.push_back(f);
    }
  }
};

inline string json_esc(const string& s) {
  string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

// Command line of every harness: [options] space args...
//   --out FILE (result as JSON)  --workers N  --budget S  --timeout S  --replay KEY
struct Main {
  vector<string> pos; string out, replay; bool has_replay = false;
  Explorer e;
  Main(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
      string a = argv[i];
      auto nx = [&]() { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return string(argv[++i]); };
      if (a == "--out") out = nx();
      else if (a == "--workers") e.cfg.workers = std::min(MAXW, std::stoi(nx()));
      else if (a == "--budget") e.cfg.budget = std::stod(nx());
      else if (a == "--timeout") e.cfg.case_timeout = std::stod(nx());
      else if (a == "--max") e.cfg.max_failures = std::stoi(nx());
      else if (a == "--replay") { replay = nx(); has_replay = true; }
      else pos.push_back(a);
    }
    if (pos.empty()) { fprintf(stderr, "no space given\n"); exit(3); }
  }
  string arg(size_t i, const string& d = "") { return i < pos.size() ? pos[i] : d; }
  int num(size_t i, int d) { return i < pos.size() ? std::stoi(pos[i]) : d; }
  int finish() {
    if (has_replay) {
      string m = e.run_alone(replay, e.cfg.case_timeout * 2);
      printf("%s => %s\n", replay.c_str(), m.empty() ? "held" : m.c_str());
      return m.empty() ? 0 : 1;
    }
    e.explore();
    if (e.total) {
      uint64_t pick[3] = {0, e.total / 2, e.total - 1};
      for (uint64_t p : pick) { string k = e.key_of(p); if (!k.empty() && (e.samples.empty() || e.samples.back() != k)) e.samples.push_back(k); }
    }
    std::ostringstream o;
    o << "{\"cases\":" << e.sum.cases << ",\"generated\":" << e.total << ",\"evals\":" << e.sum.evals << ",\"states\":" << e.sum.states << ",\"transitions\":" << e.sum.transitions
      << ",\"nontrivial\":" << e.sum.nontrivial << ",\"exhausted\":" << (e.exhausted ? "true" : "false") << ",\"wall\":" << now() - e.t0 << ",\"outcomes\":[";
    int last = 63; while (last > 0 && !e.sum.outcome[last]) last--;
    for (int i = 0; i <= last; i++) o << (i ? "," : "") << e.sum.outcome[i];
    o << "],\"samples\":[";
    for (size_t i = 0; i < e.samples.size(); i++) o << (i ? "," : "") << "\"" << json_esc(e.samples[i]) << "\"";
    o << "],\"failures\":[";
    for (size_t i = 0; i < e.failures.size(); i++) o << (i ? "," : "") << "{\"key\":\"" << json_esc(e.failures[i].key) << "\",\"msg\":\"" << json_esc(e.failures[i].msg) << "\"}";
    o << "],\"unreproduced\":" << e.unreproduced << "}\n";
    if (out.empty()) fputs(o.str().c_str(), stdout);
    else { std::ofstream f(out); f << o.str(); f.close(); if (!f) return 3; }
    return 0;
  }
};
}
