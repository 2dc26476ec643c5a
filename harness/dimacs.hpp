// Independent reading of DIMACS text, scratch files and archives, shared by the file-level harnesses.
#pragma once
#include "spaces.hpp"
#include <bzlib.h>
#include <filesystem>
#include <lzma.h>
#include <sys/stat.h>

namespace vf {
struct Ref { bool ok = true; bool skip = false; vector<vector<int>> F; unsigned n = 0; std::map<int, double> w; std::vector<std::pair<int, string>> alias; };
inline bool space(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
inline bool integer(const string& t, long& v) {
  size_t i = t[0] == '-' || t[0] == '+'; if (i == t.size()) return false; for (size_t k = i; k < t.size(); k++) if (!isdigit((unsigned char)t[k])) return false;
  if (t.size() > 12) return false; v = std::stol(t); return v <= 2147483647l && v >= -2147483647l;
}
// The text as the DIMACS format defines it. skip: texts whose meaning the format leaves open.
inline Ref reference(const string& txt, bool obs = false) {
  Ref r; vector<int> cl; bool in = false, lits = false;
  for (auto line : split(txt, '\n')) {
    size_t a = 0; while (a < line.size() && space(line[a])) a++; line = line.substr(a);
    if (line.empty()) continue;
    if (line[0] == 'c') {
      bool w = line.substr(0, 2) == "cw", o = line.substr(0, 2) == "co";
      if ((!w && !o) || line.size() == 2) continue;
      std::istringstream is(line.substr(2)); string v, x, rest; is >> v >> x >> rest; long k;
      if (!isspace((unsigned char)line[2])) { if (isdigit((unsigned char)line[2]) || line[2] == '+') r.skip = true; continue; }   // "cw1 2": a comment or a weight
      if (v.empty() || x.empty() || !rest.empty() || !integer(v, k) || k <= 0) continue;
      if (k > 100000) { r.skip = true; continue; }
      if (o) { if (obs) r.alias.push_back({(int)k, x}); continue; }
      char* e; strtod(x.c_str(), &e); if (*e) continue;
      if (x.size() > 20 || x.find_first_not_of("0123456789.-+") != string::npos) { r.skip = true; continue; }   // exotic spellings of a weight
      r.n = std::max<unsigned>(r.n, k); r.w[(int)k] = strtod(x.c_str(), nullptr); continue;
    }
    if (line[0] == '%') break;
    if (line[0] == 'p') {
      if (lits) { r.skip = true; continue; }     // a header after the first clause
      std::istringstream is(line); string p, c, n, m, x; is >> p >> c >> n >> m; long a1 = 0, b1 = 0;
      if (p != "p" || c != "cnf" || !integer(n.empty() ? "x" : n, a1) || !integer(m.empty() ? "x" : m, b1) || a1 < 0 || b1 < 0 || is >> x || n[0] == '+' || m[0] == '+') { r.ok = false; r.skip = p == "pcnf" || (p == "p" && c == "cnf" && !n.empty() && !m.empty()) || (p == "p" && c.substr(0, 3) == "cnf") || p.substr(0, 4) == "pcnf"; return r; }
      if (a1 > 100000) { r.skip = true; return r; }
      r.n = std::max<unsigned>(r.n, a1); continue;
    }
    lits = true;
    string tok; line += ' ';
    for (char c : line) {
      if (!space(c)) { tok += c; continue; }
      if (tok.empty()) continue;
      long v; if (!integer(tok, v)) { r.ok = false; return r; }
      if (std::abs(v) > 100000) { r.skip = true; return r; }
      tok.clear(); in = true;
      if (v) { cl.push_back((int)v); r.n = std::max<unsigned>(r.n, std::abs(v)); } else { r.F.push_back(cl); cl.clear(); in = false; }
    }
  }
  if (in) r.F.push_back(cl);       // the last 0 may be missing
  return r;
}
// one scratch directory per run, made and removed by the main process; each worker has its own subdirectory
inline string& scratch_ref() { static string s; return s; }
#define scratch scratch_ref()
inline string dir() { static string d; static pid_t me = 0; if (me != getpid()) { me = getpid(); d = scratch + "/" + std::to_string(me); mkdir(d.c_str(), 0700); } return d; }
inline string path(const string& suffix) { return dir() + "/f" + suffix; }
inline void make_scratch() { for (string b : {"/dev/shm", "/tmp"}) { string t = b + "/vf_dimacs_XXXXXX"; if (mkdtemp(&t[0])) { scratch = t; return; } } abort(); }
inline void drop_scratch() { std::error_code ec; if (scratch.find("/vf_dimacs_") != string::npos) std::filesystem::remove_all(scratch, ec); }
struct Tmp { string p; Tmp(const string& suffix, const string& data) : p(path(suffix)) { FILE* f = fopen(p.c_str(), "wb"); if (!f) abort(); fwrite(data.data(), 1, data.size(), f); fclose(f); } ~Tmp() { unlink(p.c_str()); } };
inline string unesc(const string& s) { string r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\\' && i + 3 < s.size() && s[i + 1] == 'x') { r += (char)std::stoi(s.substr(i + 2, 2), nullptr, 16); i += 3; } else r += s[i]; return r; }
inline string esc(const string& s) { string r; for (unsigned char c : s) if (c < 33 || c == '\\' || c > 126 || c == ';') { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += c; return r; }
inline string pack(const string& kind, const string& s) {
  string out;
  if (kind == "xz") { out.resize(s.size() * 2 + 4096); size_t n = 0; if (lzma_easy_buffer_encode(0, LZMA_CHECK_CRC32, nullptr, (const uint8_t*)s.data(), s.size(), (uint8_t*)&out[0], &n, out.size()) != LZMA_OK) abort(); out.resize(n); }
  else { out.resize(s.size() * 2 + 4096); unsigned n = out.size(); if (BZ2_bzBuffToBuffCompress(&out[0], &n, (char*)s.data(), s.size(), 1, 0, 0) != BZ_OK) abort(); out.resize(n); }
  return out;
}
// a formula of exactly `size` characters (size >= 64) whose archive is not much smaller than the text
inline string sized(unsigned size) {
  string s = "p cnf 6 3\n"; uint64_t x = 88172645463325252ull + size; auto rnd = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (unsigned)(x >> 33); };
  string tail = "1 -2 3 0\n-4 5 0\n-1 6 2 0\n";
  while (s.size() + tail.size() < size) { unsigned left = size - s.size() - tail.size(); if (left == 1) { s += '\n'; break; } unsigned k = std::min(left, 60u); if (left - k == 1) k--; string l = "c"; while (l.size() + 1 < k) l += (char)('A' + rnd() % 58); for (char& c : l) if (c == '\\') c = '/'; s += l + "\n"; }
  return s + tail;
}
}
