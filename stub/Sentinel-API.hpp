// Minimal stand-in for the SATSentinel submodule: every notification is forwarded to an
// installable Hooks object (default: accept everything), which is how the harnesses observe the
// solver and drive its interactive mode.
#pragma once
#include "Sentinel-options.hpp"
#include <functional>
#include <string>
#include <vector>
namespace sentinel {
struct Tvar { unsigned value; Tvar(unsigned v = 0) : value(v) {} };
struct Tlit { unsigned value; Tlit(unsigned v = 0) : value(v) {} Tlit(Tvar v, unsigned p) : value(v.value << 1 | p) {} };
struct Tclause { unsigned value; Tclause(unsigned v = ~0u) : value(v) {} };
struct Tlevel { unsigned value; Tlevel(unsigned v = ~0u) : value(v) {} };
struct Tparser { std::function<bool(const std::string&)> f; Tparser(std::function<bool(const std::string&)> g) : f(g) {} };
struct WatchInvariant {
  std::string name, desc;
  std::function<bool(Tlit, Tlit, Tlit, std::string&)> f;
  WatchInvariant(std::string n, std::function<bool(Tlit, Tlit, Tlit, std::string&)> g, std::string d) : name(n), desc(d), f(g) {}
};
struct Hooks {
  virtual ~Hooks() {}
  virtual bool add_variable(unsigned) { return true; }
  virtual bool alias(unsigned, const std::string&) { return true; }
  virtual bool add_clause(unsigned, const Tlit*, unsigned, bool) { return true; }
  virtual bool delete_clause(unsigned) { return true; }
  virtual bool shrink_clause(unsigned, unsigned) { return true; }
  virtual bool assign(unsigned, unsigned) { return true; }
  virtual bool unassign(unsigned) { return true; }
  virtual bool propagate(unsigned) { return true; }
  virtual bool unpropagate(unsigned) { return true; }
  virtual bool update_level(unsigned, unsigned) { return true; }
  virtual bool update_reason(unsigned, unsigned) { return true; }
  virtual bool watch(unsigned, unsigned) { return true; }
  virtual bool unwatch(unsigned, unsigned) { return true; }
  virtual bool block(unsigned, unsigned, unsigned) { return true; }
  virtual bool lock(unsigned) { return true; }
  virtual bool unlock(unsigned) { return true; }
  virtual bool check_invariants() { return true; }
  virtual bool checkpoint() { return true; }
  virtual bool message(const std::string&, unsigned) { return true; }
  virtual void parser(Tparser*) {}
  virtual void created(const Options&) {}
  virtual void deleted() {}
  virtual void add_watch_invariant(WatchInvariant*) {}
  virtual void var_detail(std::function<std::string(Tvar)>) {}
  virtual void clause_detail(std::function<std::string(Tclause)>) {}
};
struct SATSentinel { Hooks* h; Tparser* parser = nullptr; };
inline Hooks*& hooks() { static Hooks dflt; static Hooks* h = &dflt; return h; }
inline void set_hooks(Hooks* h) { hooks() = h; }
inline SATSentinel* create_sentinel(const Options& o) { auto* s = new SATSentinel{hooks()}; s->h->created(o); return s; }
inline void delete_sentinel(SATSentinel* s) { s->h->deleted(); delete s->parser; delete s; }
inline bool add_variable(SATSentinel* s, Tvar v) { return s->h->add_variable(v.value); }
inline bool set_variable_alias(SATSentinel* s, Tvar v, const std::string& a) { return s->h->alias(v.value, a); }
inline bool add_clause(SATSentinel* s, Tclause c, const Tlit* l, unsigned n, bool e) { return s->h->add_clause(c.value, l, n, e); }
inline bool delete_clause(SATSentinel* s, Tclause c) { return s->h->delete_clause(c.value); }
inline bool shrink_clause(SATSentinel* s, Tclause c, Tlit l) { return s->h->shrink_clause(c.value, l.value); }
inline bool assign(SATSentinel* s, Tlit l, Tclause r) { return s->h->assign(l.value, r.value); }
inline bool unassign(SATSentinel* s, Tlit l) { return s->h->unassign(l.value); }
inline bool propagate(SATSentinel* s, Tlit l) { return s->h->propagate(l.value); }
inline bool unpropagate(SATSentinel* s, Tlit l) { return s->h->unpropagate(l.value); }
inline bool update_level(SATSentinel* s, Tlit l, Tlevel v) { return s->h->update_level(l.value, v.value); }
inline bool update_reason(SATSentinel* s, Tlit l, Tclause r) { return s->h->update_reason(l.value, r.value); }
inline bool watch(SATSentinel* s, Tclause c, Tlit l) { return s->h->watch(c.value, l.value); }
inline bool unwatch(SATSentinel* s, Tclause c, Tlit l) { return s->h->unwatch(c.value, l.value); }
inline bool block(SATSentinel* s, Tclause c, Tlit b, Tlit w) { return s->h->block(c.value, b.value, w.value); }
inline bool lock_assumption(SATSentinel* s, Tlit l) { return s->h->lock(l.value); }
inline bool unlock_assumption(SATSentinel* s, Tlit l) { return s->h->unlock(l.value); }
inline bool check_invariants(SATSentinel* s) { return s->h->check_invariants(); }
inline bool checkpoint(SATSentinel* s) { return s->h->checkpoint(); }
inline bool message(SATSentinel* s, const std::string& m, unsigned lvl) { return s->h->message(m, lvl); }
inline bool save_execution(SATSentinel*, const std::string&) { return true; }
inline bool load_execution(SATSentinel*, const std::string&) { return true; }
inline void set_command_parser(SATSentinel* s, Tparser* p) { s->parser = p; s->h->parser(p); }
inline void set_variable_detail_callback(SATSentinel* s, std::function<std::string(Tvar)> f) { s->h->var_detail(f); }
inline void set_clause_detail_callback(SATSentinel* s, std::function<std::string(Tclause)> f) { s->h->clause_detail(f); }
inline void add_watch_invariant(SATSentinel* s, WatchInvariant* w) { s->h->add_watch_invariant(w); }
}
