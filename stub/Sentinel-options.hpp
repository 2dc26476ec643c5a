// Minimal stand-in for the SATSentinel submodule (empty in this checkout): only the option
// fields NapSAT reads/writes.
#pragma once
#include <string>
#include <vector>
namespace sentinel {
struct Options {
  bool check_no_conflicts = false, check_trail_monotonicity = false, check_implied_levels = false,
       check_no_missed_implications = false, check_topological_order = false,
       check_assignment_coherence = false, check_weak_watched_literals = false,
       check_strong_watched_literals = false;
  std::string commands_file;
  std::vector<std::string> tokens;  // recorded verbatim for the option checks
  Options() = default;
  explicit Options(std::vector<std::string>& t) : tokens(t) {
    for (size_t i = 0; i + 1 < t.size(); i++)
      if (t[i] == "-commands") commands_file = t[i + 1];
  }
  static std::string get_help_text() { return "*** SENTINEL (stub) ***\n"; }
};
}
