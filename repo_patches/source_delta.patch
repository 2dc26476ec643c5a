From 38c1e9c8d65e4f1c0b4a70fb2dff03f5e3b58b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 01/53] fix: keep the trail when an added clause is already
 implied at a low enough level

reimply_literal backtracked to the level of the second watched literal and
re-implied the first one even when that literal was assigned at or below that
level and therefore still on the trail: the literal was pushed twice.
---
 src/solver/NapSAT-imply.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 3590e2d..98c4a8a 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -283,6 +283,10 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
   ASSERT(lit_true(c2));
   ASSERT(lit_false(c1));
 
+  // The levels are ok. Nothing to do here.
+  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
+      return;
+
   if (!_options.lazy_strong_chronological_backtracking && !_options.graph_backtracking) {
     // Non-chronological backtracking
     ASSERT(clause.external);
@@ -294,9 +298,6 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
     return;
   }
 
-  // The levels are ok. Nothing to do here.
-  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
-      return;
   if (_options.lazy_strong_chronological_backtracking) {
     ASSERT(lit_is_max_literal(lits[1], lits + 2, clause.size - 2));
     if (lit_lazy_level(c2)  <= lit_level(c1)) {
-- 
2.43.0


From a6d901e3662e3a4c483beffa9d1ee17af8ece9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:34 +0000
Subject: [PATCH 02/53] fix: accept learned clauses whose literals moved to the
 root level

When several clauses are learned together (graph backtracking), implying the
first one can put literals of the next ones at the root level. The assertion
rejected that, and the removed literals were not recorded in the proof nor in
the dependencies.
---
 src/solver/NapSAT-clauses.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index a3789ac..e71ef25 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -127,10 +127,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   for (unsigned i = 0; !satisfied_at_root && i < input_size; i++) {
     Tlit l = lits_input[i];
     if (lit_level(l) == LEVEL_ROOT) {
-      // the solver should not introduce redundant literals, so the literal must be false at level 0
-      ASSERT(external,
-        "The clause: " + clause_to_string(lits_input, input_size) + "\nLiteral: " + lit_to_string(l) + "\nLevel: " + std::to_string(lit_level(l)) + "\nThis should not happen since the solver should not introduce redundant literals.");
-      // The solver should not generate redundant literals and clauses
+      // When several clauses are learned at once, adding one of them can move literals of the others to level 0
       satisfied_at_root |= lit_true(l);
       n_removed++;
     }
@@ -224,15 +221,17 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
     clause.size = new_size;
   }
 
-  if (_proof && external) {
-    _proof->input_clause(id, lits_input, input_size);
+  if (_proof) {
+    if (external)
+      _proof->input_clause(id, lits_input, input_size);
     // Remove the literals falsified at level 0 in the proof
     if (n_removed > 0) {
       _proof->remove_root_literals(id);
     }
   }
-  if (_dependency_tracker && external) {
-    _dependency_tracker->add_input(id);
+  if (_dependency_tracker) {
+    if (external)
+      _dependency_tracker->add_input(id);
     // Remove the literals falsified at level 0 in the dependencies
     if (n_removed > 0) {
       for (unsigned i = 0; i < input_size; i++) {
-- 
2.43.0


From 01662165c52ce2c3e0927bd118c56a701fa2347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 03/53] fix: drop lazy reasons through a decision that becomes
 a root literal

---
 src/solver/NapSAT-imply.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 98c4a8a..2569e44 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -162,6 +162,16 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
     _chunks[ck].missed_implication.clear();
     _chunks[ck].is_reimplied = false;
     _decision_index.resize(_decision_index.size() - 1);
+    // the literal is no longer a decision, its lazy reason is obsolete
+    lit_lazy_reason(lit) = CLAUSE_UNDEF;
+    // the chunk may be reused: the missed implications going through it are obsolete too
+    for (TSchunk& chunk : _chunks) {
+      if (!chunk.is_reimplied || !chunk.missed_implication.get(ck))
+        continue;
+      _vars[chunk.decision].missed_lower_implication = CLAUSE_UNDEF;
+      chunk.missed_implication.clear();
+      chunk.is_reimplied = false;
+    }
   }
 
   // update the level of the literal to root
-- 
2.43.0


From 8600b64489e0cae18cc02409085faf23b42e01bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 04/53] fix: keep lazy merge combinations that already contain
 a merged chunk

---
 src/solver/NapSAT-conflict.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 589f4fc..47b5696 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -102,12 +102,17 @@ void NapSAT::compute_lazy_merge_chunk_combination(vector<bitset>& combinations,
       merged_chunks -= _locked_chunks;
     }
 
+    if (current.has_intersection(merged_chunks)) {
+      // we already have one of the chunks, any further combination will be subsumed
+      compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, current, next_process);
+      if (combinations.size() > _options.backtrack_possibilities_limit) {
+        return;
+      }
+      continue;
+    }
+
     for (auto j = merged_chunks.cbegin(); j != merged_chunks.cend(); ++j) {
       Tchunk c2 = *j;
-      if (current.get(c2)) {
-        // we already have this chunk, any further combination will be subsumed
-        continue;
-      }
       bitset next_current = current;
       next_current.set(c2, true);
       compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, next_current, next_process);
-- 
2.43.0


From 1d91875b89cf889702a73e24e47c03427ea21322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 05/53] fix: prove the removal of root literals of added
 clauses with their current reasons

---
 src/solver/NapSAT-clauses.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index e71ef25..d49cf31 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -186,13 +186,8 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
     clause.size = input_size - n_removed;
   }
 
-  if (clause_size == 0) {
-    _status = status::UNSAT;
-    return id;
-  }
-
   // Remove duplicate literals
-  if (input_size > 1) {
+  if (clause_size > 1) {
     unsigned new_size = cleanup_duplicate_literals(lits, clause.size);
 
     // if the size is 0, it means that the clause was a tautology.
@@ -226,7 +221,16 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
       _proof->input_clause(id, lits_input, input_size);
     // Remove the literals falsified at level 0 in the proof
     if (n_removed > 0) {
-      _proof->remove_root_literals(id);
+      vector<Tlit> root_lits;
+      for (unsigned i = 0; i < input_size; i++)
+        if (lit_level(lits_input[i]) == LEVEL_ROOT)
+          root_lits.push_back(lits_input[i]);
+      _proof->start_resolution_chain();
+      _proof->link_resolution(LIT_UNDEF, id);
+      prove_root_literal_removal(root_lits.data(), root_lits.size());
+      // we need to deactivate the clause to be able to replace it
+      _proof->deactivate_clause(id);
+      _proof->finalize_resolution(id, lits, clause.size);
     }
   }
   if (_dependency_tracker) {
@@ -257,6 +261,11 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
       var_mark_constrained(lits[i].var());
   }
 
+  if (clause.size == 0) {
+    _status = status::UNSAT;
+    return id;
+  }
+
   if (clause.size == 1) {
     if (lit_undef(lits[0])) {
       if (!_options.chronological_backtracking && !_options.graph_backtracking) {
-- 
2.43.0


From f271a2295345d829ca0e4d82e6cf5ee7ff53853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 06/53] fix: do not keep a root implied decision in lazy chunk
 merging

---
 src/solver/NapSAT-imply.cpp | 28 ++++++++++++++++++++--------
 src/solver/NapSAT.hpp       |  6 ++++++
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 2569e44..a925429 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -164,14 +164,7 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
     _decision_index.resize(_decision_index.size() - 1);
     // the literal is no longer a decision, its lazy reason is obsolete
     lit_lazy_reason(lit) = CLAUSE_UNDEF;
-    // the chunk may be reused: the missed implications going through it are obsolete too
-    for (TSchunk& chunk : _chunks) {
-      if (!chunk.is_reimplied || !chunk.missed_implication.get(ck))
-        continue;
-      _vars[chunk.decision].missed_lower_implication = CLAUSE_UNDEF;
-      chunk.missed_implication.clear();
-      chunk.is_reimplied = false;
-    }
+    forget_missed_implications(ck);
   }
 
   // update the level of the literal to root
@@ -348,6 +341,13 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
     ASSERT(lit_chunks(c2).count() == 1);
     Tchunk decision_chunk = *lit_chunks(c2).cbegin();
     NOTIFY_STAT(_n_cross_implication_decisions);
+    if (chunks.empty()) {
+      // the decision is implied at the root level. There is no chunk to backtrack to undo it,
+      // so it cannot remain a decision
+      forget_missed_implications(decision_chunk);
+      eager_decision_reimplication(c2, reason);
+      return;
+    }
     if (!reimplication_cycle(decision_chunk, chunks)) {
       lit_lazy_reason(c2) = reason;
       _chunks[decision_chunk].missed_implication = chunks;
@@ -543,6 +543,18 @@ void NapSAT::eager_decision_reimplication(Tlit decision, Tclause reason)
   ASSERT(check_decision_index_consistency());
 }
 
+void napsat::NapSAT::forget_missed_implications(Tchunk ck)
+{
+  // the chunk may be reused: the missed implications going through it are obsolete
+  for (TSchunk& chunk : _chunks) {
+    if (!chunk.is_reimplied || !chunk.missed_implication.get(ck))
+      continue;
+    _vars[chunk.decision].missed_lower_implication = CLAUSE_UNDEF;
+    chunk.missed_implication.clear();
+    chunk.is_reimplied = false;
+  }
+}
+
 bool napsat::NapSAT::reimplication_cycle(Tchunk decision_chunk, const bitset& reimplying_chunks)
 {
   bitset closure = reimplying_chunks;
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 0107b07..c79d027 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1751,6 +1751,12 @@ public:
      */
     bool reimplication_cycle(Tchunk decision_chunk, const bitset& reimplying_chunks);
 
+    /**
+     * @brief Removes the missed implications that go through the given chunk. (see -lcm option)
+     * @param ck a chunk whose decision is about to stop being a decision.
+     */
+    void forget_missed_implications(Tchunk ck);
+
     /**
      * @brief Searches for a replacement literal for the first watched literal
      * of a clause.
-- 
2.43.0


From beb9d88bcf53fb7173fc145bde7029ea43d8cd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 07/53] fix: record the dependencies of learned clauses and of
 the empty clause

---
 src/solver/NapSAT-assumptions.cpp |  9 +++++++--
 src/solver/NapSAT-clauses.cpp     | 15 ++++++++-------
 src/solver/NapSAT-conflict.cpp    | 17 +++++++++--------
 src/solver/NapSAT-purge.cpp       |  5 ++---
 src/solver/NapSAT.cpp             | 17 +++++++++++++++++
 src/solver/NapSAT.hpp             | 14 ++++++++++++++
 6 files changed, 57 insertions(+), 20 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 41c3801..a5a8716 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -124,6 +124,11 @@ std::vector<Tclause> napsat::NapSAT::clause_unsat_core()
   // chunks only. Return the corresponding clauses.
   std::set<Tclause> failed;
 
+  if (_empty_clause != CLAUSE_UNDEF) {
+    const set<Tclause>& deps = _dependency_tracker->get_dependencies(_empty_clause);
+    return std::vector<Tclause>(deps.begin(), deps.end());
+  }
+
   // search the conflict that is responsible for the UNSAT
   bitset conflict_chunks(_n_allocated_chunks);
   Tclause conflict_clause = CLAUSE_UNDEF;
@@ -170,10 +175,10 @@ std::vector<Tclause> napsat::NapSAT::clause_unsat_core()
     // add the reason clause to the unsat core
     const set<Tclause>& deps = _dependency_tracker->get_dependencies(reason);
     failed.insert(deps.begin(), deps.end());
-    // mark all literals in the reason clause
+    // mark all the other literals in the reason clause
     const Tlit* rlits = clause_lits(reason);
     const unsigned rsize = clause_size(reason);
-    for (unsigned j = 0; j < rsize; j++)
+    for (unsigned j = 1; j < rsize; j++)
       lit_mark(rlits[j]);
   }
 
diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index d49cf31..e20d851 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -238,11 +238,8 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
       _dependency_tracker->add_input(id);
     // Remove the literals falsified at level 0 in the dependencies
     if (n_removed > 0) {
-      for (unsigned i = 0; i < input_size; i++) {
-        if (lit_level(lits_input[i]) == LEVEL_ROOT) {
-          _dependency_tracker->link_dependencies(id, lit_reason(lits_input[i]));
-        }
-      }
+      for (Tclause reason : root_reasons(lits_input, input_size))
+        _dependency_tracker->link_dependencies(id, reason);
     }
   }
   // sort the literals
@@ -262,6 +259,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   }
 
   if (clause.size == 0) {
+    _empty_clause = id;
     _status = status::UNSAT;
     return id;
   }
@@ -346,16 +344,19 @@ void napsat::NapSAT::delete_clause(Tclause cl)
   // If the clause is the reason for a literal, it cannot be deleted
   ASSERT(cl < _clauses.size());
   ASSERT(!_clauses[cl].deleted);
-  ASSERT(!_dependency_tracker || !_clauses[cl].external);
   TSclause &clause = _clauses[cl];
   ASSERT(!is_protected(cl));
   _n_learned_clauses -= _clauses[cl].learned;
   clause.deleted = true;
   clause.watched = false;
-  _deleted_clauses.push_back(cl);
   NOTIFY(delete_clause, cl);
   if(_proof)
     _proof->deactivate_clause(cl);
+  if (_dependency_tracker && clause.external) {
+    // learned clauses may depend on the input clause, its identifier cannot be reused
+    return;
+  }
+  _deleted_clauses.push_back(cl);
   if (_dependency_tracker)
     _dependency_tracker->delete_clause(cl);
 }
diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 47b5696..bc24489 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -802,12 +802,8 @@ void NapSAT::analyze_conflict_impl(T level) {
   if (_proof)
     prove_root_literal_removal(_lit_buffer, _lit_buffer_size);
   if (_dependency_tracker) {
-    for (unsigned i = 0; i < _lit_buffer_size; i++) {
-      Tlit lit = _lit_buffer[i];
-      if (lit_level(lit) == LEVEL_ROOT) {
-        _dependency_tracker->track_dependency(lit_reason(lit));
-      }
-    }
+    for (Tclause reason : root_reasons(_lit_buffer, _lit_buffer_size))
+      _dependency_tracker->track_dependency(reason);
   }
 
   unsigned k = 0;
@@ -1145,8 +1141,10 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
       _proof->start_resolution_chain();
       _proof->link_resolution(LIT_UNDEF, conflict);
     }
-    if (_dependency_tracker)
+    if (_dependency_tracker) {
       _dependency_tracker->start_tracking();
+      _dependency_tracker->track_dependency(conflict);
+    }
 
     T bt_save = bt;
     do {
@@ -1227,10 +1225,13 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
     learned_clauses.push_back({id, learned_clause});
     if (_proof)
       _proof->finalize_resolution(id, learned_clause.data(), learned_clause.size());
-    if (_dependency_tracker)
+    if (_dependency_tracker) {
+      _dependency_tracker->add_learned(id);
       _dependency_tracker->finalize_tracking(id);
+    }
 
     if (_lit_buffer_size == 0) {
+      _empty_clause = id;
       _status = status::UNSAT;
       return;
     }
diff --git a/src/solver/NapSAT-purge.cpp b/src/solver/NapSAT-purge.cpp
index 15abf14..6d4714b 100644
--- a/src/solver/NapSAT-purge.cpp
+++ b/src/solver/NapSAT-purge.cpp
@@ -220,9 +220,8 @@ void napsat::NapSAT::purge_clauses()
       _proof->finalize_resolution(cl, lits, clause.size);
     }
     if (_dependency_tracker && previous_size != clause.size) {
-      for (unsigned j = clause.size; j < previous_size; j++) {
-        _dependency_tracker->link_dependencies(cl, lit_reason(clause.lits[j]));
-      }
+      for (Tclause reason : root_reasons(clause.lits + clause.size, previous_size - clause.size))
+        _dependency_tracker->link_dependencies(cl, reason);
     }
 
     if (clause.size == 2) {
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 88cf13d..bd704bb 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -62,6 +62,23 @@ void napsat::NapSAT::prove_root_literal_removal(Tlit* lits, unsigned size)
   }
 }
 
+set<Tclause> NapSAT::root_reasons(const Tlit* lits, unsigned size) const
+{
+  set<Tclause> reasons;
+  vector<Tlit> todo(lits, lits + size);
+  while (!todo.empty()) {
+    Tlit lit = todo.back();
+    todo.pop_back();
+    if (lit_level(lit) != LEVEL_ROOT)
+      continue;
+    Tclause reason = lit_reason(lit);
+    if (!reasons.insert(reason).second)
+      continue;
+    todo.insert(todo.end(), clause_lits(reason) + 1, clause_lits(reason) + clause_size(reason));
+  }
+  return reasons;
+}
+
 void NapSAT::restart()
 {
   NOTIFY_STAT(_n_restart);
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index c79d027..3a78b20 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1047,6 +1047,12 @@ public:
      */
     napsat::proof::dependency_tracker* _dependency_tracker = nullptr;
 
+    /**
+     * @brief Empty clause, if it was added or learned. In this case, the clause set is
+     * unsatisfiable without the help of assumptions.
+     */
+    Tclause _empty_clause = CLAUSE_UNDEF;
+
     /**  SMT SYNCHRONIZATION  **/
     /**
      * @brief Position of the last literal on the trail that was left unchanged
@@ -2369,6 +2375,14 @@ public:
      */
     void prove_root_literal_removal(Tlit* lits, unsigned size);
 
+    /**
+     * @brief Collects the clauses used to falsify the literals of the list that are at level 0.
+     * @param lits a list of literals. The literals that are not at level 0 are ignored.
+     * @param size size of the list
+     * @return the reasons of the literals at level 0, the reasons of the other literals of these reasons, and so on.
+     */
+    std::set<Tclause> root_reasons(const Tlit* lits, unsigned size) const;
+
     /**
      * @brief Restarts the solver by resetting the trail
      * @post The trail only contains literals that are assigned at level 0
-- 
2.43.0


From 5d6e087efe77413488f31972dba6f648e743d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 08/53] fix: stop solving when the conflict limit is reached

---
 src/solver/NapSAT.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index bd704bb..764a6fd 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -388,6 +388,8 @@ bool NapSAT::propagate()
       _conflict_count++;
       if (_options.conflict_limit >= 0 && _conflict_count > _options.conflict_limit) {
         LOG_INFO("Conflict limit reached: " + std::to_string(_options.conflict_limit));
+        // the literal is not propagated yet. The conflict will be found again by the next propagation
+        _conflicts.clear();
         return false;
       }
       repair_conflicts();
@@ -430,6 +432,10 @@ status NapSAT::solve()
         }
         break;
       }
+      if (_status == status::UNKNOWN) {
+        // the conflict limit was reached
+        break;
+      }
     }
     ASSERT(_n_propagated_lits == _trail.size());
     NOTIFY(check_invariants);
-- 
2.43.0


From fea0103c2b52111985389f3fbd8aa4edd15d2377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 09/53] fix: keep unconstrained variables out of the decision
 queue

---
 src/solver/NapSAT-backtrack.cpp | 2 +-
 src/solver/NapSAT.cpp           | 2 +-
 src/solver/NapSAT.hpp           | 6 +++++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-backtrack.cpp b/src/solver/NapSAT-backtrack.cpp
index fbe9ffa..7b1ecf8 100644
--- a/src/solver/NapSAT-backtrack.cpp
+++ b/src/solver/NapSAT-backtrack.cpp
@@ -30,7 +30,7 @@ void NapSAT::var_unassign(Tvar var)
   if (v.missed_lower_implication != CLAUSE_UNDEF) {
     v.missed_lower_implication = CLAUSE_UNDEF;
   }
-  if (!_variable_heap.contains(var))
+  if (v.constrained && !_variable_heap.contains(var))
     _variable_heap.insert(var, v.activity);
 
   if (_options.graph_backtracking) {
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 764a6fd..55e3f34 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -417,7 +417,7 @@ status NapSAT::solve()
 {
   auto start_time = std::chrono::high_resolution_clock::now();
   if (_status != status::UNKNOWN) {
-    ASSERT(_status != status::SAT || _trail.size() == _vars.size().value - 1);
+    ASSERT(_status != status::SAT || _options.ignore_unused_variables || _trail.size() == _vars.size().value - 1);
     NOTIFY(message, "Solver finished solving. Status: " + status_to_string(_status));
     return _status;
   }
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 3a78b20..f4fea35 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1527,8 +1527,12 @@ public:
       if (var_constrained(var)) {
         return;
       }
-      _variable_heap.insert(var, _vars[var].activity);
+      if (!_variable_heap.contains(var))
+        _variable_heap.insert(var, _vars[var].activity);
       _vars[var].constrained = 1;
+      // the current assignment is no longer complete
+      if (_status == status::SAT && var_undef(var))
+        _status = status::UNKNOWN;
     }
 
     /**
-- 
2.43.0


From ad625f67b4e434740231d1e5a2806e1fa189c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 10/53] fix: reject invalid resolution steps in the proof
 checker

---
 src/proof/proof.cpp | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 7a8b38e..a1d0372 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -167,24 +167,18 @@ bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)
     Tlit pivot = link.first;
     assert(link.second < clauses.size());
     clause &cl = clauses[link.second];
+    if (pivot != LIT_UNDEF) {
+      // the pivot must be in the current resolvent and its negation in the clause
+      unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
+      if (pivot_index == tmp_lits.size() || binary_search(cl.lits, cl.size, ~pivot) == cl.size) {
+        LOG_ERROR("The resolution on " + pivot.to_string() + " is not possible in the chain of clause " + to_string(index));
+        return false;
+      }
+      tmp_lits.erase(pivot_index + tmp_lits.begin());
+    }
     for (unsigned i = 0; i < cl.size; i++)
-      binary_insert(tmp_lits, cl.lits[i]);
-
-    // remove duplicates
-    unsigned j = 1;
-    for (unsigned i = 1; i < tmp_lits.size(); i++)
-      if (tmp_lits[i] != tmp_lits[i-1])
-        tmp_lits[j++] = tmp_lits[i];
-
-    if (pivot == LIT_UNDEF)
-      continue;
-
-    unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
-    assert (pivot_index != tmp_lits.size());
-    tmp_lits.erase(pivot_index + tmp_lits.begin());
-    unsigned neg_pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), ~pivot);
-    assert (neg_pivot_index != tmp_lits.size());
-    tmp_lits.erase(neg_pivot_index + tmp_lits.begin());
+      if (pivot == LIT_UNDEF || cl.lits[i] != ~pivot)
+        binary_insert(tmp_lits, cl.lits[i]);
   }
 
   if(tmp_lits.size() != c.size) {
@@ -281,7 +275,10 @@ void resolution_proof::deactivate_clause(napsat::Tclause id)
 
 bool resolution_proof::check_proof(void)
 {
-  assert(empty_clause_id != 0xFFFFFFFF);
+  if (empty_clause_id == 0xFFFFFFFF) {
+    LOG_ERROR("The proof does not derive the empty clause");
+    return false;
+  }
   vector<unsigned> clauses_to_check;
   clauses_to_check.push_back(empty_clause_id);
   while(!clauses_to_check.empty()) {
-- 
2.43.0


From 5a29c7a6ac36f041bc8db30ae00c13d9688cc29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:21 +0000
Subject: [PATCH 11/53] fix: release the clause identifier of the derived empty
 clause in the proof

---
 src/solver/NapSAT-conflict.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index bc24489..660db6f 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -440,6 +440,8 @@ bool NapSAT::root_level_conflict()
         _proof->link_resolution(LIT_UNDEF, conflict);
         prove_root_literal_removal(clause_lits(conflict), clause_size(conflict));
         _proof->finalize_resolution(_clauses.size(), nullptr, 0);
+        // the identifier is not allocated, the next clause will use it
+        _proof->deactivate_clause(_clauses.size());
       }
       return true;
     }
-- 
2.43.0


From fbba97baa3c699ce8b3f707a396d09ac8eb96405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 12/53] fix: test the emptiness of bitsets beyond the first
 metadata word

---
 src/utils/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 12b7d1b..3ed90ad 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -162,7 +162,7 @@ bool bitset::empty() const {
   assert(it != _bits.cend());
   do {
     if (*it & M_DATA_MSK) return false;
-  } while (*(it++) & M_DATA_MSK);
+  } while (*(it++) & M_NEXT_MSK);
   return true;
 }
 
-- 
2.43.0


From 97bc3bfea63fd1deb517e55b80eaefe7228c9a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 13/53] fix: number the chunks allocated by a later growth
 correctly

---
 src/solver/NapSAT-utils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index f7d3041..60d19f4 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -355,8 +355,8 @@ void NapSAT::allocate_chunks(size_t n_chunks)
   ASSERT(_chunks.size() == _n_allocated_chunks);
   _chunks.resize(n_chunks);
 
-  for (Tchunk i = 1; i <= n_chunks; i++) {
-    _free_chunks.push_back(_n_allocated_chunks + n_chunks - i);
+  for (Tchunk i = n_chunks; i > _n_allocated_chunks; i--) {
+    _free_chunks.push_back(i - 1);
     NOTIFY_STAT(_n_allocated_chunks);
   }
   _n_allocated_chunks = n_chunks;
@@ -366,9 +366,10 @@ void NapSAT::allocate_chunks(size_t n_chunks)
     _vars[i].cross_chunks.resize(_n_allocated_chunks);
   }
 
-  for (Tchunk i = _n_allocated_chunks; i < _chunks.size().value; i++) {
+  for (Tchunk i = 0; i < _chunks.size().value; i++) {
     _chunks[i].missed_implication.resize(_n_allocated_chunks);
   }
+  _locked_chunks.resize(_n_allocated_chunks);
 }
 
 unsigned NapSAT::utility_heuristic(Tlit lit)
-- 
2.43.0


From d04c8778c243b47b69975bb1ef3ee5c5185a1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 14/53] fix: restore the heap order above a removed element

---
 src/utils/heap.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/heap.cpp b/src/utils/heap.cpp
index be1a26e..73ef9e1 100644
--- a/src/utils/heap.cpp
+++ b/src/utils/heap.cpp
@@ -85,8 +85,11 @@ void heap::remove(Tvar key)
   swap(i, _heap.size() - 1);
   _heap.pop_back();
   _index[key] = LOCATION_UNDEF;
-  if (i < _heap.size())
+  if (i < _heap.size()) {
+    // the element that took the place can belong above or below it
+    heapify_up(i);
     heapify_down(i);
+  }
 }
 
 void napsat::utils::heap::update(Tvar key, double activity)
-- 
2.43.0


From 7f870ee4ce4b048ce2c404281045544dc1758f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:50 +0000
Subject: [PATCH 15/53] fix: stop at failed assumptions and keep their locks
 consistent

---
 src/solver/NapSAT-assumptions.cpp | 20 +++++++++++---------
 src/solver/NapSAT-imply.cpp       |  7 +++++--
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index a5a8716..baf68c0 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -49,7 +49,7 @@ bool NapSAT::forget_assumption(Tlit assumption)
 {
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
   if (_options.graph_backtracking) {
-    if (!lit_locked(assumption)) {
+    if (!lit_locked(assumption) || lit_false(assumption)) {
       // the assumption was not added
       return false;
     }
@@ -59,7 +59,7 @@ bool NapSAT::forget_assumption(Tlit assumption)
     _locked_chunks -= lit_chunks(assumption);
     lit_unlock(assumption);
   }
-  if (_status == status::UNSAT) {
+  if (_status == status::UNSAT && _empty_clause == CLAUSE_UNDEF) {
     _status = status::UNKNOWN;
     repair_conflicts();
   }
@@ -79,7 +79,7 @@ void NapSAT::forget_assumption()
     }
     _locked_chunks.clear();
   }
-  if (_status == status::UNSAT) {
+  if (_status == status::UNSAT && _empty_clause == CLAUSE_UNDEF) {
     _status = status::UNKNOWN;
     repair_conflicts();
   }
@@ -92,6 +92,10 @@ std::vector<Tlit> napsat::NapSAT::unsat_core() const
   // look at each conflict clause, and find the ones that are failed by locked
   // chunks only. Return the corresponding literals.
   std::vector<Tlit> failed;
+  if (_empty_clause != CLAUSE_UNDEF) {
+    // the clause set is unsatisfiable without any assumption
+    return failed;
+  }
   bitset conflict_chunks(_n_allocated_chunks);
   for (const Tclause conflict : _conflicts) {
     const Tlit* lits = clause_lits(conflict);
@@ -101,12 +105,10 @@ std::vector<Tlit> napsat::NapSAT::unsat_core() const
       conflict_chunks |= lit_chunks(lits[i]);
     }
     if (conflict_chunks <= _locked_chunks) {
-      // all chunks in the conflict are locked, the assumption failed
-      for (unsigned i = 0; i < size; i++) {
-        Tlit lit = lits[i];
-        if (lit_decision(lit) && lit_locked(lit)) {
-          failed.push_back(lit);
-        }
+      // all chunks in the conflict are locked, the assumptions that started them failed
+      for (auto it = conflict_chunks.cbegin(); it != conflict_chunks.cend(); ++it) {
+        Tvar var = _chunks[*it].decision;
+        failed.push_back(Tlit(var, var_value(var)));
       }
       return failed;
     }
diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index a925429..25221d9 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -156,7 +156,10 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
     // we need to free the chunk of the decision
     ASSERT(lit_chunks(lit).count() == 1);
     Tchunk ck = *lit_chunks(lit).cbegin();
+    // the assumption holds in every model. It does not need its lock anymore
     _locked_chunks.set(ck, false);
+    if (lit_locked(lit))
+      lit_unlock(lit);
     _free_chunks.push_back(ck);
     _chunks[ck].decision = Tvar();
     _chunks[ck].missed_implication.clear();
@@ -318,8 +321,8 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
 
   lit_cross_chunks(c1) |= lit_chunks(c2);
 
-  if (!lit_decision(c2)) {
-    //nothing to do here
+  if (!lit_decision(c2) || lit_locked(c2)) {
+    // nothing to do here. In particular, an assumption remains a decision
     return;
   }
 
-- 
2.43.0


From c70ac0d94f092229f24d2d15c729568b404de51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:17 +0000
Subject: [PATCH 16/53] fix: keep assumptions over restarts and explain
 failures through merged chunks

---
 src/solver/NapSAT-assumptions.cpp | 94 +++++++++++++++----------------
 src/solver/NapSAT.cpp             | 12 +++-
 src/solver/NapSAT.hpp             |  8 +++
 3 files changed, 65 insertions(+), 49 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index baf68c0..fdbce27 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -89,32 +89,50 @@ std::vector<Tlit> napsat::NapSAT::unsat_core() const
 {
   ASSERT(_status == status::UNSAT);
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
-  // look at each conflict clause, and find the ones that are failed by locked
-  // chunks only. Return the corresponding literals.
   std::vector<Tlit> failed;
   if (_empty_clause != CLAUSE_UNDEF) {
     // the clause set is unsatisfiable without any assumption
     return failed;
   }
-  bitset conflict_chunks(_n_allocated_chunks);
+  bitset core(_n_allocated_chunks);
+  [[maybe_unused]] Tclause conflict = failed_conflict(core);
+  ASSERT(conflict != CLAUSE_UNDEF);
+  // the assumptions that started the chunks failed
+  for (auto it = core.cbegin(); it != core.cend(); ++it) {
+    Tvar var = _chunks[*it].decision;
+    failed.push_back(Tlit(var, var_value(var)));
+  }
+  return failed;
+}
+
+Tclause napsat::NapSAT::failed_conflict(bitset& core) const
+{
+  bitset expanded(_n_allocated_chunks);
   for (const Tclause conflict : _conflicts) {
+    core = bitset(_n_allocated_chunks);
     const Tlit* lits = clause_lits(conflict);
     const unsigned size = clause_size(conflict);
-    conflict_chunks.clear();
     for (unsigned i = 0; i < size; i++) {
-      conflict_chunks |= lit_chunks(lits[i]);
+      core |= lit_chunks(lits[i]);
     }
-    if (conflict_chunks <= _locked_chunks) {
-      // all chunks in the conflict are locked, the assumptions that started them failed
-      for (auto it = conflict_chunks.cbegin(); it != conflict_chunks.cend(); ++it) {
-        Tvar var = _chunks[*it].decision;
-        failed.push_back(Tlit(var, var_value(var)));
-      }
-      return failed;
+    // with lazy chunk merging, the chunks may be implied by the locked ones
+    expanded.clear();
+    bitset todo = core - _locked_chunks;
+    while (!todo.empty()) {
+      Tchunk ck = *todo.cbegin();
+      if (!_chunks[ck].is_reimplied)
+        break;
+      expanded.set(ck, true);
+      core |= _chunks[ck].missed_implication;
+      todo = (core - _locked_chunks) - expanded;
+    }
+    if (todo.empty()) {
+      // all chunks are locked, or implied by locked ones
+      core -= expanded;
+      return conflict;
     }
   }
-  ASSERT(false);
-  return failed;
+  return CLAUSE_UNDEF;
 }
 
 std::vector<Tclause> napsat::NapSAT::clause_unsat_core()
@@ -132,56 +150,36 @@ std::vector<Tclause> napsat::NapSAT::clause_unsat_core()
   }
 
   // search the conflict that is responsible for the UNSAT
-  bitset conflict_chunks(_n_allocated_chunks);
-  Tclause conflict_clause = CLAUSE_UNDEF;
-  for (const Tclause conflict : _conflicts) {
-    const Tlit* lits = clause_lits(conflict);
-    const unsigned size = clause_size(conflict);
-    conflict_chunks.clear();
-    for (unsigned i = 0; i < size; i++) {
-      conflict_chunks |= lit_chunks(lits[i]);
-    }
-    if (conflict_chunks <= _locked_chunks) {
-      // all chunks in the conflict are locked, the assumption failed
-      conflict_clause = conflict;
-      break;
-    }
-  }
+  bitset core(_n_allocated_chunks);
+  Tclause conflict_clause = failed_conflict(core);
+  ASSERT(conflict_clause != CLAUSE_UNDEF);
 
   // now perform some sort of conflict analysis to find all clauses in the unsat core
   const set<Tclause>& dependecies = _dependency_tracker->get_dependencies(conflict_clause);
   failed.insert(dependecies.begin(), dependecies.end());
 
-  // mark all literals in the conflict clause
-  ASSERT(all_of(_vars.begin(), _vars.end(), [](const TSvar& var) { return !var.marked; }));
+  // follow the implications of the literals in the conflict clause
+  set<Tvar> visited;
   const Tlit* lits = clause_lits(conflict_clause);
-  const unsigned size = clause_size(conflict_clause);
-  for (unsigned i = 0; i < size; i++)
-    lit_mark(lits[i]);
-
-  // perform a reverse traversal of the trail
-  for (size_t i = _trail.size(); i-- > 0;) {
-    Tlit lit = _trail[i];
-    if (!lit_marked(lit)) {
+  vector<Tlit> todo(lits, lits + clause_size(conflict_clause));
+  while (!todo.empty()) {
+    Tlit lit = todo.back();
+    todo.pop_back();
+    if (!visited.insert(lit.var()).second)
       continue;
-    }
-    lit_unmark(lit);
-    Tclause reason = lit_reason(lit);
-    ASSERT(reason != CLAUSE_UNDEF || lit_locked(lit));
-
     if (lit_locked(lit)) {
       // the literal is an assumption, nothing to do
       continue;
     }
+    Tclause reason = lit_decision(lit) ? lit_lazy_reason(lit) : lit_reason(lit);
+    ASSERT(reason != CLAUSE_UNDEF);
 
     // add the reason clause to the unsat core
     const set<Tclause>& deps = _dependency_tracker->get_dependencies(reason);
     failed.insert(deps.begin(), deps.end());
-    // mark all the other literals in the reason clause
+    // follow all the other literals in the reason clause
     const Tlit* rlits = clause_lits(reason);
-    const unsigned rsize = clause_size(reason);
-    for (unsigned j = 1; j < rsize; j++)
-      lit_mark(rlits[j]);
+    todo.insert(todo.end(), rlits + 1, rlits + clause_size(reason));
   }
 
   std::vector<Tclause> to_return(failed.begin(), failed.end());
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 55e3f34..edadd89 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -84,7 +84,17 @@ void NapSAT::restart()
   NOTIFY_STAT(_n_restart);
   if (_options.graph_backtracking) {
     unsigned tmp = _n_propagated_lits;
-    backtrack(LEVEL_ROOT);
+    if (_n_assumptions == 0) {
+      backtrack(LEVEL_ROOT);
+    } else {
+      // the assumptions cannot be backtracked
+      bitset chunks(_n_allocated_chunks);
+      for (Tlevel level = 1; level <= solver_level(); level++)
+        chunks |= lit_chunks(decision_lit(level));
+      chunks -= _locked_chunks;
+      if (!chunks.empty())
+        backtrack(chunks);
+    }
     _n_propagated_lits = min(tmp, _n_propagated_lits);
     size_t i = _trail.size();
     while (i > 0) {
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index f4fea35..4048baf 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -2337,6 +2337,14 @@ public:
      */
     void add_assumption_GB_undef(Tlit lit);
 
+    /**
+     * @brief Search a conflict that cannot be repaired without backtracking an
+     * assumption.
+     * @param core set of locked chunks that are responsible for the conflict.
+     * @return the failing conflict, or CLAUSE_UNDEF if there is none.
+     */
+    Tclause failed_conflict(bitset& core) const;
+
     void remove_assumption_N_CB(Tlit lit);
 
     void remove_assumption_GB(Tlit lit);
-- 
2.43.0


From afdf85977d30e3392c4724477589ad5564a26804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:32 +0000
Subject: [PATCH 17/53] fix: push the assumptions given as a vector

---
 src/solver/NapSAT-assumptions.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index fdbce27..827a0e2 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -42,7 +42,18 @@ bool NapSAT::assume(Tlit assumption)
 
 bool NapSAT::add_assumption(const std::vector<Tlit>& assumptions)
 {
-  return false;
+  vector<Tlit> added;
+  for (Tlit assumption : assumptions) {
+    bool locked = lit_locked(assumption);
+    if (!assume(assumption)) {
+      for (Tlit lit : added)
+        forget_assumption(lit);
+      return false;
+    }
+    if (!locked)
+      added.push_back(assumption);
+  }
+  return true;
 }
 
 bool NapSAT::forget_assumption(Tlit assumption)
-- 
2.43.0


From 14f43b8d53bc8312055096b2df06d1cba4e361d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 18/53] fix: estimate the sum of chunk costs from the right
 chunks

---
 src/solver/NapSAT-conflict.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 660db6f..2de1f69 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -545,11 +545,11 @@ void NapSAT::calculate_bitset_weights_approx(vector<Tweight>& weights)
       lit_chunks_set = lit_chunks(lit);
       lit_chunks_set &= counted_chunks;
       count = lit_chunks_set.count();
-    } else {
       last_chunks = &lit_chunks(lit);
     }
     // if the literal belongs to all, or none of the counted chunks, we can skip it because it will not change the order of the weights
-    if (count == 0 || count == counted_chunk_size)
+    // (except for the sum estimation, which counts the literal once per chunk)
+    if (count == 0 || (count == counted_chunk_size && !_options.use_sum_approximate_cost_estimation))
       continue;
 
     double lit_cost = literal_cost(lit);
-- 
2.43.0


From 0e5f1c94a262a5055370388458f879f53036d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 19/53] fix: merge reimplied chunks also beyond the limit of
 backtrack possibilities

---
 src/solver/NapSAT-conflict.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 2de1f69..a9d33d5 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -138,8 +138,8 @@ void NapSAT::enhance_backtrack_possibilities_with_lazy_merging(const bitset& com
   size_t original_size = possibilities.size();
   while(original_size > 0) {
     bitset current = possibilities[original_size - 1];
-    if (possibilities.size() > _options.backtrack_possibilities_limit
-     || !current.has_intersection(mergeable_chunks)) {
+    // the limit only bounds the number of combinations: a mergeable chunk can never be backtracked alone
+    if (!current.has_intersection(mergeable_chunks)) {
       // no mergeable chunk, nothing to do
       original_size--;
       continue;
-- 
2.43.0


From dc5ff1b8308aff21a84743623d3cacfc1534d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 20/53] fix: repair the conflict that reaches the conflict
 limit before stopping

---
 src/solver/NapSAT.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index edadd89..bb08714 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -396,12 +396,6 @@ bool NapSAT::propagate()
 
     if (!_conflicts.empty()) {
       _conflict_count++;
-      if (_options.conflict_limit >= 0 && _conflict_count > _options.conflict_limit) {
-        LOG_INFO("Conflict limit reached: " + std::to_string(_options.conflict_limit));
-        // the literal is not propagated yet. The conflict will be found again by the next propagation
-        _conflicts.clear();
-        return false;
-      }
       repair_conflicts();
 
       if (_status == status::UNSAT) {
@@ -413,6 +407,12 @@ bool NapSAT::propagate()
       if (_options.restarts && _luby_counter.increment()) {
         restart();
       }
+      if (_options.conflict_limit >= 0 && _conflict_count >= _options.conflict_limit) {
+        // the conflict is repaired before stopping, because it may not be found again: the watched literals of the
+        // conflicting clause may have been replaced by literals that are already propagated
+        LOG_INFO("Conflict limit reached: " + std::to_string(_options.conflict_limit));
+        return false;
+      }
     }
   }
 
-- 
2.43.0


From 1cd6f61397f34cbfb332268a00b7a024f9f7d0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:31 +0000
Subject: [PATCH 21/53] fix: keep dependencies on a literal that becomes an
 assumption

---
 src/solver/NapSAT-assumptions.cpp | 63 ++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 827a0e2..bc45082 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -249,6 +249,9 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
    * 3. update the chunks of all literals whose chunks are superset of the chunk of the assumed literal (before the change)
    * 4. update the levels of all literals above `level` in the trail (because we added a decision)
    */
+  if (_free_chunks.empty()) {
+    allocate_chunks(2 * _n_allocated_chunks);
+  }
   bitset lit_chunk = lit_chunks(lit);
   _decision_index.resize(_decision_index.size() + 1);
   _decision_index[level] = pos;
@@ -270,35 +273,53 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
 
   lit_lock(lit);
 
+  // the missed implications that may depend on the literal now depend on its new chunk
+  auto update_missed_implication = [this, &lit_chunk, ck](Tlit decision) {
+    if (lit_lazy_reason(decision) == CLAUSE_UNDEF)
+      return;
+    bitset& missed = _chunks[*lit_chunks(decision).cbegin()].missed_implication;
+    if (missed >= lit_chunk)
+      missed.set(ck, true);
+  };
+  // the propagations that may depend on the literal must be replayed when its new chunk is removed
+  auto update_cross_chunks = [this, &lit_chunk, ck](Tlit l) {
+    if (lit_cross_chunks(l) >= lit_chunk)
+      lit_cross_chunks(l).set(ck, true);
+  };
+  for (size_t i = 0; i <= pos; i++) {
+    Tlit l = _trail[i];
+    update_cross_chunks(l);
+    if (l != lit && lit_decision(l))
+      update_missed_implication(l);
+  }
+
   // update the chunks and levels of all literals above `pos` in the trail
   for (size_t i = pos + 1; i < _trail.size(); i++) {
     Tlit l = _trail[i];
-    // decisions should be updated in the index
-    // we do not need to compute -1 because we are going to increment the level right after
+    update_cross_chunks(l);
     if (lit_decision(l)) {
+      update_missed_implication(l);
+      // decisions should be updated in the index
+      // we do not need to compute -1 because we are going to increment the level right after
       _decision_index[lit_level(l)] = i;
-    }
-    // update level
-    if (lit_level(l) >= level) {
       lit_level(l)++;
       NOTIFY(update_level, l, lit_level(l));
+      continue;
+    }
+    // only the literals that may depend on the assumption, or on a decision that moved need to be updated
+    if (lit_level(l) <= level && !(lit_chunks(l) >= lit_chunk))
+      continue;
+    Tlevel recomputed_level = LEVEL_ROOT;
+    lit_chunks(l).clear();
+    const Tclause reason = lit_reason(l);
+    ASSERT(reason != CLAUSE_UNDEF);
+    const Tlit* lits = clause_lits(reason);
+    const unsigned size = clause_size(reason);
+    for (unsigned j = 1; j < size; j++) {
+      lit_chunks(l) |= lit_chunks(lits[j]);
+      recomputed_level = std::max(recomputed_level, lit_level(lits[j]));
     }
-    // update chunks if necessary
-    if (lit_chunk >= lit_chunks(l)) {
-      Tlevel recomputed_level = LEVEL_ROOT;
-      lit_chunks(l).clear();
-      const Tclause reason = lit_reason(l);
-      ASSERT(reason != CLAUSE_UNDEF);
-      const Tlit* lits = clause_lits(reason);
-      const unsigned size = clause_size(reason);
-      for (unsigned j = 1; j < size; j++) {
-        Tlit rl = lits[j];
-        lit_chunks(l) |= lit_chunks(rl);
-        recomputed_level = std::max(recomputed_level, lit_level(rl));
-      }
-      if (lit_level(l) != recomputed_level) {
-        NOTIFY(update_level, l, recomputed_level);
-      }
+    if (lit_level(l) != recomputed_level) {
       lit_level(l) = recomputed_level;
       NOTIFY(update_level, l, recomputed_level);
     }
-- 
2.43.0


From f4ac5f1ef987b9bba99415493a5401774afb8abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 22/53] fix: turn forgotten assumptions that were implied into
 ordinary decisions

---
 src/solver/NapSAT-assumptions.cpp | 25 +++++++++++++++++++++++--
 src/solver/NapSAT.hpp             |  6 ++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index bc45082..30f172b 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -68,7 +68,7 @@ bool NapSAT::forget_assumption(Tlit assumption)
     // unlock the chunk of the literal
     ASSERT(lit_chunks(assumption).count() == 1);
     _locked_chunks -= lit_chunks(assumption);
-    lit_unlock(assumption);
+    unlock_decision(assumption);
   }
   if (_status == status::UNSAT && _empty_clause == CLAUSE_UNDEF) {
     _status = status::UNKNOWN;
@@ -86,7 +86,7 @@ void NapSAT::forget_assumption()
       Tvar var = _chunks[*it].decision;
       Tlit lit(var, var_value(var));
       ASSERT(lit_decision(lit));
-      lit_unlock(lit);
+      unlock_decision(lit);
     }
     _locked_chunks.clear();
   }
@@ -96,6 +96,24 @@ void NapSAT::forget_assumption()
   }
 }
 
+void napsat::NapSAT::unlock_decision(Tlit lit)
+{
+  ASSERT(lit_decision(lit));
+  lit_unlock(lit);
+  if (lit_lazy_reason(lit) == CLAUSE_UNDEF)
+    return;
+  // the assumption was implied when it was added. It is now an ordinary decision, which is
+  // a missed implication with lazy chunk merging only. Otherwise, the reason will be replayed
+  // when the decision is undone.
+  TSchunk& chunk = _chunks[*lit_chunks(lit).cbegin()];
+  if (_options.lazy_chunk_merging) {
+    chunk.is_reimplied = true;
+  } else {
+    lit_lazy_reason(lit) = CLAUSE_UNDEF;
+    chunk.missed_implication.clear();
+  }
+}
+
 std::vector<Tlit> napsat::NapSAT::unsat_core() const
 {
   ASSERT(_status == status::UNSAT);
@@ -273,6 +291,9 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
 
   lit_lock(lit);
 
+  // the clause must be propagated again when the literal is undone
+  lit_cross_chunks(clause_lits(lit_lazy_reason(lit))[1]).set(ck, true);
+
   // the missed implications that may depend on the literal now depend on its new chunk
   auto update_missed_implication = [this, &lit_chunk, ck](Tlit decision) {
     if (lit_lazy_reason(decision) == CLAUSE_UNDEF)
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 4048baf..d12b22a 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -2294,6 +2294,12 @@ public:
      */
     void add_assumption_GB_true(Tlit lit);
 
+    /**
+     * @brief Unlocks an assumption, which becomes an ordinary decision.
+     * @param lit a locked decision literal.
+     */
+    void unlock_decision(Tlit lit);
+
     /**
      * @brief Adds the literal as a false assumption in graph backtracking.
      * @param lits list of literals to add as assumptions.
-- 
2.43.0


From 01f6bf44c73928e261042419b230ac4e9b3beaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:29 +0000
Subject: [PATCH 23/53] fix: forget the clauses visited by a failed proof check

---
 src/proof/proof.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index a1d0372..b7e1b9a 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -279,14 +279,14 @@ bool resolution_proof::check_proof(void)
     LOG_ERROR("The proof does not derive the empty clause");
     return false;
   }
+  bool correct = true;
   vector<unsigned> clauses_to_check;
   clauses_to_check.push_back(empty_clause_id);
-  while(!clauses_to_check.empty()) {
+  while(correct && !clauses_to_check.empty()) {
     unsigned index = clauses_to_check.back();
     clauses[index].marked = true;
     clauses_to_check.pop_back();
-    if (!check_resolution_chain(index))
-      return false;
+    correct = check_resolution_chain(index);
     clause &c = clauses[index];
     for (pair<Tlit, unsigned> link : c.resolution_chain)
       if (!clauses[link.second].marked)
@@ -294,7 +294,7 @@ bool resolution_proof::check_proof(void)
   }
   for (unsigned i = 0; i < clauses.size(); i++)
     clauses[i].marked = false;
-  return true;
+  return correct;
 }
 
 bool resolution_proof::check_tautology(Tlit* lits, unsigned size)
-- 
2.43.0


From 7591c333ace8b5ff979832037a7cac51f8aa51f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:17 +0000
Subject: [PATCH 24/53] fix: require a pivot in every proof step but the first

---
 src/proof/proof.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index b7e1b9a..a7ff698 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -163,10 +163,16 @@ bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)
     return true;
   }
   tmp_lits.clear();
+  bool first = true;
   for (pair<Tlit, unsigned> link : c.resolution_chain) {
     Tlit pivot = link.first;
     assert(link.second < clauses.size());
     clause &cl = clauses[link.second];
+    if (first != (pivot == LIT_UNDEF)) {
+      LOG_ERROR("Only the first link of the chain of clause " + to_string(index) + " has no pivot");
+      return false;
+    }
+    first = false;
     if (pivot != LIT_UNDEF) {
       // the pivot must be in the current resolvent and its negation in the clause
       unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
-- 
2.43.0


From 3452a29724eb1627976e3276349bbda46e413091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 25/53] fix: switch lazy strong chronological backtracking off
 when graph backtracking subsumes it

---
 src/solver/SAT-options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/SAT-options.cpp b/src/solver/SAT-options.cpp
index 45c4822..f79e233 100644
--- a/src/solver/SAT-options.cpp
+++ b/src/solver/SAT-options.cpp
@@ -326,6 +326,7 @@ napsat::options::options(vector<string>& tokens)
     LOG_WARNING("graph backtracking subsumes chronological backtracking.");
     LOG_WARNING("The solver will run with graph backtracking.");
     chronological_backtracking = false;
+    lazy_strong_chronological_backtracking = false;
   }
 
   interactive |= !sentinel_options.commands_file.empty();
-- 
2.43.0


From 0486fe48e5129380a5a8e3a4f2879dc5d8c25a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 26/53] fix: consume the value of a global boolean option
 together with the option

---
 src/solver/SAT-options.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/SAT-options.cpp b/src/solver/SAT-options.cpp
index f79e233..2fdae1e 100644
--- a/src/solver/SAT-options.cpp
+++ b/src/solver/SAT-options.cpp
@@ -81,6 +81,8 @@ vector<string> env::extract_environment_variables(vector<string>& tokens) {
 
     if(bool_options.find(token) != bool_options.end()) {
       if (next_token != "" && next_token[0] != '-') {
+        // the value belongs to this option and must not be seen by the option that precedes it
+        i++;
         if (next_token == "on") {
           *bool_options[token] = true;
         }
-- 
2.43.0


From ee7d49f39bf1eea76fbb21b99753a280739e5d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 27/53] fix: reject numeric option values that are out of range
 or followed by garbage

---
 src/utils/options.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils/options.cpp b/src/utils/options.cpp
index 9127845..fd6c96d 100644
--- a/src/utils/options.cpp
+++ b/src/utils/options.cpp
@@ -15,6 +15,7 @@
 
 #include <cstdlib>
 #include <sstream>
+#include <stdexcept>
 
 using namespace std;
 
@@ -149,9 +150,13 @@ namespace napsat
       return false;
     }
     try {
-      _storage = stod(next_token);
+      size_t pos;
+      double value = stod(next_token, &pos);
+      if (pos != next_token.size())
+        throw invalid_argument(next_token);
+      _storage = value;
     }
-    catch (const std::invalid_argument&) {
+    catch (const std::exception&) {
       LOG_WARNING("option " << tokens[i] << " requires a floating point number value.");
       LOG_WARNING("Default value " << _storage << " is used.");
       return false;
-- 
2.43.0


From 197a8f852b6325327d23f0b67726c787fb73e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 28/53] fix: keep the clause being written in a buffer that can
 hold repeated literals

---
 src/solver/NapSAT-clauses.cpp | 4 ++--
 src/solver/NapSAT.cpp         | 8 +++-----
 src/solver/NapSAT.hpp         | 6 ++++++
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index e20d851..fa95ae5 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -108,7 +108,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
                                             bool external,
                                             Tclause id)
 {
-  ASSERT(lits_input != nullptr);
+  ASSERT(lits_input != nullptr || input_size == 0);
   ASSERT(id == CLAUSE_UNDEF || id < _clauses.size());
   ASSERT(id == CLAUSE_UNDEF || _clauses[id].deleted);
   if (external) {
@@ -170,7 +170,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
 
 
   // copy the literals to the clause
-  if (n_removed == 0)
+  if (n_removed == 0 && input_size > 0)
     memcpy(lits, lits_input, input_size * sizeof(Tlit));
   else {
     // cannot use memcpy because we skip the literals falsified at level 0
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index bb08714..004f1d1 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -543,7 +543,7 @@ void NapSAT::start_clause()
 {
   ASSERT(!_writing_clause);
   _writing_clause = true;
-  _lit_buffer_size = 0;
+  _written_clause.clear();
 }
 
 void NapSAT::add_literal(Tlit lit)
@@ -551,16 +551,14 @@ void NapSAT::add_literal(Tlit lit)
   ASSERT(_writing_clause);
   Tvar var = lit.var();
   var_allocate(var);
-  ASSERT(_lit_buffer_size < _vars.size().value);
-  _lit_buffer[_lit_buffer_size++] = lit;
+  _written_clause.push_back(lit);
 }
 
 napsat::Tclause NapSAT::finalize_clause()
 {
   ASSERT(_writing_clause);
-  Tclause cl = internal_add_clause(_lit_buffer, _lit_buffer_size, false, true);
+  Tclause cl = internal_add_clause(_written_clause.data(), _written_clause.size(), false, true);
   _writing_clause = false;
-  _lit_buffer_size = 0;
   return cl;
 }
 
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index d12b22a..e950bcf 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -818,6 +818,12 @@ public:
      */
     unsigned _lit_buffer_size = 0;
 
+    /**
+     * @brief Literals of the clause being written by the user. They may be repeated, so there can be
+     * more of them than there are variables.
+     */
+    std::vector<Tlit> _written_clause;
+
     /**
      * @brief Flag recording whether the most recent conflict is due to the user
      * @details In that case, the termination of CDCL-GB is not in danger and we
-- 
2.43.0


From 7f548bb4218c531e77076985735cac8ffaf5e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 29/53] fix: accept input file names shorter than the archive
 suffixes

---
 src/solver/NapSAT-utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 60d19f4..d7ab884 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -51,7 +51,7 @@ bool NapSAT::parse_dimacs(const char* filename)
   // the file is a compressed xz file
   // first decompress it and store it in a temporary file
   istringstream stream;
-  if (string(filename).substr(string(filename).size() - 3) == ".xz") {
+  if (string(filename).ends_with(".xz")) {
     // create a virtual file and read the content of the compressed file
     ostringstream decompressed_data;
     if (!decompress_xz(filename, decompressed_data)) {
@@ -60,7 +60,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       return false;
     }
     stream = istringstream(decompressed_data.str());
-  } else if (string(filename).substr(string(filename).size() - 4) == ".bz2") {
+  } else if (string(filename).ends_with(".bz2")) {
     // create a virtual file and read the content of the compressed file
     ostringstream decompressed_data;
     if (!decompress_bz2(filename, decompressed_data)) {
-- 
2.43.0


From 2e5a63787a1a17e02073dc569bfd1783db40dcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 30/53] fix: read DIMACS clauses that share a line, span
 several lines or are separated by tabs

---
 src/solver/NapSAT-utils.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index d7ab884..f8c264d 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -183,10 +183,8 @@ bool NapSAT::parse_dimacs(const char* filename)
 
     string token;
     istringstream ss(line);
-    start_clause();
-    while(getline(ss, token, ' ')) {
-      if (token.empty())
-        continue;
+    // a clause ends with 0: it may span several lines and a line may hold several clauses
+    while (ss >> token) {
       int lit;
       try {
         size_t pos;
@@ -195,17 +193,24 @@ bool NapSAT::parse_dimacs(const char* filename)
           throw invalid_argument(token);
       } catch (const exception &e) {
         LOG_ERROR("The token " << token << " is not a number.");
+        _writing_clause = false;
         _status = status::ERROR;
         return false;
       }
-      if (lit == 0)
-        break;
-      add_literal(Tlit(abs(lit), lit > 0));
+      if (!_writing_clause)
+        start_clause();
+      if (lit != 0) {
+        add_literal(Tlit(abs(lit), lit > 0));
+        continue;
+      }
+      finalize_clause();
+      if (_status != status::UNKNOWN)
+        return true;
     }
-    finalize_clause();
-    if (_status != status::UNKNOWN)
-      return true;
   }
+  // the last clause may lack its final 0
+  if (_writing_clause)
+    finalize_clause();
   return true;
 }
 
-- 
2.43.0


From 592b7175d8976b3e657c2a00b097e211c83ae484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 31/53] fix: reject the literal whose negation does not exist

---
 src/solver/NapSAT-utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index f8c264d..ac3c4fa 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -17,6 +17,7 @@
 #include "../utils/printer.hpp"
 #include "../utils/decoder.hpp"
 
+#include <climits>
 #include <iostream>
 #include <fstream>
 #include <iomanip>
@@ -189,7 +190,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       try {
         size_t pos;
         lit = stoi(token, &pos);
-        if (pos != token.size())
+        if (pos != token.size() || lit == INT_MIN)
           throw invalid_argument(token);
       } catch (const exception &e) {
         LOG_ERROR("The token " << token << " is not a number.");
-- 
2.43.0


From a335916c13810ad42ceb071d00cd04e392e02b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 32/53] fix: report a malformed DIMACS header and allocate the
 last variable it announces

---
 src/solver/NapSAT-utils.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index ac3c4fa..8118a77 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -170,8 +170,12 @@ bool NapSAT::parse_dimacs(const char* filename)
     if (is_prefix(line, "p cnf")) {
       if (first_line) {
         unsigned n_var, n_clauses;
-        sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses);
-        if (n_var > _vars.size().value) {
+        if (sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses) != 2) {
+          LOG_ERROR("Malformed header: " << line);
+          _status = status::ERROR;
+          return false;
+        }
+        if (n_var >= _vars.size().value) {
           LOG_INFO("Allocating " << n_var << " variables and " << n_clauses << " clauses.");
           var_allocate(n_var);
         }
-- 
2.43.0


From 141d47cf4650ec14941a7de43f5529cfb571fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 33/53] fix: treat DIMACS alias and weight comments without a
 positive variable as plain comments

---
 src/solver/NapSAT-utils.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 8118a77..895bca7 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -103,9 +103,10 @@ bool NapSAT::parse_dimacs(const char* filename)
       if (!var_string.empty() && !alias.empty() && rest.empty()) {
         try {
           size_t pos;
-          Tvar var = stoi(var_string, &pos);
-          if (pos != var_string.size())
+          int var_number = stoi(var_string, &pos);
+          if (pos != var_string.size() || var_number <= 0)
             throw invalid_argument(var_string);
+          Tvar var = var_number;
           if (var >= _vars.size())
             var_allocate(var + 1);
           sentinel::wrapper::set_variable_alias(_sentinel, var, alias);
@@ -140,9 +141,10 @@ bool NapSAT::parse_dimacs(const char* filename)
       if (!var_string.empty() && !weight_string.empty() && rest.empty()) {
         try {
           size_t pos;
-          Tvar var = stoi(var_string, &pos);
-          if (pos != var_string.size())
+          int var_number = stoi(var_string, &pos);
+          if (pos != var_string.size() || var_number <= 0)
             throw invalid_argument(var_string);
+          Tvar var = var_number;
           double weight = stod(weight_string, &pos);
           if (pos != weight_string.size())
             throw invalid_argument(weight_string);
-- 
2.43.0


From 520e4c6b285a054f741273f3b68efcac89638926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 34/53] fix: reject truncated .xz archives and release the
 decoder

---
 src/utils/decoder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils/decoder.cpp b/src/utils/decoder.cpp
index ba96cc4..039da09 100644
--- a/src/utils/decoder.cpp
+++ b/src/utils/decoder.cpp
@@ -108,6 +108,7 @@ bool decompress_xz(const char* filename, ostringstream& output)
   ifstream file(filename, ios::binary);
   if (!file.is_open()) {
     LOG_ERROR("could not open file " << filename);
+    lzma_end(&strm);
     return false;
   }
   unsigned const buff_size = 256;
@@ -125,12 +126,19 @@ bool decompress_xz(const char* filename, ostringstream& output)
       ret = lzma_code(&strm, LZMA_RUN);
       if (ret != LZMA_OK && ret != LZMA_STREAM_END) {
         print_error_message(ret);
+        lzma_end(&strm);
         return false;
       }
       output.write(buffer_out, sizeof(buffer_out) - strm.avail_out);
     } while (strm.avail_out == 0);
   } while (ret != LZMA_STREAM_END);
+  if (ret != LZMA_STREAM_END) {
+    LOG_ERROR("the compressed file is truncated");
+    lzma_end(&strm);
+    return false;
+  }
   LOG_INFO("Total Decompressed " << byte_size_to_string(strm.total_in) << " to " << byte_size_to_string(strm.total_out));
+  lzma_end(&strm);
 
   return true;
 }
-- 
2.43.0


From 9a87e9cca07ada115fdedb4da230e731f8ae46cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 35/53] fix: accept any spacing in the DIMACS header

---
 src/solver/NapSAT-utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 895bca7..fc88e09 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -169,7 +169,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       continue;
     if (is_prefix(line, "%"))
       break;
-    if (is_prefix(line, "p cnf")) {
+    if (is_prefix(line, "p")) {
       if (first_line) {
         unsigned n_var, n_clauses;
         if (sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses) != 2) {
-- 
2.43.0


From e004605a0b65f5b7570bc4bc0a78de00d12490b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 36/53] fix: report a directory given as input file instead of
 throwing

---
 src/solver/NapSAT-utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index fc88e09..76f656d 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -72,7 +72,9 @@ bool NapSAT::parse_dimacs(const char* filename)
     stream = istringstream(decompressed_data.str());
   } else {
     ifstream file = ifstream(filename);
-    if (!file.is_open()) {
+    // a directory can be opened but not read
+    file.peek();
+    if (!file.is_open() || file.bad()) {
       LOG_ERROR("The file " << filename << " could not be opened.");
       _status = status::ERROR;
       return false;
-- 
2.43.0


From 89dce85b17a6b7241db3d27fb682c7999dadfd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 37/53] fix: allocate no extra variable for a weight or alias
 comment

---
 src/solver/NapSAT-utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 76f656d..4d9bd3f 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -110,7 +110,7 @@ bool NapSAT::parse_dimacs(const char* filename)
             throw invalid_argument(var_string);
           Tvar var = var_number;
           if (var >= _vars.size())
-            var_allocate(var + 1);
+            var_allocate(var);
           sentinel::wrapper::set_variable_alias(_sentinel, var, alias);
           // done, next line
           continue;
@@ -151,7 +151,7 @@ bool NapSAT::parse_dimacs(const char* filename)
           if (pos != weight_string.size())
             throw invalid_argument(weight_string);
           if (var >= _vars.size())
-            var_allocate(var + 1);
+            var_allocate(var);
           var_weight(var) = weight;
           // done, next line
           continue;
-- 
2.43.0


From 075b0c71d09d310c8756cd4278b9e8e7154e7fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 38/53] fix: create exactly the variables asked for

---
 src/solver/NapSAT.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 004f1d1..c416c27 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -286,7 +286,7 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
   // TODO replace this with an std::vector
   _lit_buffer = new Tlit[2*n_var+1];
   _lit_buffer_size = 0;
-  var_allocate(n_var + 1);
+  var_allocate(n_var);
 
   if (options.build_proof)
     _proof = new napsat::proof::resolution_proof();
@@ -302,7 +302,7 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
 Tvar napsat::NapSAT::new_variable()
 {
   Tvar var = _vars.size();
-  var_allocate(_vars.size() + 1);
+  var_allocate(var);
   return var;
 }
 
-- 
2.43.0


From afb5ae77af627edd2eb30ecaea1d53ab0fe8fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 39/53] fix: print the usage when --all-models is given without
 a file

---
 main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.cpp b/main.cpp
index ea4c76a..ac31f28 100644
--- a/main.cpp
+++ b/main.cpp
@@ -46,6 +46,10 @@ int main(int argc, char** argv)
       argv[i] = argv[i + 1];
     }
     argc--;
+    if (argc < 2) {
+      cout << "Usage: " << argv[0] << " --all-models <input_file> [options]" << endl;
+      return 1;
+    }
   }
 
   vector<string> tokens(argv + 2, argv + argc);
-- 
2.43.0


From 1fed0bdceaa09da4ecba625279e345fcf2208aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 40/53] fix: count the events whose statistics are reported

---
 src/solver/NapSAT-backtrack.cpp | 1 +
 src/solver/NapSAT-clauses.cpp   | 2 ++
 src/solver/NapSAT-imply.cpp     | 2 ++
 src/solver/NapSAT-purge.cpp     | 2 ++
 src/solver/NapSAT-utils.cpp     | 1 +
 src/solver/NapSAT.cpp           | 3 +++
 src/solver/NapSAT.hpp           | 2 ++
 7 files changed, 13 insertions(+)

diff --git a/src/solver/NapSAT-backtrack.cpp b/src/solver/NapSAT-backtrack.cpp
index 7b1ecf8..f2e9a5c 100644
--- a/src/solver/NapSAT-backtrack.cpp
+++ b/src/solver/NapSAT-backtrack.cpp
@@ -27,6 +27,7 @@ void NapSAT::var_unassign(Tvar var)
 
   TSvar& v = _vars[var];
   NOTIFY(unassign, Tlit(var, v.state));
+  NOTIFY_STAT(unassignment);
   if (v.missed_lower_implication != CLAUSE_UNDEF) {
     v.missed_lower_implication = CLAUSE_UNDEF;
   }
diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index fa95ae5..23dd269 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -249,6 +249,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   NOTIFY_STAT(new_clause);
 
   if (learned) {
+    NOTIFY_STAT(_n_clause_learned);
     NOTIFY_STAT_N(_a_learned_clause_size, clause.size);
   }
 
@@ -350,6 +351,7 @@ void napsat::NapSAT::delete_clause(Tclause cl)
   clause.deleted = true;
   clause.watched = false;
   NOTIFY(delete_clause, cl);
+  NOTIFY_STAT(delete_clause);
   if(_proof)
     _proof->deactivate_clause(cl);
   if (_dependency_tracker && clause.external) {
diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 25221d9..fc2d464 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -61,6 +61,7 @@ void NapSAT::imply_literal(Tlit lit, Tclause reason)
     _decision_index.push_back(_trail.size() - 1);
     svar.level = solver_level();
     NOTIFY(assign, lit);
+    NOTIFY_STAT(decision);
     if (_options.graph_backtracking) {
       if (_free_chunks.empty()) {
         allocate_chunks(2 * _n_allocated_chunks);
@@ -107,6 +108,7 @@ void NapSAT::imply_literal(Tlit lit, Tclause reason)
       }
     }
     NOTIFY(assign, lit, reason);
+    NOTIFY_STAT(implication);
   }
 
   if (svar.level == LEVEL_ROOT) {
diff --git a/src/solver/NapSAT-purge.cpp b/src/solver/NapSAT-purge.cpp
index 6d4714b..fc3a01a 100644
--- a/src/solver/NapSAT-purge.cpp
+++ b/src/solver/NapSAT-purge.cpp
@@ -175,6 +175,7 @@ void napsat::NapSAT::purge_clauses()
         // remove the literal and push it to the back
         // we push it to the back so that we can print the clause even after the literal is removed
         NOTIFY(shrink_clause, cl, *i);
+        NOTIFY_STAT(remove_literal);
         Tlit tmp = *i;
         *i = *end;
         *end = tmp;
@@ -205,6 +206,7 @@ void napsat::NapSAT::purge_clauses()
         }
 #endif
         NOTIFY(shrink_clause, cl, lits[1]);
+        NOTIFY_STAT(remove_literal);
         clause.size--;
       }
     }
diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 4d9bd3f..269ed5c 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -349,6 +349,7 @@ void NapSAT::var_allocate(Tvar var)
     _vars[i].chunks.resize(_n_allocated_chunks);
     _vars[i].cross_chunks.resize(_n_allocated_chunks);
     NOTIFY(add_variable, i);
+    NOTIFY_STAT(new_variable);
   }
 
   _watches.resize(2 * var.value + 2);
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index c416c27..0928991 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -392,10 +392,12 @@ bool NapSAT::propagate()
       _vars[lit.var()].propagated = true;
       _n_propagated_lits++;
       NOTIFY(propagate, lit);
+      NOTIFY_STAT(propagation);
     }
 
     if (!_conflicts.empty()) {
       _conflict_count++;
+      NOTIFY_STAT(conflict);
       repair_conflicts();
 
       if (_status == status::UNSAT) {
@@ -425,6 +427,7 @@ bool NapSAT::propagate()
 
 status NapSAT::solve()
 {
+  NOTIFY_STAT(done);
   auto start_time = std::chrono::high_resolution_clock::now();
   if (_status != status::UNKNOWN) {
     ASSERT(_status != status::SAT || _options.ignore_unused_variables || _trail.size() == _vars.size().value - 1);
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index e950bcf..d9b6922 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1382,6 +1382,7 @@ public:
       ASSERT(!_vars[var].locked);
       _vars[var].locked = true;
       NOTIFY(lock_assumption, Tlit(var, var_value(var)));
+      NOTIFY_STAT(lock_assumption);
       _n_assumptions++;
     }
     inline void lit_lock(Tlit lit) { var_lock(lit.var()); }
@@ -1390,6 +1391,7 @@ public:
       ASSERT(_vars[var].locked);
       _vars[var].locked = false;
       NOTIFY(unlock_assumption, Tlit(var, var_value(var)));
+      NOTIFY_STAT(unlock_assumption);
       _n_assumptions--;
     }
     inline void lit_unlock(Tlit lit) { var_unlock(lit.var()); }
-- 
2.43.0


From 80d676649960a1993f3c11534e42bc7225774750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 41/53] fix: free the statistics with the solver

---
 src/solver/NapSAT.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 0928991..c2fa6ed 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -318,6 +318,10 @@ NapSAT::~NapSAT()
     delete _proof;
   if (_dependency_tracker)
     delete _dependency_tracker;
+#if USE_STATISTICS
+  if (_statistics)
+    delete _statistics;
+#endif
   delete[] _lit_buffer;
 }
 
-- 
2.43.0


From 1f075539183d8bd52cc259457688b9807ff5ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 42/53] fix: do not step before the first watch when purging
 the root literals

---
 src/solver/NapSAT-purge.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-purge.cpp b/src/solver/NapSAT-purge.cpp
index fc3a01a..5205cd7 100644
--- a/src/solver/NapSAT-purge.cpp
+++ b/src/solver/NapSAT-purge.cpp
@@ -74,10 +74,8 @@ void napsat::NapSAT::purge_root_watch_lists()
     vector<TSwatch>& watch_list = _watches[lit];
     TSwatch* j = watch_list.data();
     TSwatch* k = j;
-    // start one before so that we just need to increment at the start of the loop
-    j--;
     TSwatch* end = j + watch_list.size();
-    while (j++ < end) {
+    for (; j < end; j++) {
       TSwatch &w = *j;
       Tclause cl = w.cl;
       TSclause& clause = _clauses[cl];
-- 
2.43.0


From e3387531d472442e4a00e05f2b5af53a37cf9cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 43/53] fix: use the suggested polarity for the first decision
 on a variable

---
 src/solver/NapSAT.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index d9b6922..5e1279b 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -480,6 +480,9 @@ namespace napsat
       Tvar var = lit.var();
       ASSERT(var < _vars.size());
       _vars[var].phase_cache = polarity ? 1 : 0;
+      // the decisions take the polarity of the last synchronization
+      if (var_undef(var))
+        _vars[var].synced = polarity ? 1 : 0;
     }
 
     void set_weight_function(std::function<double(Tlit)> func) {
-- 
2.43.0


From 93531fabd32b5310eae6cf7155f37ea9eee0c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:00 +0000
Subject: [PATCH 44/53] fix: repair pending conflicts before an assumption is
 added

Adding an assumption right after a clause that conflicts with the assignment undid literals of the
conflict, and the stale conflict later made the solver answer UNSAT.
---
 src/solver/NapSAT-assumptions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 30f172b..77a538b 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -26,6 +26,12 @@ bool NapSAT::assume(Tlit assumption)
     ASSERT(false);
   }
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
+  // the conflicts of clauses added since the last propagation must be repaired before the trail is changed. Undoing
+  // literals to make room for the assumption would satisfy or unassign them.
+  if (_status != status::UNSAT && !_conflicts.empty())
+    repair_conflicts();
+  if (_status == status::UNSAT)
+    return false;
   // In CB and NCB, assumptions are added as decisions at the bottom of the trail.
   bool success = true;
   if (_options.graph_backtracking) {
-- 
2.43.0


From a76c8afb27cedf64aeec2a629f6291b532c82178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 45/53] fix: keep the SAT status when an assumption is refused

---
 src/solver/NapSAT-assumptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 77a538b..6968b6c 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -367,7 +367,6 @@ bool NapSAT::add_assumption_GB_false(Tlit lit)
 bool NapSAT::add_assumption_GB_false(std::vector<Tlit>& lits)
 {
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
-  _status = status::UNKNOWN;
   ASSERT(!lits.empty());
   ASSERT(_options.graph_backtracking);
   ASSERT(all_of(lits.begin(), lits.end(),
@@ -402,6 +401,7 @@ bool NapSAT::add_assumption_GB_false(std::vector<Tlit>& lits)
   const Tweight& best = weights.back();
 
   cout << "Removing chunks " << best.chunks.to_string() << " to add assumptions with weight " << best.total_weight << endl;
+  _status = status::UNKNOWN;
   backtrack(best.chunks);
 
   for (Tlit l : lits) {
-- 
2.43.0


From b996c1109f9afeae246739d72ca4a73572ea207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 46/53] fix: print_trail failed when no decision was taken

---
 src/utils/printer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/printer.cpp b/src/utils/printer.cpp
index 7f23b1e..a7620a9 100644
--- a/src/utils/printer.cpp
+++ b/src/utils/printer.cpp
@@ -57,7 +57,7 @@ static inline unsigned log10(int n)
 string pad(unsigned n, unsigned max_int)
 {
   n = max(n, 1u);
-  int max_digits = log10(max_int);
+  int max_digits = log10(max(max_int, 1u));
   int digits = log10(n);
   string s = "";
   for (int i = digits; i < max_digits; i++)
-- 
2.43.0


From f9eff5029b00f56f0630bb58db6815414807d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 47/53] fix: reject malformed interactive commands and refuse
 those whose preconditions fail

Numbers that are malformed or out of range ended the program, unknown variables were read out of
bounds, the watch lists kept clauses deleted by the user, and reasons could be deleted.
---
 src/solver/NapSAT-utils.cpp | 103 ++++++++++++++++++++++++------------
 src/solver/NapSAT.cpp       |   3 +-
 2 files changed, 72 insertions(+), 34 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 269ed5c..5c4e647 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -1002,12 +1002,42 @@ bool NapSAT::parse_command(std::string input)
     LOG_WARNING("Empty command. Try \"HELP\" to get the list of commands.");
     return false;
   }
+  auto parse_number = [](const string& token, int& number) {
+    size_t length = 0;
+    try {
+      number = stoi(token, &length);
+    } catch (const std::logic_error&) {
+      length = 0;
+    }
+    if (length != token.size()) {
+      LOG_WARNING("\"" << token << "\" is not a valid number. This command is ignored.");
+      return false;
+    }
+    return true;
+  };
+  auto parse_literal = [this, &parse_number](const string& token, Tlit& lit, bool new_variable = false) {
+    int number = 0;
+    if (!parse_number(token, number))
+      return false;
+    if (number == 0 || number == INT_MIN
+        || (!new_variable && static_cast<unsigned>(abs(number)) >= _vars.size().value)) {
+      LOG_WARNING("\"" << token << "\" is not a literal. This command is ignored.");
+      return false;
+    }
+    lit = Tlit(abs(number), number > 0);
+    return true;
+  };
   if (tokens[0] == "DECIDE") {
+    if (_status == status::UNSAT || (_status == status::SAT && tokens.size() > 1)) {
+      LOG_WARNING("The search is over. This command is ignored.");
+      return false;
+    }
     if (tokens.size() == 1)
       decide();
     else if (tokens.size() == 2) {
-      int lit_int = stoi(tokens[1]);
-      Tlit lit = Tlit(abs(lit_int), lit_int > 0);
+      Tlit lit;
+      if (!parse_literal(tokens[1], lit))
+        return false;
       if (!lit_undef(lit)) {
         LOG_WARNING("The literal " << lit_to_string(lit) << " is not undefined. This command is ignored.");
         return false;
@@ -1024,8 +1054,13 @@ bool NapSAT::parse_command(std::string input)
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
       return false;
     }
-    int lit_int = stoi(tokens[1]);
-    Tlit lit(abs(lit_int), lit_int > 0);
+    Tlit lit;
+    if (!parse_literal(tokens[1], lit))
+      return false;
+    if (!_options.graph_backtracking) {
+      LOG_WARNING("Assumptions are only supported with graph backtracking. This command is ignored.");
+      return false;
+    }
     if (!assume(lit)) {
       LOG_WARNING("The assumption of literal " << lit_to_string(lit) << " failed.");
       return false;
@@ -1036,42 +1071,35 @@ bool NapSAT::parse_command(std::string input)
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
       return false;
     }
-    int lit_int = stoi(tokens[1]);
-    Tlit lit(abs(lit_int), lit_int > 0);
+    Tlit lit;
+    if (!parse_literal(tokens[1], lit))
+      return false;
+    if (!_options.graph_backtracking) {
+      LOG_WARNING("Assumptions are only supported with graph backtracking. This command is ignored.");
+      return false;
+    }
     if (!forget_assumption(lit)) {
       LOG_WARNING("The forgetting of assumption of literal " << lit_to_string(lit) << " failed.");
       return false;
     }
   }
   else if (tokens[0] == "HINT") {
-    if (tokens.size() == 2) {
-      int lit = stoi(tokens[1]);
-      if (!lit_undef(lit)) {
-        LOG_WARNING("The literal " << lit_to_string(lit) << " is not undefined. This command is ignored.");
-        return false;
-      }
-      hint(Tlit(abs(lit), lit > 0));
-    }
-    else if (tokens.size() == 3) {
-      int lit = stoi(tokens[1]);
-      if (!lit_undef(lit)) {
-        LOG_WARNING("The literal " << lit_to_string(lit) << " is not undefined. This command is ignored.");
-        return false;
-      }
-      Tlevel level = stoi(tokens[2]);
-      hint(Tlit(abs(lit), lit > 0), level);
-    }
-    else {
-      LOG_WARNING("Wrong number of arguments (expected 0 or 1). This command is ignored.");
-      return false;
-    }
+    LOG_WARNING("Hints are not supported yet. This command is ignored.");
+    return false;
   }
   else if (tokens[0] == "LEARN") {
-    start_clause();
+    if (tokens.size() == 1) {
+      LOG_WARNING("Wrong number of arguments (expected at least 1). This command is ignored.");
+      return false;
+    }
+    vector<Tlit> lits(tokens.size() - 1);
     for (unsigned i = 1; i < tokens.size(); i++) {
-      int lit = stoi(tokens[i]);
-      add_literal(Tlit(abs(lit), lit > 0));
+      if (!parse_literal(tokens[i], lits[i - 1], true))
+        return false;
     }
+    start_clause();
+    for (Tlit lit : lits)
+      add_literal(lit);
     finalize_clause();
   }
   else if (tokens[0] == "EXIT") {
@@ -1098,16 +1126,25 @@ bool NapSAT::parse_command(std::string input)
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
       return false;
     }
-    Tclause cl = stoi(tokens[1]);
-    if (cl < 0 || cl >= _clauses.size()) {
-      LOG_WARNING("The clause " << cl << " does not exist. This command is ignored.");
+    int number = 0;
+    if (!parse_number(tokens[1], number))
+      return false;
+    Tclause cl = number;
+    if (number < 0 || cl >= _clauses.size()) {
+      LOG_WARNING("The clause " << tokens[1] << " does not exist. This command is ignored.");
       return false;
     }
     if (_clauses[cl].deleted) {
       LOG_WARNING("The clause " << cl << " is already deleted\n");
       return false;
     }
+    if (clause_size(cl) == 0 || is_protected(cl) || find(_conflicts.begin(), _conflicts.end(), cl) != _conflicts.end()) {
+      LOG_WARNING("The clause " << cl << " is needed by the current state of the search. This command is ignored.");
+      return false;
+    }
     delete_clause(cl);
+    // the identifier of the clause may be used again
+    repair_watch_lists();
   }
   else if (tokens[0] == "HELP") {
     // print the content of the help file
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index c2fa6ed..574d209 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -488,7 +488,8 @@ status NapSAT::solve()
     else
 #endif
       decide();
-    ASSERT(_status != status::UNSAT);
+    // a clause learned by the user may end the search
+    ASSERT(_status != status::UNSAT || _options.interactive);
     if (_status == status::SAT)
       break;
   }
-- 
2.43.0


From 8ffca5cd4093864a41f14094fa18daa6f22c727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 48/53] fix: show the cost of a variable only when it is
 assigned

---
 src/solver/NapSAT-utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 5c4e647..adf5691 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -671,7 +671,8 @@ std::string napsat::NapSAT::var_to_gui_info_string(Tvar var) const
   if (_options.graph_backtracking) {
     s += "γ: " + var_chunks(var).to_string() + "\n";
     s += "η: " + (var_cross_chunks(var) - var_chunks(var)).to_string() + "\n";
-    s += "ζ: " + to_string(literal_cost(Tlit(var, var_value(var)))) + "\n";
+    if (!var_undef(var))
+      s += "ζ: " + to_string(literal_cost(Tlit(var, var_value(var)))) + "\n";
   }
 
   for (unsigned pol = 0; pol < 2; pol++) {
-- 
2.43.0


From 0e39611ce7a6980a9be51644d75f4a19ce88720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 49/53] fix: print the missed implication of the decision's own
 chunk

---
 src/solver/NapSAT-utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index adf5691..74ab84e 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -851,7 +851,7 @@ void NapSAT::print_trail() const
       cout << " (γ = " << lit_chunks(lit).to_string() << ", ";
       cout <<   "η = " << (lit_cross_chunks(lit) - lit_chunks(lit)).to_string();
       if (lit_decision(lit) && lit_lazy_reason(lit) != CLAUSE_UNDEF) {
-        cout << ", ξ = " << _chunks[lit.var()].missed_implication.to_string();
+        cout << ", ξ = " << _chunks[*lit_chunks(lit).cbegin()].missed_implication.to_string();
       }
       cout << ")";
     }
-- 
2.43.0


From 6848a88c0bb347e3bb763a2692df0225e623e7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 50/53] fix: drop the backtrack possibilities subsumed by one
 found later

---
 src/solver/NapSAT-conflict.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index a9d33d5..964bb26 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -180,8 +180,7 @@ void NapSAT::compute_backtrack_possibilities(vector<bitset>& possibilities) cons
     bitset& prefix = p.second;
     prefixes.pop();
 
-    // by virtue of the priority queue, we know that future prefixes cannot subsum older ones.
-    // But it can still be the case that an older prefix subsumes a newer one
+    // check if an older prefix subsumes this one
     if (any_of(possibilities.begin(), possibilities.end(),
         [prefix](const bitset& p){ return p <= prefix; }
       )) {
@@ -190,6 +189,8 @@ void NapSAT::compute_backtrack_possibilities(vector<bitset>& possibilities) cons
     }
     if (p.first == prefix.count()) {
       // all conflicts are solved, we can stop
+      // the prefixes of equal priority come in any order, so this one may subsume a larger one found before
+      erase_if(possibilities, [&prefix](const bitset& p){ return prefix <= p; });
       possibilities.push_back(prefix);
       continue;
     }
-- 
2.43.0


From bd15a31010a6924d606dd43899e4c590a13d7278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 51/53] fix: synchronise the literals moved by an eager
 reimplication

---
 src/solver/NapSAT-imply.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index fc2d464..0f1bc03 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -404,6 +404,8 @@ void NapSAT::eager_decision_reimplication(Tlit decision, Tclause reason)
   ASSERT(decision_position < _trail.size());
   size_t last_position = find_literal_in_trail(last_literal);
   ASSERT(last_position < _trail.size());
+  // the literals move in the trail from there on, also those that are not synchronized yet
+  _sync_validity_index = min(_sync_validity_index, decision_position);
 
   // we mark the literals in the to_move buffer. This makes it easier to check if a literal needs to be moved as well, as we only need to check if one of its reasons is in the to_move buffer.
   // in principle, in GB, we could use chunks to determine whether a literal needs to be moved.
-- 
2.43.0


From 592ba22d73d89111c5464ddf87331bab626d2416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 52/53] fix: the alias of a variable does not create it when
 the solver is observed

---
 src/solver/NapSAT-utils.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 74ab84e..f407084 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -47,6 +47,19 @@ bool NapSAT::parse_dimacs(const char* filename)
 {
 #if USE_OBSERVER
   bool printed_warning = false;
+  // aliases of variables that are not allocated (yet). An alias does not allocate its variable, such
+  // that observing the solver does not change the set of variables.
+  vector<pair<Tvar, string>> pending_aliases;
+  auto set_aliases = [&]() {
+    vector<pair<Tvar, string>> still_pending;
+    for (auto &[var, alias] : pending_aliases) {
+      if (var < _vars.size())
+        sentinel::wrapper::set_variable_alias(_sentinel, var, alias);
+      else
+        still_pending.emplace_back(var, alias);
+    }
+    pending_aliases.swap(still_pending);
+  };
 #endif
   bool printed_weight_warning = false;
   // the file is a compressed xz file
@@ -109,9 +122,8 @@ bool NapSAT::parse_dimacs(const char* filename)
           if (pos != var_string.size() || var_number <= 0)
             throw invalid_argument(var_string);
           Tvar var = var_number;
-          if (var >= _vars.size())
-            var_allocate(var);
-          sentinel::wrapper::set_variable_alias(_sentinel, var, alias);
+          pending_aliases.emplace_back(var, alias);
+          set_aliases();
           // done, next line
           continue;
         }
@@ -182,6 +194,9 @@ bool NapSAT::parse_dimacs(const char* filename)
         if (n_var >= _vars.size().value) {
           LOG_INFO("Allocating " << n_var << " variables and " << n_clauses << " clauses.");
           var_allocate(n_var);
+#if USE_OBSERVER
+          set_aliases();
+#endif
         }
       } else {
         LOG_ERROR("Misplaced string \'p cnf\' found. Must be the first non-comment line.");
@@ -213,13 +228,20 @@ bool NapSAT::parse_dimacs(const char* filename)
         continue;
       }
       finalize_clause();
-      if (_status != status::UNKNOWN)
+      if (_status != status::UNKNOWN) {
+#if USE_OBSERVER
+        set_aliases();
+#endif
         return true;
+      }
     }
   }
   // the last clause may lack its final 0
   if (_writing_clause)
     finalize_clause();
+#if USE_OBSERVER
+  set_aliases();
+#endif
   return true;
 }
 
-- 
2.43.0


From 26a2acc7395c99549785702ca05de1aa1871c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:40 +0000
Subject: [PATCH 53/53] fix: the number of variables does not count the unused
 index 0

---
 src/solver/NapSAT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 5e1279b..605a7f2 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -223,7 +223,7 @@ namespace napsat
      * @brief Returns the number of variables in the solver.
      * @return the number of variables in the solver.
      */
-    inline Tvar var_count() const noexcept { return _vars.size(); }
+    inline Tvar var_count() const noexcept { return Tvar(_vars.size().value - 1); }
 
     /**
      * @brief Parse a DIMACS file and add the clauses to the clause set.
-- 
2.43.0

