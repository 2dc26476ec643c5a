#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
S = 'src/solver/'
UT = 'The existing tests exercise only the bitset, heap, AVL tree and dependency tracker in isolation; '
p('C01', 'Verdicts are right and every model satisfies the clauses',
  'Whatever clauses are added and whatever decisions are taken, a SAT answer comes with an assignment of every variable that satisfies every clause, and an UNSAT answer is given only for an unsatisfiable clause set; every solve call ends with one of the two.',
  ['inputs', 'schedules', 'configurations'], 'every clause set, every sequence of user decisions interleaved with propagation, every backtracking strategy',
  UT + 'no test ever calls the solver.', [S + 'NapSAT.cpp', S + 'NapSAT-conflict.cpp', S + 'NapSAT-propagation.cpp'],
  [('search loop', 'NapSAT::solve / propagate'), ('conflict repair', 'NapSAT::repair_conflicts')], observe=['solve', 'propagate', 'get_status', 'get_variable_value'])
p('C02', 'Every option combination gives the same verdict',
  'The options choose how the search runs, never what is true: for every accepted combination of strategy, restart, clause deletion, cost-estimation and numeric options the verdict is the one of the formula, and a SAT answer comes with a satisfying assignment.',
  ['configurations', 'inputs'], 'every combination of the behaviour options, including extreme numeric values, on every formula',
  UT + 'no test runs the solver with any option.', ['include/SAT-options.hpp', S + 'SAT-options.cpp', S + 'NapSAT-conflict.cpp', S + 'NapSAT-purge.cpp'],
  [('option lattice', 'options::build_option_parser'), ('cost estimation', 'calculate_bitset_weights*'), ('restarts', 'NapSAT::restart')])
p('C03', 'Incremental use equals solving from scratch',
  'Adding clauses, solving, deciding and propagating may be interleaved in any order; after any such history the answer is the one a fresh solver gives for the clauses added so far. UNSAT is final, and a SAT answer may only change by adding clauses.',
  ['histories', 'configurations'], 'every sequence of add-clause (at once or literal by literal), propagate, decide and solve calls',
  UT + 'incremental histories are never run.', [S + 'NapSAT.cpp', S + 'NapSAT-clauses.cpp'], [('clause insertion at a non-root level', 'NapSAT::internal_add_clause'), ('status reset', 'NapSAT::add_clause')])
p('C04', 'Propagation is complete and every assigned literal is justified',
  'When propagation asks for a decision, no clause is falsified or unit under the current assignment; each assigned literal is a decision or follows from the clauses and the decisions before it, and a literal reported as root level follows from the clauses alone.',
  ['histories', 'schedules', 'configurations'], 'every reachable partial assignment, under every decision order and strategy',
  UT + 'propagation is never run.', [S + 'NapSAT-propagation.cpp', S + 'NapSAT-imply.cpp', S + 'NapSAT-backtrack.cpp'],
  [('watched literals with blockers', 'propagate_lit'), ('lazy reimplication', 'reimply_literal'), ('propagation replay after backtracking', 'backtrack')], observe=['propagate', 'get_partial_assignment', 'is_decided', 'is_root_level'])
p('C05', 'Learning, deletion and purging keep the clause set equivalent',
  'Every clause the solver announces as learned follows from the input clauses; literals are removed from a clause only if they are false in every model; and after any deletion the remaining clauses together with the root-level literals have exactly the models of the input.',
  ['inputs', 'histories', 'configurations'], 'every clause announced, shrunk or deleted in any run, at every point where the clause set changed',
  UT + 'clause learning and deletion are never run.', [S + 'NapSAT-conflict.cpp', S + 'NapSAT-purge.cpp', S + 'NapSAT-clauses.cpp'],
  [('conflict analysis', 'analyze_conflict'), ('clause elimination', 'simplify_clause_set'), ('root-level purge', 'purge_clauses')], observe=['observer: add/shrink/delete clause'])
p('C06', 'Model enumeration lists every model exactly once',
  'Solving repeatedly while blocking each model found visits every satisfying assignment exactly once and then reports UNSAT, whichever strategy is used.',
  ['inputs', 'histories', 'configurations'], 'every formula, every strategy, blocking clauses over all variables or over the decisions',
  UT + 'enumeration is never run.', ['main.cpp', S + 'NapSAT-clauses.cpp'], [('clause added in a SAT state', 'NapSAT::add_clause')])
p('C07', 'A conflict limit stops the search without losing soundness',
  'A limited solve returns after at most the given number of conflicts, with UNKNOWN only after that many conflicts and never once the formula is settled; whatever it returned, later calls still reach the right verdict.',
  ['inputs', 'histories', 'configurations'], 'every limit from 0 up, per call or as an option, at every point of a history',
  UT + 'no test solves anything.', [S + 'NapSAT.cpp'], [('limit test', 'NapSAT::solve(conflict_limit)')])
p('C08', 'Assumptions hold until they are forgotten and never change the clauses',
  'Under graph backtracking an accepted assumption is true in every later assignment and model until it is forgotten; one is refused only when it contradicts the clauses together with the assumptions in force; UNSAT then means unsatisfiable under the assumptions, and after forgetting them the solver answers for the clauses alone.',
  ['histories', 'configurations'], 'every sequence of assume, forget, forget-all, add-clause, decide, propagate and solve calls',
  UT + 'assumptions are never used.', [S + 'NapSAT-assumptions.cpp'], [('locked decisions', 'add_assumption_GB_*'), ('unlocking', 'forget_assumption')])
p('C09', 'The failed-assumption core is a subset that already conflicts',
  'After UNSAT under assumptions, the returned core contains only assumptions in force, and the clauses are unsatisfiable under the core alone; it is empty exactly when no assumption is needed by the failure reported.',
  ['histories', 'configurations'], 'every UNSAT answer under every set of assumptions', UT + 'no test asks for a core.', [S + 'NapSAT-assumptions.cpp'], [('core extraction', 'unsat_core')])
p('C10', 'The clause core is an unsatisfiable subset of the input',
  'With dependency recording on, the clause core returned after UNSAT lists handles of input clauses only, and those clauses (with the assumptions in force) are unsatisfiable.',
  ['inputs', 'histories', 'configurations'], 'every UNSAT answer, with learning, deletion, assumptions and incremental additions before it',
  'Only the dependency tracker is tested, on hand-made chains; never with the solver that feeds it.', ['src/proof/dependency_tracker.cpp', S + 'NapSAT-assumptions.cpp', S + 'NapSAT-conflict.cpp'], [('dependency recording', 'dependency_tracker'), ('core extraction', 'clause_unsat_core')])
p('C11', 'Every UNSAT answer carries a correct resolution proof',
  'With proof construction on, after every UNSAT answer the built-in checker accepts the proof, and the printed proof derives the empty clause from input clauses by correct resolution steps only.',
  ['inputs', 'histories', 'configurations'], 'every UNSAT answer, for every strategy, with clause deletion, root simplification and incremental additions',
  'No test builds a proof.', ['src/proof/proof.cpp', S + 'NapSAT-conflict.cpp', S + 'NapSAT-clauses.cpp'], [('resolution chain recording', 'link_resolution / finalize_resolution'), ('root literal proofs', 'prove_root_literal_removal')])
p('C12', 'The proof checker rejects every wrong proof',
  'The proof checker returns true only for a sequence of chains in which each step resolves on a literal that is present with opposite signs in the two clauses, each result is the clause recorded, and the empty clause is derived; it rejects anything else without crashing.',
  ['programs', 'inputs'], 'every small proof script: input clauses, chains with arbitrary pivots and premises, arbitrary recorded results', 'No test builds or checks a proof.',
  ['src/proof/proof.cpp'], [('chain replay', 'check_resolution_chain'), ('whole proof check', 'check_proof')])
p('C13', 'The observer sees exactly what the solver does',
  'Replaying the notifications from the start always reproduces the solver state: the same assigned literals with the same decision/implied status, levels that fit the decisions and reasons announced, the same live clauses, each clause and variable announced once before use; the details of a variable or clause given on request are those of that state.',
  ['histories', 'configurations'], 'every API history and strategy, compared after every call', 'No test attaches an observer.', [S + 'Sentinel-wrapper.hpp', S + 'NapSAT-imply.cpp', S + 'NapSAT-backtrack.cpp', S + 'NapSAT-clauses.cpp'], [('notifications', 'NOTIFY')])
p('C14', 'Observing, proofs, statistics and dependencies do not influence the search',
  'Runs are deterministic, and attaching an observer or recording proofs and statistics changes neither the verdict nor the decisions and assignments made; recording dependencies changes no verdict.',
  ['configurations', 'inputs', 'histories'], 'every formula and strategy, compared pairwise over the whole decision history', 'No test compares two runs.', [S + 'NapSAT.cpp', S + 'NapSAT-conflict.cpp', 'src/observer/SAT-stat.cpp'], [('optional components', '_proof, _sentinel, _dependency_tracker')])
p('C15', 'Solver instances in one process do not influence each other',
  'Two solvers used in any interleaving behave exactly as each does alone: same answers, same assignments, same cores and proofs.',
  ['schedules', 'histories', 'configurations'], 'every interleaving of the API calls of two solver instances', 'No test creates a solver, let alone two.', [S + 'NapSAT.cpp', S + 'NapSAT-conflict.cpp', S + 'NapSAT-backtrack.cpp'], [('per-instance state', 'class NapSAT')])
p('C16', 'Ignoring unused variables leaves only unconstrained variables unassigned',
  'With that option, a SAT answer assigns every variable that occurs in a clause (one that was neither a tautology nor already satisfied for good when it was added) so that each clause is satisfied by the assigned literals alone, and never decides a variable that occurs in no clause.',
  ['inputs', 'histories', 'configurations'], 'every formula with unused variables, every history that starts to use them later', 'No test uses the option.', [S + 'NapSAT.cpp', S + 'NapSAT-clauses.cpp'], [('constrained marking', 'var_mark_constrained')])
p('C17', 'DIMACS files are read as written or rejected',
  'For a well-formed DIMACS file, whatever its comments, spacing, clause layout, repeated or opposite literals, the solver gets exactly the clauses written; a file that cannot be opened or contains something else than literals is reported as a failure without crashing.',
  ['inputs', 'fault_sequences'], 'every text over the DIMACS alphabet up to a length, every layout of small formulas, every single-character corruption', 'No test parses a file.', ['src/solver/NapSAT-utils.cpp', S + 'NapSAT.cpp'], [('reader', 'NapSAT::parse_dimacs')])
p('C18', 'Compressed input is equal to plain input; damaged archives are rejected',
  'A formula read from a (single-stream) .xz or .bz2 file gives the clauses of the uncompressed file whatever its size; a truncated or corrupted archive is reported as a failure instead of being solved as a different formula.',
  ['inputs', 'fault_sequences'], 'every truncation point and single-byte corruption of an archive; sizes around the buffer sizes', 'No test reads a compressed file.', ['src/utils/decoder.cpp', S + 'NapSAT.cpp'], [('streaming decoders', 'decompress_xz / decompress_bz2')])
p('C19', 'Options are parsed as documented and conflicts are resolved consistently',
  'Every option and alias sets exactly its own setting; the first well-formed occurrence decides and later duplicates are ignored; an option whose prerequisite is missing or that is subsumed is switched off and nothing else changes; unknown or malformed tokens never change a setting.',
  ['inputs', 'configurations'], 'every sequence of up to a few tokens over all documented options, aliases, values and malformed tokens', 'No test parses options.', ['src/utils/options.cpp', S + 'SAT-options.cpp'], [('parser', 'OptionParser::parse'), ('compatibility', 'OptionParser::resolve')])
p('C20', 'The executable reports verdict, model and exit status faithfully',
  'For every input file and option set the command-line program prints exactly one verdict line, that of the formula, and exits with 0; with --all-models it announces each model once before reporting that none is left; proofs are checked and printed when asked; unreadable input and missing arguments give an error, exit status 1 and no verdict.',
  ['inputs', 'configurations'], 'every small formula as a file, through the built executable, for the documented command lines', 'No test runs the executable.', ['main.cpp', 'src/SAT-API.cpp'], [('driver', 'main')])
p('C21', 'Bitsets behave as mathematical sets of any size',
  'Union, intersection, difference, inclusion, comparison, emptiness, count, membership, resizing and forward iteration agree with the same operations on sets of integers, for any size including sizes beyond one and several metadata words, and iterating visits each member once in order.',
  ['inputs', 'histories'], 'every operation sequence over boundary positions (word and metadata edges); all subsets of boundary positions', 'The tests check selected operations on a few hand-picked sizes and values.', ['src/utils/bitset.cpp', 'src/utils/bitset.hpp'], [('two-level representation', 'class bitset')])
p('C22', 'The variable heap always yields a maximum and keeps membership exact',
  'After any sequence of insertions, removals, pops and weight changes the heap contains exactly the elements that should be in it, each once, and the element on top has maximal weight.',
  ['histories'], 'every operation sequence up to a depth over a few keys and weights', 'The tests follow a handful of scripted sequences.', ['src/utils/heap.cpp', 'src/utils/heap.hpp'], [('binary heap with positions', 'class heap')])
p('C23', 'The AVL tree keeps a balanced, exact map',
  'After any sequence of insertions and deletions the tree holds exactly the inserted keys with their values, finds predecessors and successors correctly and stays balanced.',
  ['histories'], 'every insertion/deletion sequence over a few keys up to a depth', 'The tests insert scripted or random key orders; not every order.', ['src/utils/partition.cpp', 'src/utils/partition.hpp'], [('rotations', 'AVLTree')])
p('C24', 'Restarts follow the fixed growing sequence of intervals',
  'With restarts enabled the solver restarts exactly at the conflicts given by the counter (rounds of 1, 1, 2, 4, ... up to a growing power of two, times the unit), without limit on the length of the run; with restarts disabled it never restarts.',
  ['histories'], 'every index up to a large bound, all unit values in a range', 'The tests check a prefix of the sequence.', ['src/utils/luby-counter.hpp'], [('counter', 'luby_counter')])
p('C25', 'Clause dependencies are the exact union of what was combined',
  'The dependencies recorded for a derived clause are exactly the input clauses reachable through the clauses it was derived from, whatever the order of recording, cancelling and deletion.',
  ['histories'], 'every sequence of recording operations over a few clauses up to a depth', 'The tests follow scripted chains.', ['src/proof/dependency_tracker.cpp'], [('dependency sets', 'dependency_tracker')])
p('C26', 'Decisions and user guidance are honoured',
  'A decision assigns exactly one previously unassigned variable and nothing else; a user decision assigns the literal asked for; a suggested polarity is the one taken when the solver assigns that variable for the first time by a decision; and guidance (polarity suggestions, weight functions, synchronisation) never changes a verdict nor, by itself, the assignment.',
  ['histories', 'configurations'], 'every placement of polarity suggestions, weight functions, synchronisations and decisions in a history', 'No test makes a decision.', [S + 'NapSAT.cpp', S + 'NapSAT-utils.cpp'], [('decision heuristic', 'NapSAT::decide')])
p('C27', 'Backtracking undoes only what the chosen strategy allows',
  'Graph backtracking undoes exactly the literals that depend on an undone decision and never an assumption; the other strategies undo exactly the literals above one level, which under non-chronological backtracking is a suffix of the trail. After a conflict that level is the one the learned clause asks for: the second highest in it, or with chronological backtracking one below the highest. Every literal kept still follows from what remains.',
  ['schedules', 'configurations'], 'every conflict reachable under every decision order', 'No test backtracks.', [S + 'NapSAT-backtrack.cpp', S + 'NapSAT-conflict.cpp'], [('level backtracking', 'backtrack(level)'), ('chunk backtracking', 'backtrack(chunks)')])
p('C28', 'Interactive commands act as the corresponding API calls',
  'Whenever an interactive run pauses, a command (decide, learn a clause, assume, forget an assumption or all of them, delete a clause, solve on, print) has exactly the effect of the API operation it names; a command that is malformed, unsupported or whose preconditions fail (an assigned or locked variable, a clause in use as a reason or in conflict, an unknown variable) is refused with a message and changes nothing; and the final verdict is right for the clauses and assumptions given.',
  ['histories', 'inputs'], 'every command sequence up to a depth at the pauses of a run, including malformed ones', 'No test uses interactive mode.', [S + 'NapSAT-utils.cpp', S + 'NapSAT.cpp'], [('command parser', 'NapSAT::parse_command')])
p('C29', 'The invariants published for the chosen strategy hold at every invariant check',
  'Whenever the solver asks for its invariants to be checked, those it announced for its strategy hold: propagated literals falsify no clause and leave no implication out, implied literals are on the level and after the literals of their reasons where announced, levels never decrease along the trail under non-chronological backtracking, and every clause of two or more literals is watched by two of its own literals, with other literals of the clause as blockers, satisfying the watch invariants of the strategy.',
  ['inputs', 'histories', 'configurations'], 'every history, schedule and formula, at every invariant check of the run, for every strategy', 'No test runs the solver; the invariants are checked by an external library only.',
  [S + 'NapSAT-propagation.cpp', S + 'NapSAT-checker.cpp', S + 'NapSAT-clauses.cpp', 'invariant-configurations'], [('invariant configuration', 'load_invariant_configuration'), ('watch lists', 'propagate_lit / watch_lit'), ('reimplication', 'lazy reasons and missed implications')])
p('C30', 'No input or history makes the library access invalid memory',
  'Whatever clauses, literals, options and call sequences are given within the documented preconditions, the library reads and writes only its own live memory, leaks nothing when a solver is deleted, and executes no undefined operation.',
  ['inputs', 'histories', 'configurations'], 'the histories, formulas and option sets of the other properties, executed under address and undefined-behaviour sanitizers', 'The tests never run the solver and are built without sanitizers.', ['src'], [('manual clause memory', 'TSclause / clause vector'), ('growth', 'NapSAT_allocate')])
p('C31', 'Growing the problem while it is being solved is transparent',
  'New variables may be created or mentioned at any time, in any number; the solver then behaves as if they had existed from the start, also when thousands of decisions are open. The number of variables reported is the number of variables that exist: a new variable is the next one, and mentioning a variable brings all smaller ones into existence.',
  ['histories', 'inputs'], 'every point of a history at which variables are added, explicitly or by mention; decision depths around every internal capacity', 'No test grows a solver.', [S + 'NapSAT-utils.cpp', S + 'NapSAT.cpp', 'src/utils/bitset.cpp'], [('allocation', 'NapSAT::NapSAT_allocate / new_variable'), ('chunk growth', 'allocate_chunks')])
p('C32', 'Statistics count what happened',
  'With statistics on, the reported numbers are the numbers of those events in the run, after every call: decisions, conflicts, propagations, implications, unassignments, restarts, clauses added, learned and deleted, literals removed, variables, solve calls, assumptions locked and unlocked, and the average size of the learned clauses.',
  ['inputs', 'configurations'], 'every run with statistics enabled, compared with the notification stream', 'No test reads statistics.', ['src/observer/SAT-stat.cpp', 'src/observer/SAT-stat.hpp'], [('counters', 'NOTIFY_STAT')])
p('C33', 'Graph backtracking repairs a conflict at the lowest cost',
  'With graph backtracking and exact costs, the decisions undone to repair a conflict are a minimal set that makes every clause of the conflict non-falsified, and the lightest such set: the literals depending on it have the smallest total cost, as given by the weight function or by the weights in the file, plus the configured level penalty. When no clause is learned from the conflict, it is the lightest among the repairs that undo the latest decision involved.',
  ['inputs', 'schedules', 'configurations'], 'every conflict reachable under every decision order and cost function of a set, compared with all possible repairs', 'No test backtracks.', [S + 'NapSAT-conflict.cpp', S + 'NapSAT.cpp'], [('choice of the repair', 'NapSAT::graph_repair / calculate_bitset_weights'), ('candidate repairs', 'compute_backtrack_possibilities'), ('costs', 'literal_cost / synchronize')])
p('C34', 'The decisions of the solver follow activity and saved polarity',
  'A decision the solver takes itself (solve, or decide without a literal) is on an unassigned variable of maximal activity, as shown in the details of the variables, among those it may decide. It has the polarity of the last synchronisation of that variable (every conflict, like a synchronize call, synchronises all assigned variables) or the one suggested since while it was unassigned; false at first. Activities start at zero, grow by one for each occurrence in an added clause before any conflict, and at a conflict by multiples of an increment that each conflict divides by the decay option; every variable of a learned clause but the asserting one gains, and activities only shrink when all are scaled down because one exceeded the limit.',
  ['histories', 'inputs', 'configurations'], 'every decision the solver takes in any history, formula and strategy, for several decays, before and after the scaling', 'The heap is tested in isolation; no test runs the solver that feeds it.', [S + 'NapSAT.cpp', S + 'NapSAT-utils.cpp', S + 'NapSAT-conflict.cpp', S + 'NapSAT-backtrack.cpp', 'src/utils/heap.cpp'],
  [('decision', 'NapSAT::decide'), ('activity', 'bump_var_activity'), ('polarity', 'NapSAT::synchronize / suggest_polarity')], observe=['observer: assign', 'observer: variable details', 'suggest_polarity', 'synchronize'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
