"""What each check runs. One entry per property; quick and thorough are lists of harness runs."""
from itertools import product
MAIN = '|-cb|-lscb|-gb|-gb -ecm|-gb -bl|-gb -lcm'
MAINS = MAIN.split('|')
def flag(cfg, extra):
    return '|'.join((c + ' ' + extra).strip() for c in (cfg.split('|') if isinstance(cfg, str) else cfg))
def strategies():
    """every accepted combination of the strategy options"""
    r = ['', '-cb', '-lscb']
    for merge, pick, cost in product(['', '-lcm', '-ecm'], ['', '-bsc', '-bfc', '-bl', '-bl -bsc', '-bl -bfc'], ['', '-max-approx-cost', '-sum-approx-cost', '-vsids-approx-cost']):
        r.append(' '.join(x for x in ['-gb', merge, pick, cost] if x))
    return r
def lattice():
    """strategies x restarts x clause deletion x unused variables"""
    return [' '.join(x for x in t if x) for t in product(strategies(), ['', '--restarts off'], ['', '-del off'], ['', '-iuv'])]
# extreme values of the numeric options, one at a time, on every strategy
NUMERIC = ['--var-activity-decay 0.000001', '--var-activity-decay 1', '--clause-elimination-multiplier 0.01', '--clause-elimination-multiplier 1', '--clause-elimination-multiplier 1.01 --clause-activity-threshold-decay 0',
           '--clause-activity-multiplier 1e30', '--clause-activity-multiplier 1', '--clause-activity-threshold-decay 0', '--clause-activity-threshold-decay 1', '--chunk-level-penalty 0', '--chunk-level-penalty 1000',
           '--backtrack-possibilities-limit 0', '--backtrack-possibilities-limit 1', '--backtrack-possibilities-limit 2', '--sync-weight 0', '--sync-weight 1000']
def numeric(strats):
    return [(s + ' ' + n).strip() for s in strats for n in NUMERIC]
SMALLFAM = 'php_3_3,php_4_3,tskn_4_1,tskn_4_0,tscy_5_1,tsgr_2_3_1,colkn_4_3,colcy_5_2,colcy_4_3,ramsey_5,vdw_8,vdw_9,full_3,full_4'
def R(variant, harness, *args, **kw):
    return dict(variant=variant, harness=harness, args=[str(a) for a in args], **kw)
CHECKS = {}
NOT_APPLICABLE = {}

BASE = ['', '-cb', '-lscb', '-gb', '-gb -ecm', '-gb -lcm']
GBS = ['-gb', '-gb -bl', '-gb -ecm', '-gb -lcm', '-gb -bfc', '-gb -ecm -bsc', '-gb -lcm -bfc', '-gb -max-approx-cost', '-gb -lcm -sum-approx-cost', '-gb -ecm -vsids-approx-cost']
def J(l): return '|'.join(l)
def at(l, f): return J([(c + ' @' + f).strip() for c in l])
HARD = 'ramsey_6,tskn_5_1,tsgr_3_4_1,php_5_3,php_4_4'
FAM_S = 'php_3_3,php_4_3,tskn_4_1,tsgr_2_3_1,colkn_4_3,colcy_5_2,ramsey_5,vdw_9,full_3'
LARGE = 'php_6_5,php_7_6,tskn_6_1,tsgr_4_4_1,tsgr_5_4_1,rnd_50_210_3_1,rnd_60_256_3_2,colkn_6_5,rnd_40_170_3_3,rnd_60_240_3_5'
LARGE_S = 'php_6_5,tskn_6_1,tsgr_4_4_1,rnd_50_210_3_1,colkn_6_5,rnd_40_170_3_3'
ASSUME = ['exhaustive within the stated bounds only; the runs list them', 'the SATSentinel observer library is an empty submodule here: a stand-in with the same entry points records the notifications', 'API calls respect their documented preconditions']
SOLVER_NOTE = 'Every execution of the stated bounded space is run on the real library and judged by an oracle that enumerates all assignments; nothing is said beyond the stated sizes, and the SATSentinel interface (an empty submodule here) is a stand-in of our own.'
CHECKS['C01'] = dict(
    technique='exhaustive enumeration of clause sets and decision schedules on the implementation, judged against all assignments',
    quick=[R('dbg', 'h_solver', 'sched', 3, 3, 3, 3, MAIN, what='every set of <=3 clauses over 3 variables, every schedule of 3 decisions, 7 strategies'),
           R('rel', 'h_solver', 'sched', 4, 2, 3, 2, J(['', '-gb -lcm']), what='every set of <=3 clauses of <=2 literals over 4 variables'),
           R('dbg', 'h_big', 'solve', FAM_S, 1, J(MAINS), what='structured families with at most one clause left out'),
           R('dbg', 'h_large', 'run', 'solve,half', LARGE, 0, J(MAINS), what='formulas that trigger restarts and clause deletion')],
    thorough=[R('rel', 'h_solver', 'sched', 3, 3, 4, 3, MAIN), R('rel', 'h_solver', 'sched', 4, 3, 3, 4, MAIN), R('dbg', 'h_big', 'solve', SMALLFAM + ',' + HARD, 1, J(MAINS)), R('rel', 'h_big', 'solve', FAM_S, 2, J(MAINS)), R('dbg', 'h_large', 'run', 'solve,half,enum3', LARGE, 1, J(MAINS))],
    rule='a case is a formula and a configuration; it is non-trivial when at least one decision was needed or the formula is unsatisfiable')
CHECKS['C02'] = dict(
    technique='exhaustive enumeration of the option lattice times bounded formulas on the implementation',
    quick=[R('dbg', 'h_big', 'solve', 'php_4_3,tskn_4_1,colkn_4_3,vdw_9,tsgr_2_3_1', 0, J(lattice()), what='600 option combinations'),
           R('dbg', 'h_big', 'solve', 'php_4_3,tskn_4_1,colcy_5_2', 0, J(numeric(strategies())), what='extreme numeric values on every strategy'),
           R('rel', 'h_big', 'solve', HARD, 0, J(lattice())),
           R('rel', 'h_large', 'run', 'solve,half', LARGE_S, 0, J(lattice())), R('rel', 'h_large', 'run', 'solve', LARGE_S, 0, J(numeric(MAINS))),
           R('rel', 'h_big', 'small', 3, 3, 2, J(strategies()), 'solve', what='every set of <=2 clauses over 3 variables, every strategy')],
    thorough=[R('dbg', 'h_big', 'solve', SMALLFAM, 1, J(lattice())), R('dbg', 'h_big', 'solve', SMALLFAM, 0, J(numeric(strategies()))), R('rel', 'h_big', 'small', 3, 3, 3, J(strategies()), 'solve'), R('rel', 'h_big', 'solve', HARD, 1, J(lattice())), R('dbg', 'h_large', 'run', 'solve,half', LARGE, 0, J(lattice())), R('dbg', 'h_large', 'run', 'solve,half', LARGE, 0, J(numeric(strategies())))],
    rule='a case is a formula and an option string; it is non-trivial when the formula is unsatisfiable and has clauses')
CHECKS['C03'] = dict(
    technique='exhaustive enumeration of API histories on the implementation against a reference model of the clauses added',
    quick=[R('dbg', 'h_solver', 'hist', 2, 2, 3, 0, J(BASE), 'tdCe', what='every history of 3 operations then solve'),
           R('rel', 'h_solver', 'hist', 2, 2, 4, 0, J(['', '-cb', '-gb -lcm']), 'd', what='every history of 4 operations then solve'),
           R('rel', 'h_solver', 'hist', 3, 3, 3, 0, J(BASE), 'd', what='every history of 3 operations over 3 variables and clauses of up to 3 literals')],
    thorough=[R('rel', 'h_solver', 'hist', 2, 2, 4, 0, J(BASE), 'tdCe'), R('rel', 'h_solver', 'hist', 2, 2, 5, 0, J(BASE), ''), R('rel', 'h_solver', 'hist', 3, 3, 3, 0, J(MAINS), 'tdC')],
    rule='a case is a history; it is non-trivial when the clauses became unsatisfiable in it')
CHECKS['C04'] = dict(
    technique='exhaustive enumeration of clause sets, schedules and histories on the implementation; fixpoint and entailment checked over all assignments after every call',
    quick=[R('dbg', 'h_solver', 'sched', 3, 3, 3, 2, J(['-cb', '-lscb', '-gb', '-gb -lcm'])), R('dbg', 'h_solver', 'hist', 2, 2, 3, 0, J(['', '-cb', '-gb', '-gb -lcm', '-gb -ecm']), 'd'), R('dbg', 'h_solver', 'sched', 4, 3, 2, 4, J(BASE)),
           R('dbg', 'h_large', 'run', 'steps', LARGE, 0, J(strategies()))],
    thorough=[R('rel', 'h_solver', 'sched', 4, 3, 3, 4, MAIN), R('dbg', 'h_solver', 'hist', 3, 2, 3, 0, J(BASE), 'td'), R('dbg', 'h_large', 'run', 'steps', LARGE, 0, J(lattice())), R('dbg', 'h_large', 'run', 'steps', LARGE_S, 1, J(MAINS))],
    rule='a case is a formula with a schedule or a history; it is non-trivial when a decision was taken or the clauses became unsatisfiable')
CHECKS['C05'] = dict(
    technique='exhaustive enumeration of histories and formulas on the implementation; model-set equivalence checked at every change of the clause database',
    quick=[R('dbg', 'h_big', 'solve', FAM_S, 1, at(MAINS, 'mD')), R('dbg', 'h_big', 'solve', 'php_4_3,tskn_4_1,colkn_4_3,vdw_9', 0, at([c + d for c in strategies() for d in ['', ' --clause-elimination-multiplier 1']], 'mD')),
           R('rel', 'h_large', 'run', 'solve,half', LARGE_S, 0, at(strategies() + [c + ' --clause-elimination-multiplier 1' for c in MAINS], 'mD')),
           R('rel', 'h_large', 'run', 'grow,grow10_3,grow40_3,grow5_1', 'php_7_6,php_6_5,rnd_50_210_3_1,rnd_40_170_3_3,colkn_6_5,tsgr_5_4_1', 0, at([c + ' --clause-elimination-multiplier 1' for c in strategies()] + MAINS, 'mD'), what='clauses arrive while learned clauses are being deleted'),
           R('dbg', 'h_solver', 'hist', 2, 2, 3, 1, at(['', '-lscb', '-gb', '-gb -lcm'], 'mD'), '')],
    thorough=[R('dbg', 'h_big', 'solve', SMALLFAM, 1, at(strategies(), 'mD')), R('rel', 'h_solver', 'hist', 2, 2, 4, 1, at(BASE, 'mD'), 't'), R('dbg', 'h_big', 'solve', HARD, 0, at(lattice(), 'mD')), R('rel', 'h_large', 'run', 'solve,half,enum3', LARGE, 0, at(lattice(), 'mD'))],
    rule='a case is a formula or history and a configuration; it is non-trivial when the formula is unsatisfiable, so that clauses are learned')
CHECKS['C06'] = dict(
    technique='exhaustive enumeration of clause sets; full model enumeration on the implementation compared with the set of all models',
    quick=[R('dbg', 'h_big', 'small', 3, 3, 2, J(MAINS + ['-iuv', '-gb -lcm -iuv']), 'enum'), R('rel', 'h_big', 'enum', 'php_3_3,tskn_4_0,colcy_5_2,colcy_4_3,ramsey_5,vdw_8', 0, J(strategies()))],
    thorough=[R('rel', 'h_big', 'small', 3, 3, 3, J(MAINS + ['-iuv']), 'enum'), R('rel', 'h_big', 'enum', 'php_3_3,tskn_4_0,colcy_5_2,colcy_4_3,ramsey_5,vdw_8', 0, J(lattice())), R('rel', 'h_big', 'enum', 'php_3_3,php_4_3,tskn_4_0,colcy_5_2,ramsey_5,vdw_9', 1, J(MAINS))],
    rule='a case is a formula and a configuration; it is non-trivial when more than one model was enumerated')
CHECKS['C07'] = dict(
    technique='exhaustive enumeration of conflict limits and of histories with limited solves on the implementation',
    quick=[R('dbg', 'h_big', 'limit', FAM_S, 0, J(BASE + ['--restarts off']), 8, what='every limit 0..8, repeated to the verdict'), R('dbg', 'h_big', 'limit', 'php_4_3,tskn_4_1,vdw_9', 1, J(['', '-cb', '-gb -lcm']), 4), R('dbg', 'h_solver', 'hist', 2, 2, 3, 0, J(BASE), 'l'), R('dbg', 'h_large', 'run', 'limit', LARGE, 0, J(strategies()))],
    thorough=[R('dbg', 'h_big', 'limit', SMALLFAM, 1, J(MAINS), 12), R('rel', 'h_solver', 'hist', 2, 2, 4, 0, J(BASE), 'l')],
    rule='a case is a formula or history and a configuration; it is non-trivial when a limited call ended without a verdict')
GADGETS = '-1,2:-3,4/-1,-2,3:-3,4/-1,2:-2,3:-1,-3,4'
CHECKS['C08'] = dict(
    technique='exhaustive enumeration of assumption histories on the implementation against the models of clauses and assumptions',
    quick=[R('dbg', 'h_assume', 'x', 3, 3, 3, '-gb'), R('dbg', 'h_assume', 'x', 3, 3, 3, '-gb -lcm'), R('dbg', 'h_assume', 'x', 2, 2, 4, '-gb -ecm', 'psDAaF*'), R('rel', 'h_assume', 'x', 3, 3, 2, '-gb -lcm|-gb -bl', 'sDaAc', 2, what='every 2 initial clauses, 2 operations'),
           R('rel', 'h_assume', 'g', GADGETS, 4, '-gb|-gb -lcm|-gb -ecm', 'AFDcs', what='every sequence of 4 assumptions, withdrawals, decisions, solve calls and late clauses on small implication graphs'),
           R('dbg', 'h_large', 'run', 'assume', LARGE_S, 0, J(GBS)), R('dbg', 'h_large', 'ahist', 'php_5_5', '-gb|-gb -ecm|-gb -lcm', '1,7', 3, 1), R('rel', 'h_large', 'ahist', 'colkn_5_5,rnd_40_170_3_3', '-gb|-gb -ecm|-gb -lcm', '1,2', 3, 1)],
    thorough=[R('rel', 'h_assume', 'x', 3, 2, 4, J(GBS[:4])), R('rel', 'h_assume', 'g', GADGETS, 5, J(GBS[:4]), 'AFDcs'), R('rel', 'h_assume', 'x', 3, 3, 3, '-gb', 'psDaF*', 2), R('rel', 'h_assume', 'x', 2, 2, 5, '-gb|-gb -lcm'), R('dbg', 'h_large', 'ahist', 'rnd_40_170_3_3,rnd_60_240_3_5,colkn_5_5,php_5_5', J(GBS), '1,2,7', 3, 1), R('rel', 'h_large', 'ahist', 'php_5_5,tsgr_3_3_1', '-gb|-gb -ecm|-gb -lcm', '1,2', 4, 1)],
    rule='a case is a history; it is non-trivial when an UNSAT answer was due to assumptions')
CHECKS['C09'] = dict(
    technique='exhaustive enumeration of assumption histories on the implementation; every core re-checked over all assignments',
    quick=[R('dbg', 'h_assume', 'x', 2, 2, 3, J(GBS), 'psDaFvc'), R('rel', 'h_assume', 'x', 3, 3, 2, '-gb -ecm|-gb -lcm', 'DaAc', 1), R('rel', 'h_assume', 'x', 3, 3, 2, '-gb|-gb -bl', 'saAv', 1), R('dbg', 'h_large', 'ahist', 'php_5_5,rnd_40_170_3_3', '-gb|-gb -lcm', '1,2', 3)],
    thorough=[R('rel', 'h_assume', 'x', 3, 3, 3, J(GBS[:4]), 'psDaFv*', 1), R('rel', 'h_assume', 'x', 3, 2, 4, J(GBS[:4]), 'sDac'), R('rel', 'h_large', 'ahist', 'php_5_5,rnd_40_170_3_3,tsgr_3_3_1', J(GBS), '1,2,3', 3)],
    rule='a case is a history; it is non-trivial when an UNSAT answer was due to assumptions')
CHECKS['C10'] = dict(
    technique='exhaustive enumeration of formulas and histories on the implementation; every clause core re-checked over all assignments',
    quick=[R('dbg', 'h_big', 'solve', FAM_S + ',tskn_4_0', 1, at([c for c in MAINS if '-gb' in c], 'K')), R('dbg', 'h_big', 'solve', 'php_4_3,tskn_4_1,colkn_4_3,vdw_9', 0, at([c + d for c in strategies() if 'gb' in c for d in ['', ' --clause-elimination-multiplier 1']], 'K')),
           R('dbg', 'h_solver', 'hist', 2, 2, 3, 0, at([c for c in BASE if 'gb' in c], 'K'), 'C'), R('dbg', 'h_assume', 'x', 2, 2, 3, at(GBS, 'K')), R('dbg', 'h_big', 'small', 3, 3, 3, at(['-gb', '-gb -lcm'], 'K'), 'solve', ''),
           R('rel', 'h_large', 'run', 'solve,half,assume', LARGE_S, 0, at(GBS + ['-gb --clause-elimination-multiplier 1'], 'K'))],
    thorough=[R('dbg', 'h_big', 'solve', SMALLFAM, 1, at([c for c in strategies() if 'gb' in c], 'K')), R('rel', 'h_solver', 'hist', 2, 2, 4, 0, at([c for c in BASE if 'gb' in c], 'K'), 't'), R('rel', 'h_assume', 'x', 2, 2, 4, at(GBS, 'K'))],
    rule='a case is a formula or history and a configuration; it is non-trivial when the clauses became unsatisfiable')
CHECKS['C11'] = dict(
    technique='exhaustive enumeration of formulas and histories on the implementation; every proof checked by the built-in and by an independent checker',
    quick=[R('dbg', 'h_big', 'solve', FAM_S, 1, at(MAINS, 'P')), R('dbg', 'h_big', 'solve', 'php_4_3,tskn_4_1,colkn_4_3,vdw_9', 0, at([c + d for c in strategies() for d in ['', ' --clause-elimination-multiplier 1']], 'P')),
           R('dbg', 'h_solver', 'hist', 2, 2, 3, 0, at(BASE, 'P'), ''), R('rel', 'h_solver', 'sched', 2, 3, 3, 2, at(['', '-gb -lcm'], 'P'), 'dirty'), R('rel', 'h_large', 'run', 'solve,half', 'php_5_4,tskn_5_1,rnd_20_90_3_1,rnd_24_110_3_2', 0, at(MAINS, 'P'))],
    thorough=[R('dbg', 'h_big', 'solve', SMALLFAM, 1, at(strategies(), 'P')), R('rel', 'h_solver', 'hist', 2, 2, 4, 0, at(BASE, 'P'), 't'), R('rel', 'h_solver', 'sched', 3, 3, 4, 3, at(MAINS, 'P')), R('dbg', 'h_big', 'solve', HARD, 0, at(lattice(), 'P'))],
    rule='a case is a formula or history and a configuration; it is non-trivial when the clauses became unsatisfiable')
CHECKS['C13'] = dict(
    technique='exhaustive enumeration of histories on the implementation; the notification stream replayed into an independent mirror and compared after every call',
    quick=[R('dbg', 'h_solver', 'hist', 2, 2, 3, 1, at(BASE, 'm'), 'tC'), R('dbg', 'h_big', 'solve', FAM_S, 1, at(MAINS, 'm')), R('dbg', 'h_solver', 'sched', 3, 3, 2, 3, at(MAINS, 'm')), R('rel', 'h_large', 'run', 'solve,half', LARGE_S, 0, at(strategies(), 'm')), R('dbg', 'h_assume', 'x', 2, 2, 3, at(['-gb', '-gb -lcm', '-gb -ecm'], 'm')),
           R('dbg', 'h_solver', 'hist', 2, 2, 2, 1, at(BASE, 'V'), 'tC', what='the details given on request for every variable and clause, after every call and at every invariant check'), R('dbg', 'h_solver', 'sched', 3, 3, 2, 3, at(BASE, 'V')), R('dbg', 'h_big', 'solve', FAM_S, 1, at(BASE, 'V')), R('dbg', 'h_assume', 'x', 2, 2, 2, at(['-gb', '-gb -lcm', '-gb -ecm'], 'V'))],
    thorough=[R('dbg', 'h_solver', 'hist', 2, 2, 3, 1, at(BASE, 'V'), 'tC'), R('dbg', 'h_big', 'solve', SMALLFAM, 1, at(strategies(), 'V')), R('dbg', 'h_assume', 'x', 2, 2, 3, at(GBS, 'V')), R('rel', 'h_solver', 'hist', 2, 2, 4, 1, at(BASE, 'm'), 'tC'), R('dbg', 'h_big', 'solve', SMALLFAM, 1, at(strategies(), 'm')), R('rel', 'h_solver', 'sched', 3, 3, 3, 3, at(MAINS, 'm'))],
    rule='a case is a history or formula; it is non-trivial when the clauses became unsatisfiable or a decision was taken')
SAME = '-o|-bp|-stat|-o -stat -bp|-o -live-stat|!--record-dependencies'
CHECKS['C14'] = dict(
    technique='exhaustive enumeration of formulas and strategies on the implementation; pairwise comparison of complete runs',
    quick=[R('dbg', 'h_big', 'small', 3, 3, 2, J(BASE), 'same', SAME), R('dbg', 'h_big', 'same', FAM_S, 0, J(strategies()), SAME), R('dbg', 'h_big', 'same', 'php_4_3,tskn_4_1,vdw_9', 1, J(BASE), SAME)],
    thorough=[R('dbg', 'h_big', 'small', 3, 3, 3, J(MAINS), 'same', SAME), R('dbg', 'h_big', 'same', SMALLFAM, 1, J(strategies()), SAME)],
    rule='a case is a formula and a configuration, run with and without each component; it is non-trivial when the run took a decision')
CHECKS['C15'] = dict(
    technique='exhaustive enumeration of the interleavings of the API calls of two instances on the implementation, compared with each instance alone',
    quick=[R('dbg', 'h_iso', 'iso', 'php_3_2,vdw_9', 1, J(['', '-cb', '-gb -lcm', '-gb -ecm @P']), J(['-lscb', '-gb -bl', '-gb @K'])), R('dbg', 'h_iso', 'iso', 'colkn_4_3', 0, J(BASE), J(BASE))],
    thorough=[R('dbg', 'h_iso', 'iso', 'php_3_2,php_4_3,vdw_9,colkn_4_3', 1, MAIN, MAIN), R('rel', 'h_iso', 'iso', 'php_4_3,vdw_9', 2, J(MAINS + ['@P', '-gb -lcm @P', '-gb @K']), MAIN)],
    rule='a case is a pair of formulas and configurations; every interleaving of the two call sequences is one execution')
CHECKS['C16'] = dict(
    technique='exhaustive enumeration of formulas and histories with unused variables on the implementation against all assignments',
    quick=[R('dbg', 'h_solver', 'hist', 3, 2, 3, 0, J(['-iuv', '-gb -lcm -iuv']), 'd'), R('dbg', 'h_solver', 'hist', 2, 2, 3, 0, J(flag(BASE, '-iuv').split('|')), 'tdC'), R('dbg', 'h_solver', 'sched', 4, 2, 2, 3, J(['-iuv', '-cb -iuv', '-gb -iuv', '-gb -lcm -iuv'])), R('rel', 'h_solver', 'hist', 3, 3, 3, 0, J(['-iuv', '-gb -iuv']), 'd')],
    thorough=[R('rel', 'h_solver', 'hist', 3, 3, 3, 0, flag(BASE, '-iuv'), 'td'), R('rel', 'h_solver', 'sched', 4, 3, 3, 3, flag(BASE, '-iuv'))],
    rule='a case is a formula or history; it is non-trivial when a decision was taken or the clauses became unsatisfiable')
CHECKS['C12'] = dict(
    technique='exhaustive enumeration of small proofs and resolution chains on the implementation, judged by an independent resolution checker',
    quick=[R('rel', 'h_unit', 'proof1', 4, 3, what='every chain of <=3 steps over every set of input clauses'), R('rel', 'h_unit', 'proof', 3, 2, 2, what='every two-clause proof'), R('rel', 'h_unit', 'proof', 4, 2, 2)],
    thorough=[R('rel', 'h_unit', 'proof1', 4, 4), R('rel', 'h_unit', 'proof', 4, 2, 3), R('rel', 'h_unit', 'proof', 4, 3, 2)],
    note='Every proof of the stated bounded space is given to the real checker and judged by an independent one; nothing is said beyond the stated sizes.',
    rule='a case is a proof; it is non-trivial when the independent checker rejects it, or accepts it as a refutation')
CHECKS['C21'] = dict(
    technique='exhaustive enumeration of pairs of sets and of operation sequences on the real bitset against sets of integers',
    quick=[R('dbg', 'h_unit', 'pairs', c, p, what='every pair of subsets of boundary positions') for c, p in ((64, '0,1,31,62,63'), (65, '0,63,64'), (128, '0,63,64,127'), (4032, '0,63,64,127,4030,4031'), (4096, '0,63,64,4031,4032,4095'), (8064, '0,63,4031,4032,8000,8063'), (12096, '0,4031,4032,8063,8064,12095'))]
          + [R('dbg', 'h_unit', 'bits', 4032, '0,63,64,4031', 4), R('dbg', 'h_unit', 'bits', 8064, '0,4031,4032', 4), R('dbg', 'h_unit', 'bits', 100, '0,63,64,99', 4), R('asan', 'h_unit', 'bits', 8064, '63,4031,4032', 3)],
    thorough=[R('rel', 'h_unit', 'pairs', 12096, '0,63,64,4031,4032,8063,8064,12095'), R('rel', 'h_unit', 'pairs', 4096, '0,1,62,63,64,127,4031,4032,4095'), R('rel', 'h_unit', 'bits', 4032, '0,63,64,4031', 5), R('rel', 'h_unit', 'bits', 8064, '0,4031,4032', 6), R('asan', 'h_unit', 'bits', 12096, '0,4032,8064', 4)],
    note='Every pair of subsets and every operation sequence of the stated space is run on the real bitset; positions are restricted to word and metadata boundaries.',
    rule='a case is a pair of sets or a sequence of operations; it is non-trivial when the sets are not both empty')
CHECKS['C22'] = dict(
    technique='exhaustive enumeration of operation sequences on the real heap against a multiset of weighted keys',
    quick=[R('dbg', 'h_unit', 'heap', 3, 2, 5), R('dbg', 'h_unit', 'heapinit', 7, 3, 1), R('dbg', 'h_unit', 'heapinit', 12, 2, 1), R('rel', 'h_unit', 'heap', 3, 2, 6), R('asan', 'h_unit', 'heap', 3, 2, 4)],
    thorough=[R('rel', 'h_unit', 'heap', 3, 3, 6), R('rel', 'h_unit', 'heap', 4, 2, 6), R('rel', 'h_unit', 'heapinit', 8, 3, 2), R('rel', 'h_unit', 'heapinit', 7, 4, 2), R('rel', 'h_unit', 'heapinit', 15, 2, 1)],
    note='Every operation sequence of the stated space is run on the real heap; nothing is said about longer sequences from other states.',
    rule='a case is a sequence of operations; it is non-trivial when the heap was not empty throughout')
CHECKS['C23'] = dict(
    technique='breadth-first enumeration of all reachable states of the real AVL tree, and of operation sequences, against an ordered map',
    quick=[R('dbg', 'h_unit', 'avl', 9, 1), R('rel', 'h_unit', 'avl', 11, 1), R('dbg', 'h_unit', 'avlseq', 3, 1, 6), R('rel', 'h_unit', 'avlseq', 2, 2, 7), R('asan', 'h_unit', 'avl', 8, 1)],
    thorough=[R('rel', 'h_unit', 'avl', 13, 1), R('rel', 'h_unit', 'avl', 6, 2), R('rel', 'h_unit', 'avlseq', 4, 1, 7), R('rel', 'h_unit', 'avlseq', 3, 2, 6)],
    note='All trees reachable with the stated keys are visited; larger trees are not.',
    rule='a case is a reachable tree with every operation applied, or a sequence')
CHECKS['C24'] = dict(
    technique='exhaustive enumeration of counter states over a bounded run for every unit, and of the restart points of solver runs',
    quick=[R('dbg', 'h_unit', 'luby', 10000000, 500)],
    thorough=[R('rel', 'h_unit', 'luby', 1000000000, 5000)],
    note='Every index up to the stated bound for every unit in range.',
    rule='a case is a unit and a run length')
CHECKS['C25'] = dict(
    technique='exhaustive enumeration of recording sequences on the real dependency tracker against explicit sets',
    quick=[R('dbg', 'h_unit', 'deps', 2, 2, 7), R('rel', 'h_unit', 'deps', 2, 3, 7), R('rel', 'h_unit', 'deps', 2, 2, 9)],
    thorough=[R('rel', 'h_unit', 'deps', 2, 3, 8), R('rel', 'h_unit', 'deps', 3, 3, 7), R('rel', 'h_unit', 'deps', 2, 2, 11)],
    note='Every sequence of the stated space is run on the real tracker.',
    rule='a case is a sequence of recording operations; it is non-trivial when a derived clause had dependencies')

CHECKS['C19'] = dict(
    technique='exhaustive enumeration of token sequences given to the real parser, compared with a table model of the documented options',
    quick=[R('rel', 'h_options', 'seq', 'all', 1), R('rel', 'h_options', 'seq', 'all', 2), R('rel', 'h_options', 'seq', 'all', 3, what='every sequence of 3 tokens over all names, aliases, values and malformed tokens'),
           R('rel', 'h_options', 'seq', 'strategy', 5), R('rel', 'h_options', 'subset', 'strategy', what='every subset of the strategy options in both orders'), R('rel', 'h_options', 'seq', 'observer', 4), R('rel', 'h_options', 'seq', 'numeric', 4), R('rel', 'h_options', 'help', 'x'), R('asan', 'h_options', 'seq', 'all', 2)],
    thorough=[R('rel', 'h_options', 'seq', 'all', 4), R('rel', 'h_options', 'seq', 'strategy', 6), R('rel', 'h_options', 'seq', 'observer', 5), R('rel', 'h_options', 'seq', 'numeric', 5), R('asan', 'h_options', 'seq', 'observer', 4)],
    note='Every token sequence of the stated lengths is parsed by the real code; nothing is said about longer sequences. The observer options are parsed by a stand-in.',
    rule='a case is a token sequence; it is non-trivial when it changes at least one setting')
CHECKS['C17'] = dict(
    technique='exhaustive enumeration of input files (texts, layouts, one-character corruptions, file kinds) read by the implementation, judged by an independent reading of the text and by the set of all models',
    quick=[R('dbg', 'h_dimacs', 'text', 'chars', 5, J(['', '-gb -o'])), R('dbg', 'h_dimacs', 'text', 'tokens', 5, J(['', '-cb -o'])), R('dbg', 'h_dimacs', 'text', 'head', 4, J(['', '-o'])),
           R('dbg', 'h_dimacs', 'layout', '', what='every choice of seven separators in twelve token sequences'), R('asan', 'h_dimacs', 'corrupt', '', what='every one-character replacement, deletion and insertion in five files'), R('dbg', 'h_dimacs', 'corrupt', '-gb -o'),
           R('asan', 'h_dimacs', 'rep', 130, J(['', '-o', '-gb'])), R('asan', 'h_dimacs', 'files', J(['', '-o', '-gb -o']), what='missing, empty, directory and oddly named files')],
    thorough=[R('dbg', 'h_dimacs', 'text', 'chars', 7, J(['', '-gb -o'])), R('dbg', 'h_dimacs', 'text', 'tokens', 7, J(['', '-cb -o'])), R('dbg', 'h_dimacs', 'text', 'head', 6, J(['', '-o'])), R('dbg', 'h_dimacs', 'layout', J(['', '-cb', '-lscb', '-gb -lcm', '-gb -o'])),
              R('asan', 'h_dimacs', 'corrupt', J(MAINS + ['-gb -o', '-iuv'])), R('asan', 'h_dimacs', 'rep', 1200, J(['', '-o', '-gb'])), R('asan', 'h_dimacs', 'files', J(MAINS + ['-o', '-gb -o'])), R('asan', 'h_dimacs', 'text', 'chars', 5, J(['', '-gb -o']))],
    rule='a case is a file; it is non-trivial when the file holds at least one clause')
CHECKS['C18'] = dict(
    technique='exhaustive enumeration of archives: every plain size of a range, every truncation and every replacement of one byte, read by the implementation and compared with the plain text',
    quick=[R('dbg', 'h_dimacs', 'pack', 'xz', 64, 1500, J(['', '-gb'])), R('dbg', 'h_dimacs', 'pack', 'bz2', 64, 1500, J(['', '-gb'])), R('rel', 'h_dimacs', 'pack', 'bz2', 4000, 4300, ''), R('rel', 'h_dimacs', 'pack', 'xz', 4000, 4300, ''), R('rel', 'h_dimacs', 'pack', 'bz2', 8100, 8300, ''),
           R('asan', 'h_dimacs', 'trunc', 'xz', '64,100,256,400,1000', ''), R('asan', 'h_dimacs', 'trunc', 'bz2', '64,100,256,400,1000,4200', ''), R('rel', 'h_dimacs', 'flip', 'xz', '64', ''), R('rel', 'h_dimacs', 'flip', 'bz2', '64,300', '')],
    thorough=[R('dbg', 'h_dimacs', 'pack', k, 64, 9000, J(['', '-gb'])) for k in ('xz', 'bz2')] + [R('asan', 'h_dimacs', 'trunc', k, '64,100,256,400,1000,4200,9000', '') for k in ('xz', 'bz2')] + [R('asan', 'h_dimacs', 'flip', k, '64,400,1000', '') for k in ('xz', 'bz2')],
    rule='a case is an archive; it is non-trivial when it holds clauses or is damaged')
CLI_O = ['', '-cb', '-lscb', '-gb', '-gb -lcm', '-gb -ecm -bl', '-iuv', '-pp', '-cb -pp', '-gb -pp -cp', '-gb -lcm -cp', '-lscb -cp -pp', '-o -stat', '-gb -o -stat -cp', '-sw -si', '-si -gb', '--restarts off -del off', '-cl 0', '-gb -cl 1', '-bp', '--unknown', '-cb -gb', '-gb on -sw off', '-lcm']
CHECKS['C20'] = dict(
    technique='exhaustive enumeration of small formulas, command lines and damaged inputs run through the real executable as a process, judged against all assignments and an independent proof verifier',
    quick=[R('rel', 'h_cli', 'small', 2, 2, 3, J(CLI_O), also=[('dbg', 'main')]), R('rel', 'h_cli', 'small', 3, 3, 2, J(['', '-cb', '-gb -lcm', '-gb -pp']), also=[('dbg', 'main')]), R('rel', 'h_cli', 'family', 'php_3_2,full_3,tskn_4_1,colcy_3_2,vdw_9', 1, J(['', '-cb -pp -cp', '-gb -pp -cp', '-gb -lcm -cp -pp', '-lscb -pp -o -stat']), also=[('dbg', 'main')]),
           R('rel', 'h_cli', 'bad', J(['', '-gb', '-o -stat']), also=[('dbg', 'main')]), R('rel', 'h_cli', 'usage', also=[('dbg', 'main')])],
    thorough=[R('rel', 'h_cli', 'small', 2, 2, 4, J(CLI_O), also=[('dbg', 'main')]), R('rel', 'h_cli', 'small', 3, 3, 2, J(CLI_O), also=[('asan', 'main')]), R('rel', 'h_cli', 'family', 'php_3_2,full_3,tskn_4_1,colcy_3_2,vdw_9,php_4_3,ramsey_5', 1, J(CLI_O), also=[('dbg', 'main')]), R('rel', 'h_cli', 'bad', J(CLI_O), also=[('asan', 'main')]), R('rel', 'h_cli', 'usage', also=[('dbg', 'main')])],
    rule='a case is a file and a command line; it is non-trivial when the formula is unsatisfiable, all models are asked for, or the input is damaged')
RST = strategies() + [c + ' --restarts off' for c in MAINS]
CHECKS['C24']['quick'] += [R('rel', 'h_large', 'run', 'solve,half', LARGE_S, 0, at(RST, 'S'), what='the restarts of runs on every strategy happen at the conflicts the sequence gives, and never with restarts off')]
CHECKS['C24']['thorough'] += [R('rel', 'h_large', 'run', 'solve,half,limitS,enum3', LARGE, 0, at(flag(strategies(), '').split('|') + [c + ' --restarts off' for c in strategies()], 'S'))]
CHECKS['C32'] = dict(
    technique='exhaustive enumeration of histories and formulas on the implementation; every number reported compared with the notification stream after every call',
    quick=[R('rel', 'h_solver', 'hist', 2, 2, 3, 0, at(BASE, 'S'), 'dC'), R('rel', 'h_solver', 'hist', 2, 2, 2, 0, at(MAINS, 'S'), 'tdCen'), R('rel', 'h_solver', 'hist', 2, 2, 3, 0, at(['', '-gb', '-gb -lcm'], 'S'), 'l'), R('dbg', 'h_big', 'solve', FAM_S, 1, at(MAINS, 'S')), R('rel', 'h_assume', 'x', 2, 2, 3, at(['-gb', '-gb -lcm', '-gb -ecm'], 'S')),
           R('rel', 'h_large', 'run', 'solve,half,limitS', LARGE_S, 0, at(RST + [c + ' --clause-elimination-multiplier 1' for c in MAINS], 'S')), R('rel', 'h_large', 'run', 'assume', LARGE_S, 0, at(GBS, 'S'))],
    thorough=[R('rel', 'h_solver', 'hist', 2, 2, 4, 0, at(BASE, 'S'), 'C'), R('rel', 'h_big', 'solve', SMALLFAM, 1, at(strategies(), 'S')), R('rel', 'h_assume', 'x', 2, 2, 4, at(GBS, 'S')), R('rel', 'h_large', 'run', 'solve,half,limitS,enum3,grow10_3', LARGE, 0, at(lattice(), 'S'))],
    rule='a case is a history or a formula and a configuration; it is non-trivial when the clauses became unsatisfiable')
OBS = ['@P', '-o -stat', '-gb -o -stat', '-gb @K', '-gb -lcm @P', '-lscb @P']
CHECKS['C30'] = dict(
    technique='exhaustive enumeration of histories, formulas, files and option combinations on the implementation built with address, undefined-behaviour and container checks; memory balance after every case',
    quick=[R('asan', 'h_solver', 'hist', 2, 2, 2, 0, J(MAINS + OBS), 'tdCenl', what='every history of 2 operations'), R('asan', 'h_assume', 'x', 2, 2, 2, J(GBS + ['-gb @P', '-gb @K'])), R('asan', 'h_solver', 'sched', 3, 3, 2, 3, J(['-cb', '-gb -lcm', '-gb -ecm -iuv'])),
           R('asan', 'h_big', 'solve', FAM_S, 1, J(MAINS)), R('asan', 'h_big', 'solve', 'php_4_3,tskn_4_1,vdw_9', 0, J(lattice() + numeric(MAINS))), R('asan', 'h_big', 'solve', 'php_3_3,tskn_4_1,vdw_9', 0, at(strategies(), 'P')), R('asan', 'h_big', 'enum', 'php_3_3,colcy_5_2,vdw_8', 0, J(MAINS + OBS)),
           R('asan', 'h_large', 'run', 'solve,half,enum3,steps', 'php_6_5,tskn_6_1,rnd_50_210_3_1,rnd_40_170_3_3', 0, J(strategies())), R('asan', 'h_large', 'run', 'assume,solve', 'php_6_5,tskn_6_1,rnd_50_210_3_1,rnd_40_170_3_3', 0, J(GBS)),
           R('asan', 'h_large', 'run', 'grow10_3', 'php_6_5,rnd_40_170_3_3', 0, J(flag(MAINS, '--clause-elimination-multiplier 1').split('|'))), R('asan', 'h_large', 'run', 'solve', 'php_5_4,rnd_20_90_3_1', 0, at(MAINS, 'P')), R('asan', 'h_iso', 'iso', 'php_3_2,vdw_9', 0, J(['', '-gb -lcm', '-gb -ecm @P']), J(['-lscb', '-gb @K'])),
           R('asan', 'h_dimacs', 'corrupt', '-gb -lcm'), R('asan', 'h_dimacs', 'trunc', 'xz', '100', ''), R('asan', 'h_dimacs', 'trunc', 'bz2', '100,300', ''), R('asan', 'h_options', 'seq', 'all', 1),
           R('asan', 'h_unit', 'avl', 7, 1), R('asan', 'h_unit', 'heap', 3, 2, 4), R('asan', 'h_unit', 'bits', 8064, '63,4031,4032', 3), R('asan', 'h_unit', 'deps', 2, 2, 5), R('asan', 'h_unit', 'proof1', 3, 3)],
    thorough=[R('asan', 'h_solver', 'hist', 2, 2, 3, 0, J(MAINS + OBS), 'tdCe'), R('asan', 'h_assume', 'x', 2, 2, 3, J(GBS + ['-gb @P', '-gb @K'])), R('asan', 'h_big', 'solve', SMALLFAM, 1, J(strategies())), R('asan', 'h_large', 'run', 'solve,half,enum3,steps', LARGE, 0, J(lattice())), R('asan', 'h_big', 'small', 3, 3, 2, J(MAINS + OBS), 'solve'), R('asan', 'h_iso', 'iso', 'php_3_2,vdw_9', 1, MAIN, MAIN)],
    note='Every execution of the stated space is run with the sanitizers; memory errors that only larger inputs reach are not seen. Uninitialised reads are seen only when they lead to an invalid access.',
    rule='a case is a history, formula or file and a configuration; it is non-trivial when it ran to its end')
CHECKS['C27'] = dict(
    technique='exhaustive enumeration of formulas, schedules and histories on the implementation; every backtracking step rebuilt from the notification stream and checked against the levels and reasons in force before it',
    quick=[R('dbg', 'h_solver', 'sched', 3, 3, 3, 2, at(MAINS, 'B')), R('rel', 'h_solver', 'sched', 3, 3, 3, 3, at(BASE, 'B')), R('rel', 'h_solver', 'hist', 2, 2, 3, 0, at(BASE, 'B'), ''), R('dbg', 'h_big', 'solve', FAM_S, 1, at(MAINS, 'B')), R('rel', 'h_big', 'solve', FAM_S, 1, at(strategies(), 'B')),
           R('rel', 'h_large', 'run', 'solve,half,limit,enum3', LARGE_S, 0, at(strategies(), 'B')), R('rel', 'h_large', 'run', 'assume', LARGE_S, 0, at(GBS, 'B')), R('rel', 'h_assume', 'x', 2, 2, 3, at(['-gb', '-gb -lcm', '-gb -ecm'], 'B'))],
    thorough=[R('rel', 'h_solver', 'sched', 4, 3, 3, 4, at(MAINS, 'B')), R('rel', 'h_solver', 'hist', 2, 2, 4, 0, at(BASE, 'B'), ''), R('rel', 'h_big', 'solve', SMALLFAM, 1, at(lattice(), 'B')), R('rel', 'h_large', 'run', 'solve,half,limit,enum3', LARGE, 0, at(lattice(), 'B')), R('rel', 'h_assume', 'x', 2, 2, 4, at(GBS, 'B')), R('rel', 'h_large', 'ahist', 'rnd_40_170_3_3,colkn_5_5,php_5_5', at(GBS, 'B'), '1,2', 3)],
    rule='a case is a formula, schedule or history and a configuration; it is non-trivial when a decision was taken or the clauses became unsatisfiable')
WF = [c + ' @%d' % k for c in strategies() if 'gb' in c for k in (1, 2, 3, 4, 5)]
CHECKS['C26'] = dict(
    technique='exhaustive enumeration of histories with decisions, polarity suggestions, weight functions and synchronisations on the implementation, judged against all assignments and the notification stream',
    quick=[R('dbg', 'h_solver', 'hist', 2, 2, 3, 1, J(MAINS + ['-iuv']), 'gd'), R('rel', 'h_solver', 'hist', 2, 2, 4, 1, J(['', '-gb -lcm']), 'gd'), R('dbg', 'h_solver', 'hist', 3, 1, 3, 1, J(BASE), 'gd'),
           R('dbg', 'h_big', 'solve', 'php_4_3,tskn_4_1,colcy_5_2,vdw_9', 0, J(WF)), R('rel', 'h_big', 'solve', FAM_S, 1, J([c + ' @%d' % k for c in GBS for k in (2, 3)])), R('rel', 'h_large', 'run', 'solve,half', LARGE_S, 0, J(WF)), R('dbg', 'h_big', 'small', 3, 3, 2, J([c + ' @%d' % k for c in ('-gb', '-gb -lcm', '-gb -ecm') for k in (1, 2, 3)]), 'solve')],
    thorough=[R('rel', 'h_solver', 'hist', 2, 2, 4, 1, J(BASE), 'gd'), R('rel', 'h_solver', 'hist', 3, 2, 3, 1, J(MAINS), 'gd'), R('dbg', 'h_big', 'solve', FAM_S, 1, J(WF)), R('dbg', 'h_large', 'run', 'solve,half,enum3', LARGE, 0, J(WF))],
    rule='a case is a history or a formula and a configuration; it is non-trivial when the clauses became unsatisfiable')
# cost-optimal graph backtracking: merging off or eager, exact costs, the repair with the lightest set
WW = ['-gb @W', '-gb @W2', '-gb --chunk-level-penalty 0 @W3', '-gb @W5', '-gb -ecm @W2', '-gb -ecm --chunk-level-penalty 0 @W', '-gb -bsc @W2', '-gb -bfc --restarts off @W5', '-gb -iuv -del off @W2', '-gb --chunk-level-penalty 1000 @W']
CHECKS['C33'] = dict(
    technique='exhaustive enumeration of formulas, schedules and histories on the implementation; every repair rebuilt from the notification stream and compared with all repairs of the falsified clauses under the given costs',
    quick=[R('dbg', 'h_solver', 'sched', 3, 3, 3, 2, J(WW)), R('rel', 'h_solver', 'sched', 4, 2, 3, 3, J(WW[1:2])), R('rel', 'h_solver', 'hist', 2, 2, 3, 0, J(WW), 'd'), R('rel', 'h_solver', 'hist', 3, 2, 3, 0, J(WW[1:3] + WW[4:5]), 'd', what='clauses added over open decisions: several conflicts at once'),
           R('dbg', 'h_big', 'solve', FAM_S, 1, J(WW)), R('rel', 'h_large', 'run', 'solve,half,limit,enum3,steps', LARGE + ',rnd_20_100_3_7,rnd_20_100_3_8,rnd_30_130_3_9,rnd_30_130_3_10', 0, J(WW), what='costs given by a function'), R('rel', 'h_large', 'run', 'solve', 'rnd_20_100_3_7,rnd_20_95_3_8,rnd_30_130_3_9', 1, J(WW)),
           R('dbg', 'h_large', 'run', 'cw', LARGE_S, 0, J([c for c in WW if c.endswith('@W')]), what='weights given in the file'), R('rel', 'h_assume', 'x', 2, 2, 3, J(['-gb @W', '-gb @W2']))],
    thorough=[R('rel', 'h_solver', 'sched', 4, 3, 3, 3, J(WW[:5])), R('rel', 'h_solver', 'sched', 3, 3, 3, 4, J(WW)), R('rel', 'h_solver', 'hist', 3, 3, 3, 0, J(WW), 'd'), R('rel', 'h_solver', 'hist', 2, 2, 4, 0, J(WW), 'd'), R('rel', 'h_big', 'solve', SMALLFAM + ',' + HARD, 1, J(WW)), R('rel', 'h_large', 'run', 'solve,half,limit,enum3,steps', 'rnd_20_100_3_7,rnd_20_100_3_8,rnd_30_130_3_9,rnd_30_130_3_10,rnd_60_256_3_2,rnd_50_210_3_1', 1, J(WW)), R('rel', 'h_assume', 'x', 2, 2, 4, J(['-gb @W', '-gb @W2']))],
    note='The clauses repaired together are not announced; a step is accepted when it is optimal for some of the clauses falsified at that moment. Steps that undo every decision may be restarts and are only judged when restarts are off or a single decision is open; more than 63 open decisions or 12 candidate decisions of several conflicts are skipped and counted.',
    rule='a case is a formula, schedule or history and a configuration; it is non-trivial when a decision was taken or the clauses became unsatisfiable')
INTER = ['', '-cb', '-lscb', '-gb', '-gb -lcm', '-gb -ecm', '-iuv', '-gb -iuv']
CHECKS['C28'] = dict(
    technique='exhaustive enumeration of interactive command sequences, well-formed and malformed, given to the real command parser at every pause, judged against all assignments and the notification stream',
    quick=[R('rel', 'h_inter', 'cmd', 2, 2, 2, 2, J(INTER), 'dDaflLxp-', what='every 2 initial clauses and every 2 commands at the pauses of a run'), R('dbg', 'h_inter', 'cmd', 2, 2, 1, 2, J(INTER), 'dDaflLx-'), R('dbg', 'h_inter', 'cmd', 3, 3, 2, 1, J(INTER)),
           R('dbg', 'h_inter', 'bad', 2, 2, 1, 1, J(INTER), what='every malformed command at every pause'), R('rel', 'h_inter', 'fam', 'php_3_2,vdw_9,php_4_3,full_3,tsgr_2_3_1', 6, 2, J(INTER)), R('asan', 'h_inter', 'cmd', 2, 2, 1, 1, J(INTER)), R('asan', 'h_inter', 'bad', 2, 2, 1, 1, J(['', '-gb']))],
    thorough=[R('rel', 'h_inter', 'cmd', 2, 2, 1, 3, J(INTER)), R('rel', 'h_inter', 'cmd', 2, 2, 3, 2, J(INTER), 'dDaflLxp-'), R('dbg', 'h_inter', 'cmd', 3, 2, 2, 2, J(INTER), 'dDaflLx-'), R('rel', 'h_inter', 'bad', 2, 2, 1, 2, J(INTER)), R('rel', 'h_inter', 'fam', 'php_3_2,vdw_9,php_4_3,full_3,tsgr_2_3_1', 12, 3, J(INTER))],
    rule='a case is a formula, a configuration and a sequence of commands; it is non-trivial when a command took effect')
CHECKS['C29'] = dict(
    technique='exhaustive enumeration of histories, schedules and formulas on the implementation; the invariants announced for the strategy evaluated on an independent mirror of the state at every point where the solver asks for their check',
    quick=[R('dbg', 'h_solver', 'hist', 2, 2, 2, 0, at(MAINS, 'I'), 'tdC'), R('dbg', 'h_solver', 'sched', 3, 3, 3, 2, at(MAINS, 'I')), R('dbg', 'h_solver', 'sched', 4, 3, 2, 2, at(BASE, 'I')), R('dbg', 'h_solver', 'hist', 2, 2, 3, 0, at(['', '-lscb', '-gb', '-gb -lcm'], 'I'), 'd'), R('dbg', 'h_big', 'solve', FAM_S, 1, at(strategies(), 'I')),
           R('dbg', 'h_large', 'run', 'solve,half', LARGE_S, 0, at(MAINS, 'I')), R('dbg', 'h_assume', 'x', 2, 2, 3, at(['-gb', '-gb -lcm', '-gb -ecm'], 'I'))],
    thorough=[R('dbg', 'h_solver', 'sched', 4, 3, 2, 3, at(BASE, 'I')), R('dbg', 'h_solver', 'hist', 2, 2, 3, 0, at(BASE, 'I'), 'tdC'), R('dbg', 'h_solver', 'sched', 3, 3, 3, 3, at(strategies(), 'I')), R('dbg', 'h_big', 'solve', SMALLFAM + ',' + HARD, 1, at(strategies(), 'I')), R('dbg', 'h_large', 'run', 'solve,half,enum3', LARGE, 0, at(strategies(), 'I')), R('dbg', 'h_assume', 'x', 2, 2, 4, at(GBS, 'I'))],
    rule='a case is a formula, schedule or history and a configuration; it is non-trivial when a decision was taken or the clauses became unsatisfiable')
GROW_G = ['-gb --restarts off', '-gb -lcm', '-gb -ecm --restarts off', '-gb -bl']
CHECKS['C31'] = dict(
    technique='exhaustive enumeration of histories that create or mention variables at every point, and of growth with thousands of open decisions around every internal capacity, on the implementation against all assignments (small) and a closed-form verdict (large)',
    quick=[R('dbg', 'h_solver', 'hist', 2, 2, 3, 1, at(BASE + ['-iuv', '-gb -iuv'], 'N'), 'nzgd', what='every history of 3 operations on a solver created without variables'), R('rel', 'h_solver', 'hist', 2, 2, 4, 0, at(['', '-cb', '-gb', '-gb -lcm'], 'N'), 'nzdC'), R('rel', 'h_solver', 'hist', 2, 2, 3, 0, at(BASE, 'N'), 'ntd'),
           R('dbg', 'h_grow', 'deep', '5,6', '1,2,3,4,5,6', 1, 'inhm', 'dax', 'be', 'suAy', J(BASE + GROW_G), what='every conflict between two of 6 open decisions or assumptions, variables created before, between and by mention'),
           R('rel', 'h_grow', 'deep', '4031,4032,4033,8065', '1,4032,4033,D', 1, 'ihm', 'dax', 'be', 'sAy', J(GROW_G[:2]), '--timeout', 60, what='the same with thousands open, around the chunk capacities'),
           R('dbg', 'h_grow', 'deep', '4033', '1,4032,D', 1, 'ih', 'dx', 'be', 'uA', J(['-gb @B', '-gb -ecm @B', '', '-cb', '-lscb']), '--timeout', 60), R('asan', 'h_grow', 'deep', '4033', '1,4032,D', 1, 'ih', 'dx', 'e', 'Ay', '-gb -lcm', '--timeout', 100),
           R('rel', 'h_grow', 'many', '1,2,3/1,100,101/2,64,65,4031,4032/1,5000,5001/3,20000/7,8,16,32,64,128,256,512,1024', J(BASE + ['-iuv', '-gb -iuv', '@m', '-gb @m']), '--timeout', 60), R('asan', 'h_grow', 'many', '1,2,3/1,100,101/3,5000', J(['', '-gb']), '--timeout', 100)],
    thorough=[R('rel', 'h_solver', 'hist', 3, 3, 3, 0, at(BASE + ['-iuv'], 'N'), 'nztd'), R('rel', 'h_solver', 'hist', 2, 2, 5, 0, at(['', '-gb'], 'N'), 'nz'), R('rel', 'h_grow', 'deep', '4031,4032,4033,8065', '1,2,4032,4033,D-1,D', 1, 'inhm', 'dax', 'be', 'suAy', J(GROW_G), '--timeout', 60),
              R('dbg', 'h_grow', 'deep', '5,6', '1,2,3,4,5,6', 2, 'ihm', 'dax', 'be', 'suAy', J(GROW_G)), R('rel', 'h_grow', 'deep', '4033', '1,4032,4033,D-1', 2, 'ih', 'dx', 'be', 'sA', J(GROW_G[:2]), '--timeout', 60), R('rel', 'h_grow', 'deep', '16130', '1,4032,8065,16129,D', 1, 'i', 'dx', 'e', 'sA', '-gb -lcm', '--timeout', 100)],
    rule='a case is a history or a growth scenario and a configuration; it is non-trivial when the clauses became unsatisfiable')
CHECKS['C14']['quick'] += [R('rel', 'h_large', 'run', 'twin', LARGE_S, 0, J(strategies() + flag(MAINS, '--clause-elimination-multiplier 1').split('|')), what='long runs with restarts, deletion, clauses arriving in between and assumptions, with and without each component'), R('dbg', 'h_dimacs', 'twin', 3, J(['', '-gb']), what='every text of up to 3 lines with names, weights, clauses and damage: the same run with and without an observer or a proof')]
CHECKS['C14']['thorough'] += [R('rel', 'h_large', 'run', 'twin', LARGE, 0, J(lattice())), R('rel', 'h_dimacs', 'twin', 4, J(['', '-gb', '-cb'])), R('dbg', 'h_dimacs', 'twin', 3, J(MAINS))]
# the decisions the solver takes itself (H: order by activity, polarity of the last synchronization)
def HH(l, decays=('', ' --var-activity-decay 0.5', ' --var-activity-decay 0.01', ' --var-activity-decay 1')): return J([(c + ' @H' + r + d).strip() for c in l for r in ('', ' --restarts off') for d in decays])
HB = MAINS + ['-gb -bl -bfc', '-gb -vsids-approx-cost', '-iuv', '-gb -iuv']
CHECKS['C34'] = dict(
    technique='exhaustive enumeration of histories, schedules and formulas on the implementation; every decision of the solver judged against the activities shown, the polarities of the assignments announced and a count of the occurrences and conflicts',
    quick=[R('dbg', 'h_solver', 'hist', 2, 2, 3, 0, HH(BASE + ['-iuv'], ['']), 'gdCn', what='every history of 3 operations with suggestions, synchronisations, decisions, clauses and new variables'), R('rel', 'h_solver', 'hist', 2, 2, 4, 0, HH(['', '-gb -lcm'], ['']), 'gd'), R('rel', 'h_solver', 'hist', 3, 3, 3, 0, J(['@H --restarts off', '-gb @H --restarts off', '-cb @H', '-iuv @H']), 'd'),
           R('dbg', 'h_solver', 'sched', 3, 3, 3, 1, HH(MAINS, ['']), what='every set of 3 clauses, a decision of the user first'), R('rel', 'h_solver', 'sched', 4, 3, 2, 1, HH(BASE, [''])), R('dbg', 'h_big', 'solve', FAM_S, 1, HH(HB)), R('rel', 'h_large', 'run', 'solve,half', LARGE_S, 0, HH(HB), what='hundreds of conflicts, past the rescaling of the activities'), R('rel', 'h_large', 'run', 'enum3,limit,steps', LARGE_S, 0, HH(MAINS, [''])), R('dbg', 'h_large', 'run', 'solve', 'rnd_50_210_3_1,colkn_6_5,rnd_40_170_3_3', 0, HH(HB))],
    thorough=[R('rel', 'h_solver', 'hist', 2, 2, 4, 0, HH(BASE + ['-iuv'], ['']), 'gdn'), R('rel', 'h_solver', 'sched', 4, 3, 3, 1, HH(BASE, [''])), R('rel', 'h_solver', 'sched', 3, 3, 4, 2, HH(MAINS, [''])), R('rel', 'h_big', 'solve', SMALLFAM + ',' + HARD, 1, HH(HB)), R('rel', 'h_large', 'run', 'solve,half,enum3,limit,steps', LARGE, 0, HH(HB))],
    note='The activities compared are those shown in the details of the variables, printed with six decimals; they are predicted exactly only before the first conflict, and with restarts off and no clause arriving later as multiples of the increment. Where a restart or an added clause takes back assignments, the earlier and the later polarity are both accepted.',
    rule='a case is a formula, schedule or history and a configuration; it is non-trivial when a decision was taken or the clauses became unsatisfiable')
