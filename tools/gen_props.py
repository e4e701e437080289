"""Writes /verif/properties.jsonl (kept as a script so that the text stays in one place)."""
import json, os
G = 'col_gen_estimator/_col_gen_classifier.py'
B = 'col_gen_estimator/_bdr_classifier.py'
D = 'col_gen_estimator/_dtree_classifier.py'
T = 'col_gen_estimator/_parameter_tuner.py'
X = 'examples/dtree_experiment.py'
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


# ---------------------------------------------------------------- the loop
p('C01', 'Column generation loop: the subproblem protocol',
  'In every iteration the restricted master is solved once, then every subproblem of every level is updated with exactly that dual information before any pricing, and then the subproblems are asked for columns in increasing level and list order with the same training data, the integer-encoded labels, the current duals and their own parameter string. '
  'Every column a subproblem returns is offered to the master, in order and exactly once; as soon as one subproblem has had at least one column accepted no further subproblem is asked in that iteration, and a higher level is asked only when every subproblem of all lower levels failed to add a column. '
  'The loop goes on with a new iteration exactly when a column was accepted, and the integer master (if there is one) is solved once, after the loop.',
  ['histories', 'configurations'],
  'every hierarchy of subproblem levels, every sequence of column batches they may return and of accept/reject answers of the master, any number of iterations',
  'The tests only fit two tiny data sets with the built-in hierarchies and look at the final predictions; skipping an update, handing out stale duals or dropping part of a batch changes none of them.',
  [G], [('fit loop', G + ': ColGenClassifier.fit'), ('subproblem interface', G + ': BaseSubproblem')],
  ['calls received by the master problem and the subproblems'])
p('C02', 'Stopping rules and the optimality and time-limit flags',
  'Training ends only because the iteration limit is used up, the time limit is exceeded, or no subproblem could add a column, and optimality of the master is reported in the last case only. '
  'A positive iteration limit bounds the number of iterations and a negative one does not; once more time than a positive time limit has passed no further subproblem is asked, the time-limit flag is set and optimality is not reported, while a limit that was not exceeded never stops training or sets the flag. '
  'If the integer master cannot be solved, training fails instead of returning a fitted classifier.',
  ['schedules', 'configurations', 'histories'],
  'every combination of iteration and time limits, every duration of every master and subproblem call, the limit passing at any point between two calls',
  'No test sets a time limit, and none looks at the optimality or time-limit flags; the outcome depends on when the clock passes the limit inside an iteration.',
  [G], [('limits', G + ': ColGenClassifier.fit while loop')], ['mp_optimal_, time_limit_reached_, iter_, performed_iter_, is_fitted_'])
p('C03', 'Training statistics account for what happened',
  'After training, the iteration counter equals the number of times the restricted master was solved in the loop, the number of improving iterations equals the number of iterations whose master objective improved, and for every subproblem the number of added columns equals the number of its columns that the master accepted. '
  'The time booked on every subproblem is the sum of the durations of its updates and its pricing calls, the times booked on the restricted master, on adding columns and on the integer master are the durations of exactly these calls, and the elapsed time covers the whole run. '
  'The per-subproblem statistics always have the shape of the subproblem hierarchy, and every fit starts them from zero.',
  ['histories', 'schedules', 'configurations'],
  'every hierarchy, call history and duration of the individual calls',
  'No test reads any of the statistics.',
  [G], [('counters', G + ': ColGenClassifier.fit')], ['num_col_added_sp_, time_spent_sp_, time_spent_master_, time_add_col_, time_spent_master_ip_, time_elapsed_, num_improving_iter_, performed_iter_'])
p('C04', 'Class labels survive the round trip through training and prediction',
  'Whatever the type or spacing of the class labels, the problems see the labels encoded as 0..K-1 in the sorted order of the classes, the fitted classifier exposes the sorted distinct classes, and predictions are the original labels belonging to the codes chosen by the model. '
  'Fitting the same data under an order-preserving renaming of the labels gives a classifier whose predictions are renamed in the same way. '
  'Training data with a single class is refused with an error before any model is built.',
  ['inputs'],
  'label vectors of integers (negative, with gaps), integer-valued floats, booleans and strings, given as lists or arrays in any order and with any class frequencies, two classes for rules and two or more for trees',
  'The tests use 0/1 labels (and whatever the generic estimator checks of scikit-learn happen to use).',
  [G, B, D], [('label encoder', G + ': ColGenClassifier.fit'), ('inverse transform', B + ', ' + D + ': predict')])
p('C05', 'Estimator life cycle: fit, refit, set_params, clone, predict',
  'A fit depends only on its training data and on the parameters set at that moment: fitting again, on other data or after changing parameters, gives the model a fresh estimator would give, and a clone behaves like the original. '
  'Fitting and predicting do not modify the data, the parameters or the lists passed by the caller, predicting does not change the model, and the prediction for a row does not depend on the other rows of the batch. '
  'Predicting before fitting is refused.',
  ['histories', 'inputs'],
  'all histories of construct, set_params, clone, fit (on different data sets) and predict (on different batches) on one or several estimators',
  'The tests fit every estimator once; the generic checks cover the rule classifier on tame histories only and never the tree classifier.',
  [G, B, D], [('problems are created per fit', G + ': ColGenClassifier.fit'), ('parameters', B + ', ' + D + ': __init__')])
# ---------------------------------------------------------------- tuner
p('C06', 'Running statistics equal the statistics of the pushed values',
  'After any sequence of pushed values and resets, the count, mean, variance and standard deviation are those of the values pushed since the last reset (sample variance, zero for fewer than two values), also when the values share a large common offset. '
  'Reading a statistic changes nothing.',
  ['histories', 'inputs'], 'all sequences of push, clear and read with arbitrary numbers',
  'One test pushes one sequence of values and compares the statistics once, and never clears.',
  [T], [('Welford update', T + ': RunningStat.push')])
p('C07', 'Parameter tuner: exploration, attribution and convergence',
  'A tuned parameter always returns one of its values; during its exploration phase a two-valued parameter follows the switch pattern given by its flag and any other parameter draws among all values, and the phase lasts exactly the configured number of requests. '
  'After that, values with fewer than four observations are tried first, and then only values whose score (mean plus exploration bonus) is within a tenth of their standard deviation of the best score are returned, each of them with a chance. '
  'An observation is credited to the value returned last (or to the one named) and to no other, and the choices depend only on the seed and this parameter\'s own history.',
  ['histories', 'inputs'], 'all interleavings of requests and observations, any number of values, any flag, exploration count and score sequence',
  'Two tests follow one scripted history each with one seed.',
  [T], [('selection', T + ': Parameter.get_best_value'), ('credit', T + ': Parameter.adjust_score')])
p('C08', 'Solver feedback: solving a subproblem model tunes its parameters',
  'Every solve runs with the given time limit and with, for each tuned solver parameter, the value the tuner just chose, and afterwards credits exactly that value with minus the sum of a time score and a gap score. '
  'The time score is the fraction of the time limit used when the solve was optimal and 1 otherwise; the gap score is 0 for optimal, the gap relative to the larger of objective and bound when a feasible solution was found and both have the same sign, and 1 otherwise. '
  'The solve time and the gap are recorded once per solve.',
  ['histories', 'inputs'], 'all sequences of solves with any outcome (optimal, feasible, infeasible, unknown), objective, bound and duration',
  'No test solves more than one model per subproblem or looks at the tuner of a subproblem.',
  [G, T], [('score', G + ': BaseSubproblem.solve_model')])
# ---------------------------------------------------------------- BDR
p('C09', 'Rule master problem equals its definition after any column history',
  'After building it and adding any sequence of clauses, the restricted master of the rule learner is exactly: minimise p times the uncovered positives plus, for every clause, the number of negative rows satisfying it; each positive row is uncovered or covered by the clauses it satisfies; total complexity (one plus length per clause) at most C; all variables non-negative integers. '
  'The initial model holds the empty clause only, an empty clause is never added, a clause is never present twice, and building the model again or solving it changes nothing.',
  ['histories', 'inputs'], 'all 0/1 data sets, label vectors and sequences of clauses added, with solves in between, and all C and p',
  'The tests inspect single coefficients for one data set and one added clause.',
  [B], [('model', B + ': BDRMasterProblem.generate_mp'), ('columns', B + ': BDRMasterProblem.add_column')])
p('C10', 'Rule master: the returned duals certify the LP optimum',
  'The duals returned by solving the restricted master are non-negative, one for the complexity bound and one per positive row in data order, no column of the master prices out negative under them, and their dual objective equals the LP objective. '
  'This holds for every column set and after every further column.',
  ['histories', 'inputs'], 'all 0/1 data sets, C, p and histories of added clauses, solving after each',
  'One test compares the duals of one initial model.',
  [B], [('duals', B + ': BDRMasterProblem.solve_rmp')])
p('C11', 'Exact rule pricing finds the best clause or proves there is none',
  'For any non-negative duals, the exact subproblem of the rule learner returns a clause of minimal reduced cost among all clauses up to its maximum length when that cost is negative, and no clause otherwise. '
  'The answer depends on the current duals only, no matter how often and with which duals the same subproblem was solved before.',
  ['inputs', 'histories'], 'all 0/1 data sets, dual vectors, length bounds and sequences of pricing calls on one subproblem',
  'One test prices one dual vector once.',
  [B], [('pricing model', B + ': BDRSubProblem.create_submip / update_objective'), ('extraction', B + ': BDRSubProblem.generate_columns')])
p('C12', 'Heuristic rule pricing enumerates exactly the improving short clauses',
  'For any non-negative duals, the heuristic subproblem of the rule learner returns every clause of length 1 to K with negative reduced cost exactly once, and nothing else.',
  ['inputs', 'histories'], 'all 0/1 data sets, dual vectors and K',
  'One working test with one dual vector and K=1.',
  [B], [('enumeration', B + ': BDRHeuristic.generate_columns')])
p('C13', 'The chosen rule is the best rule that the generated clauses allow',
  'After solving the integer master, the chosen clauses were all generated before, their total complexity does not exceed C, and no other selection of generated clauses within C has a smaller sum of p times the uncovered positive rows plus the number of (negative row, satisfied clause) pairs. '
  'Solving it again or after adding further clauses gives the answer for the current clauses only.',
  ['histories', 'inputs'], 'all data sets, C, p and sets of generated clauses',
  'One test checks one explanation.',
  [B], [('integer master', B + ': BDRMasterProblem.solve_ip')])
p('C14', 'Rule prediction is the DNF semantics of the explanation',
  'A row is predicted as the positive (larger) class exactly if it satisfies all features of at least one clause of the explanation; the empty explanation predicts the other class everywhere and the empty clause is satisfied by every row. '
  'The prediction is the same for every representation of the same 0/1 rows (lists, integer, boolean or float arrays, sparse matrices).',
  ['inputs'], 'all explanations and all 0/1 rows',
  'Tests predict the training rows of one data set.',
  [B], [('prediction', B + ': BooleanDecisionRuleClassifier.predict'), ('satisfaction', B + ': BDRMasterProblem.satisfies_clause')])
p('C15', 'Rule learner: reported optimality means the full LP is solved',
  'Training the rule classifiers without limits terminates and reports optimality, no clause is ever generated twice, and then no clause up to length C at all has a negative reduced cost under the final duals, so that the final master objective is the LP optimum over all clauses. '
  'The rule finally chosen respects C, and its training objective is no better than that LP optimum and no worse than that of the empty rule or of any single generated clause within C.',
  ['inputs', 'configurations', 'histories'], 'all 0/1 training sets, C and p, for the classifiers with and without heuristic pricing',
  'The tests compare predictions on one data set.',
  [B, G], [('loop', G + ': ColGenClassifier.fit'), ('exact pricing', B + ': BDRSubProblem')])
# ---------------------------------------------------------------- trees
p('C16', 'Tree geometry: nodes of a path and sides of a leaf',
  'In a complete tree of any depth with heap-numbered nodes and leaves numbered from left to right, setting a path to a leaf lists exactly the inner nodes between root and leaf (parent first), and creating a leaf splits the same nodes into those passed through their left and those passed through their right branch. '
  'Repeating the call, or using the object for another leaf or depth, gives the same answer as a new object.',
  ['inputs', 'histories'], 'all depths and leaves',
  'Tests check depth 2 only.',
  [D], [('path nodes', D + ': Path.set_leaf'), ('leaf sides', D + ': Leaf.create_leaf')])
p('C17', 'Rows follow splits: left iff the feature value is at most the threshold',
  'A row follows a path exactly if at every node of the path it takes the branch leading to the leaf, where it branches left if and only if its feature value is at most the threshold of the split chosen there; hence in every consistent complete tree each row follows exactly one path. '
  'The sets of rows and of cuts that satisfy a path, computed from the stored per-split sets, are exactly those taking the right branch at every node, in whatever order the path lists its nodes, and computing them does not change the stored sets.',
  ['inputs'], 'all rows (including values equal to a threshold and negative values), splits, depths and paths',
  'The tests route eight 0/1 rows through one tree; no test has a value equal to its threshold.',
  [D], [('routing', D + ': row_satisfies_path'), ('row sets', D + ': get_satisfied_rows'), ('cut sets', D + ': get_satisfied_cuts')])
p('C18', 'Path identity',
  'Two paths are reported the same exactly if they have the same leaf, target and cost and choose the same split at the same nodes, irrespective of the order in which the nodes are listed, and the comparison is symmetric and changes neither path.',
  ['inputs'], 'all pairs of paths',
  'The test tries seven pairs.',
  [D], [('comparison', D + ': Path.is_same_as')])
p('C19', 'Tree master problem equals its definition after any history',
  'After building it and adding any sequence of paths and cuts, the restricted master of the tree learner maximises the summed costs of the chosen paths subject to exactly one path per leaf, at most one path per data row that is kept, agreement of all leaves below a node on the split used there (through one variable per node and candidate split), and exactly one path per cut, each path appearing in exactly the constraints it belongs to. '
  'Paths get distinct identifiers that stay valid, and building the model twice changes nothing.',
  ['histories', 'inputs', 'configurations'], 'all depths, splits, candidate lists, data sets, initial paths, and sequences of added paths interleaved with solves that add row constraints or cuts, for every way of treating row constraints',
  'Tests check the dual values of one master with one added column and never use cuts.',
  [D], [('model', D + ': DTreeMasterProblem.generate_mp'), ('columns', D + ': DTreeMasterProblem.add_column')])
p('C20', 'Cutting planes are valid, violated, bounded per round and announced',
  'A cutting round adds only constraints that every consistent tree satisfies: either row constraints of kept data rows, at most ten per round and each at most once, or cuts given by an assignment of branches to all splits, containing exactly the paths that follow the assignment. '
  'Only rows and assignments whose constraint was not met by the LP solution of that moment are added, a round does find a row constraint (if rows are handled as cuts), or else a cut, if one is violated, and rounds happen only every tenth master solve and at most the configured number of times. '
  'Every added cut is announced to the subproblems once, in the order of the cut duals, and counted.',
  ['histories', 'configurations'], 'all LP solutions, column histories and cut configurations',
  'No test enables cuts.',
  [D], [('generated cuts', D + ': DTreeMasterProblem.add_cuts, CutGenerator'), ('row cuts', D + ': DTreeMasterProblem.add_beta_cuts'), ('rounds', D + ': DTreeMasterProblem.solve_rmp')])
p('C21', 'Tree master: the returned duals certify the LP optimum',
  'The duals returned by solving the tree master are one per leaf, one per data row (zero for rows without constraint, never negative), one per (leaf, node, candidate split) and one per cut; no path of the master prices out positive under them, no split variable does, and the dual objective equals the LP objective. '
  'An improvement is reported exactly if the LP objective is larger than in the previous solve.',
  ['histories', 'inputs', 'configurations'], 'all instances, column and cut histories, solving after each change',
  'Two tests compare the duals of one instance, without cuts or row constraints as cuts.',
  [D], [('duals', D + ': DTreeMasterProblem.solve_rmp'), ('improvement', D + ': DTreeMasterProblem.rmp_objective_improved')])
p('C22', 'Every generated path is a real path with exact cost and positive reduced cost',
  'Whatever the duals, every path returned by any of the tree subproblems (random heuristic, CP-SAT, MIP and the original per-target model) belongs to its leaf, lists exactly the nodes of that leaf with a candidate split for each, carries one of the targets, and its cost is exactly the weighted number of kept rows that follow it and have its target. '
  'Its reduced cost under the current leaf, row, consistency and cut duals is positive; the heuristic additionally never returns a path twice in a call and always uses the best target.',
  ['inputs', 'histories', 'configurations'], 'all instances with any depth, classes, row weights and removed rows, all dual vectors and cut histories, repeated calls on one subproblem, all solutions found on the way to the optimum',
  'The tests price one dual vector per subproblem and check one path.',
  [D], [('CP-SAT model', D + ': DTreeSubProblemSat, PathGenerator'), ('MIP model', D + ': DTreeSubProblem'), ('original model', D + ': DTreeSubProblemOld'), ('heuristic', D + ': DTreeSubProblemHeuristic')])
p('C23', 'Exact tree pricing finds a best path or proves there is none',
  'For any duals, each exact tree subproblem returns a path of maximal reduced cost for its leaf (and its target, for the per-target model) when that maximum is positive, and nothing when it is not. '
  'The answer depends only on the current duals and the cuts announced so far, however often the subproblem was solved before.',
  ['inputs', 'histories', 'configurations'], 'all instances, dual vectors, cut histories and sequences of pricing calls on one subproblem',
  'The tests price one or two dual vectors on one instance and never with cuts.',
  [D], [('CP-SAT model', D + ': DTreeSubProblemSat'), ('MIP model', D + ': DTreeSubProblem'), ('original model', D + ': DTreeSubProblemOld')])
p('C24', 'The chosen paths form the best consistent tree of the generated paths',
  'After training, the chosen paths contain exactly one path per leaf and agree on the split of every shared node, so they form a complete tree. '
  'No other consistent choice among the generated paths has a larger total cost; in particular the tree is never worse than the one given by the initial paths.',
  ['inputs', 'histories', 'configurations'], 'all instances, initial paths, configurations and column histories, with any limit stopping the training',
  'The tests check the predictions of one tree on its training data.',
  [D], [('integer master', D + ': DTreeMasterProblem.solve_ip'), ('consistency constraints', D + ': DTreeMasterProblem.generate_mp / add_column')])
p('C25', 'Tree prediction routes every row to its leaf and returns the leaf target',
  'A fitted tree predicts for every row, seen in training or not, the class of the target of the one chosen path the row follows. '
  'On the training data the number of correct predictions equals the objective value of the chosen tree (the total cost of its paths).',
  ['inputs'], 'all fitted trees and all rows, in any representation accepted by predict',
  'The tests predict the eight training rows of one instance.',
  [D], [('prediction', D + ': DTreeClassifier.predict')])
p('C26', 'Row preprocessing is exact and does not change the problem',
  'Preprocessing records for every row exactly the nodes, leaves and paths it can reach and the branch it takes on every split; it drops the row constraint only of rows that reach at most two leaves or (in aggressive mode) behave like another kept row, and merges a row in the pricing only into a row of the same class behaving identically, whose weight then counts both. '
  'Hence row weights always add up to the number of rows of each class, the node links describe the complete tree, and neither path costs nor the best tree change.',
  ['inputs', 'configurations'], 'all data sets, splits, candidate lists and depths, both modes',
  'No test looks at preprocessed rows.',
  [D, X], [('rows', D + ': DTreeMasterProblem.preprocess_rows'), ('weights', X + ': preprocess')])
p('C27', 'The experiment pipeline builds a well-formed instance',
  'From any training file in which the attributes do not all have a single value, with two or more classes, the experiment builds splits with distinct feature/threshold pairs numbered consecutively, complete trees whose nodes all have candidate splits, and initial paths that use candidate splits only, carry the exact cost and best target, and contain one consistent path for every leaf. '
  'The instance passed to the tree classifier is therefore one on which its guarantees apply.',
  ['inputs', 'configurations'], 'all training tables with at least one split, and depths',
  'The example is not tested at all.',
  [X], [('instance construction', X + ': main, get_all_leaves_paths, get_path_for_leaf, reduce_splits, merge_all_nodes')])
p('C28', 'Tree learner: reported optimality means the full LP is solved',
  'Whenever training the tree classifier ends with optimality reported, no path of any leaf over the candidate splits has a positive reduced cost under the final duals, so that the final master objective is an upper bound on the training accuracy of every tree using the candidate splits. '
  'No path is generated twice, and training without limits terminates.',
  ['inputs', 'configurations', 'histories'], 'all small instances, classes, depths, row treatments, cut settings and subproblem choices',
  'The tests compare predictions of one instance.',
  [D, G], [('loop', G + ': ColGenClassifier.fit'), ('exact pricing', D + ': DTreeSubProblemSat, DTreeSubProblemOld')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
print(len(P))
