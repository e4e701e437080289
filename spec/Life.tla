------------------------------- MODULE Life -------------------------------
(* The life cycle of estimators (C05).

   Estimators are numbered in the order in which they come into being.  An
   estimator has parameters and, once fitted, a model; the model is named by
   the parameters and the data of the fit it comes from.  k.ref[p][d] is the
   fingerprint of the model that a fresh estimator gives in a fresh process,
   k.pred[p][d][r] what it predicts for probe row r alone, and k.weak[p][d]
   the optimum of its master problem (-1: not determined); the first two count
   only where k.det[p][d] says that two fresh processes agree.

   Events: new(p), setp(e, p), clone(e), fit(e, d, ...), fitbad(e, ...),
           predict(e, rows, out, ...), early(e, ...)                       *)
EXTENDS Integers, Sequences, FiniteSets

Chk(name, cond) == IF cond THEN {} ELSE {name}
None == <<0, 0>>         \* no model
Unknown == <<-1, -1>>    \* a failed fit: nothing is said about the model until the next fit

Start(k) == <<>>         \* the estimators: [p, m]

GuardFit(k, s, e) ==
  LET p == s[e.e].p IN
  Chk("C05.fit_is_a_function_of_data_and_parameters", ~k.det[p][e.d] \/ e.fp = k.ref[p][e.d])
  \cup Chk("C05.fitted_optimum", k.weak[p][e.d] = -1 \/ (e.weak - k.weak[p][e.d] <= k.tol /\ k.weak[p][e.d] - e.weak <= k.tol))
  \cup Chk("C05.fit_returns_self", e.self)
  \cup Chk("C05.data_unchanged", e.pure)
  \cup Chk("C05.parameters_unchanged", e.params)
  \cup Chk("C05.lists_unchanged", e.lists)

GuardPredict(k, s, e) ==
  LET m == s[e.e].m IN
  IF m = None THEN {"C05.predicting_before_fitting_is_refused"}
  ELSE Chk("C05.prediction_is_that_of_the_fitted_model",
           \/ m = Unknown \/ ~k.det[m[1]][m[2]]
           \/ Len(e.out) = Len(e.rows) /\ \A i \in 1..Len(e.rows) : e.out[i] = k.pred[m[1]][m[2]][e.rows[i]])
       \cup Chk("C05.rows_are_independent", Len(e.out) = Len(e.rows) /\ \A i, j \in 1..Len(e.rows) : e.rows[i] = e.rows[j] => e.out[i] = e.out[j])
       \cup Chk("C05.batch_unchanged", e.pure)
       \cup Chk("C05.model_unchanged_by_predict", e.same)
       \cup Chk("C05.parameters_unchanged", e.params)
       \cup Chk("C05.lists_unchanged", e.lists)

Guard(k, s, e) ==
  CASE e.op = "new" -> Chk("C05.parameters_as_given", e.params)
    [] e.op = "setp" -> Chk("C05.parameters_as_given", e.params)
    [] e.op = "clone" -> Chk("C05.parameters_as_given", e.params)
    [] e.op = "fit" -> GuardFit(k, s, e)
    [] e.op = "fitbad" -> Chk("C05.bad_data_is_refused", e.refused) \cup Chk("C05.data_unchanged", e.pure)
    [] e.op = "predict" -> GuardPredict(k, s, e)
    [] e.op = "early" -> Chk("C05.predicting_before_fitting_is_refused", s[e.e].m # None \/ e.refused)
    [] OTHER -> {"C05.error"}

After(k, s, e) ==
  CASE e.op = "new" -> Append(s, [p |-> e.p, m |-> None])
    [] e.op = "setp" -> [s EXCEPT ![e.e].p = e.p]
    [] e.op = "clone" -> Append(s, [p |-> s[e.e].p, m |-> None])
    [] e.op = "fit" -> [s EXCEPT ![e.e].m = <<s[e.e].p, e.d>>]
    [] e.op = "fitbad" -> [s EXCEPT ![e.e].m = IF @ = None THEN None ELSE Unknown]
    [] OTHER -> s
==============================================================================
